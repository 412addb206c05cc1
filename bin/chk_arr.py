"""P09, P10: generated array calls between guard pages (harness/arr.cpp)."""
import vlib

ASSUME = ["scalar values come from the inline functions compiled in the same library without vectorisation; standard values from libm",
          "default build (gcc -O3 -msse); other instruction sets are covered by P16"]


def prepare(ctx):
    vlib.signatures(ctx)
    r = vlib.parallel([lambda: vlib.build_sut(ctx), lambda: vlib.build(ctx, "arr.cpp", "arr")])
    cmd = [r[1], "--prop", ctx.prop, "--dict", vlib.harvest(ctx), "--seed", str(ctx.seed), "--tier", ctx.tier, "--threads", str(vlib.NPROC), "--sut", r[0]]
    return dict(cmd=cmd, replay=lambda path: vlib.replay_cmd(cmd, path))


def check(ctx):
    return vlib.engine_check(ctx, prepare(ctx), ASSUME)
