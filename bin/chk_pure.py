"""P13: histories, threads and ways of calling (harness/pure.cpp)."""
import vlib

ASSUME = ["a freshly loaded copy of the library is free of state left by other calls", "NaNs count as equal whatever their payload"]


def prepare(ctx):
    vlib.signatures(ctx)
    fl = vlib.LIBFLAGS + ["-fno-gnu-unique"]
    r = vlib.parallel([lambda: vlib.build_sut(ctx, "single-call", flags=fl), lambda: vlib.build_sut(ctx, "through-a-pointer", flags=fl + ["-DSUT_MODE=1"]),
                       lambda: vlib.build_sut(ctx, "inlined-in-a-loop", flags=fl + ["-DSUT_MODE=2"]), lambda: vlib.build(ctx, "pure.cpp", "pure")])
    cmd = [r[3], "--prop", ctx.prop, "--dict", vlib.harvest(ctx), "--seed", str(ctx.seed), "--tier", ctx.tier, "--threads", str(vlib.NPROC), "--sut", "single=" + r[0], "--sut", "through a pointer=" + r[1], "--sut", "inlined in a loop=" + r[2]]
    return dict(cmd=cmd, replay=lambda path: vlib.replay_cmd(cmd, path))


def check(ctx):
    return vlib.engine_check(ctx, prepare(ctx), ASSUME)
