"""P18, P19, P20, P21, P22, P23, P25, P32: diagnostics classes driven by rapidcheck (harness/diag.cpp)."""
import os
import vlib

ASSUME = {
    "P18": ["signalling NaNs are not generated (their quieting is a matter of the processor)", "spread is judged on intervals holding at least 65536 numbers, 10 standard deviations"],
    "P19": ["signalling NaNs are not generated"],
    "P20": ["signalling NaNs are not generated", "comparisons have at least one entry"],
    "P21": ["neighbouring numbers across zero are excluded (their patterns are not adjacent)"],
    "P22": ["option names are distinct and contain no ="],
    "P23": ["libm gives the reference values", "names of entries this catalogue does not know are not judged"],
    "P32": ["format flags of the stream are the default ones before the first listing", "a number is shown to at least digits10-1 decimal digits"],
    "P25": ["the clock is replaced by one which only the measured function advances", "at least one input and one repetition"],
}


def prepare(ctx):
    sig, o = vlib.signatures(ctx), ctx.path("sig.o")
    jobs = [lambda: vlib.compile_(["g++"] + vlib.LIBFLAGS + ["-w", "-c"] + vlib.INC + [sig, "-o", o], "array functions"),
            lambda: vlib.compile_(["g++", "-std=gnu++17", "-w", "-O1", "-DPROP=" + ctx.prop[1:], "-c"] + vlib.INC + [os.path.join(vlib.H, "diag.cpp"), "-o", ctx.path("diag.o")], "diag.cpp")]
    vlib.parallel(jobs)
    exe = ctx.path("diag")
    vlib.compile_(["g++", "-rdynamic", ctx.path("diag.o"), o, "-o", exe, "-lrapidcheck", "-lpthread", "-ldl"], "diag")
    d = ctx.path("run")
    os.makedirs(d, exist_ok=True)
    cmd = [exe, "--prop", ctx.prop, "--seed", str(ctx.seed), "--tier", ctx.tier, "--threads", "8", "--dir", d]
    return dict(cmd=cmd, replay=lambda path: vlib.replay_cmd(cmd, path))


def check(ctx):
    return vlib.engine_check(ctx, prepare(ctx), ASSUME[ctx.prop])
