"""Numeric properties: arguments generated by harness/engine.h, decided by harness/num.cpp."""
import json, os, subprocess
import vlib


def cpuflags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":")[1].split())
    except OSError:
        pass
    return set()


def configs():
    have = cpuflags()
    isa = {"sse": ["-msse"], "avx": ["-mavx"], "avx2": ["-mavx2"], "avx2fma": ["-mavx2", "-mfma"], "avx512fma": ["-mavx512f", "-mavx512vl", "-mavx512dq", "-mavx512bw", "-mfma", "-mprefer-vector-width=512"]}
    need = {"sse": set(), "avx": {"avx"}, "avx2": {"avx2"}, "avx2fma": {"avx2", "fma"}, "avx512fma": {"avx512f", "avx512vl", "avx512dq", "avx512bw", "fma"}}
    lst = [("g++", "O3", "sse", "c++11"), ("g++", "O0", "sse", "c++14"), ("g++", "O1", "sse", "c++17"), ("g++", "O2", "sse", "c++20"), ("g++", "O3", "avx", "c++11"), ("g++", "O3", "avx2", "c++11"),
           ("g++", "O3", "avx2fma", "c++11"), ("g++", "O2", "avx512fma", "c++17"),
           ("clang++", "O0", "sse", "c++11"), ("clang++", "O1", "sse", "c++14"), ("clang++", "O2", "sse", "c++17"), ("clang++", "O3", "sse", "c++11"), ("clang++", "O3", "avx", "c++20"), ("clang++", "O3", "avx2", "c++11"), ("clang++", "O2", "avx2fma", "c++11"),
           ("clang++", "O3", "avx512fma", "c++17")]
    return [("%s-%s-%s" % (c.replace("+", "p"), o, i), c, ["-" + o, "-std=" + s] + isa[i]) for c, o, i, s in lst if need[i] <= have or not need[i]]


def prepare(ctx):
    n = int(ctx.prop[1:])
    vlib.signatures(ctx)
    suts = {}
    jobs = []
    if n == 16:
        for label, cxx, fl in configs():
            jobs.append(lambda label=label, cxx=cxx, fl=fl: suts.__setitem__(label, vlib.build_sut(ctx, label, cxx, fl)))
        order = [c[0] for c in configs()]
    else:
        jobs.append(lambda: suts.__setitem__("default", vlib.build_sut(ctx)))
        order = ["default"]
        if n == 14:  # what the optimiser removes may raise a flag in an unoptimised program
            more = {"g++ -O0": ["-O0", "-std=c++11"], "g++ -O1": ["-O1", "-std=c++11"]}
            if {"avx2", "fma"} <= cpuflags():
                more["g++ -O3 -mavx2 -mfma"] = ["-O3", "-std=c++11", "-mavx2", "-mfma"]
            for l, fl in more.items():
                jobs.append(lambda l=l, fl=fl: suts.__setitem__(l, vlib.build_sut(ctx, l.replace(" ", ""), "g++", fl)))
            order += list(more)
    exe = {}
    jobs.append(lambda: exe.__setitem__("x", vlib.build(ctx, "num.cpp", "num", defines=["PROP=%d" % n], libs=["-lquadmath"])))
    vlib.parallel(jobs)
    d = vlib.harvest(ctx)
    cmd = [exe["x"], "--prop", ctx.prop, "--dict", d, "--seed", str(ctx.seed), "--tier", ctx.tier, "--threads", str(vlib.NPROC)]
    for l in order:
        cmd += ["--sut", "%s=%s" % (l, suts[l])]

    def replay(path):
        return vlib.replay_cmd(cmd, path)
    return dict(cmd=cmd, replay=replay)


ASSUME = ["glibc double and long double and libquadmath references are right within 1 ulp of their format",
          "the functions are reached by scalar calls and through the generated array functions, compiled as the default build does (-O3 -msse, gcc)"]


def check(ctx):
    r = prepare(ctx)
    return vlib.engine_check(ctx, r, ASSUME)

