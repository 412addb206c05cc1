"""P30: the generated Vc wrapper against a stand-in of the Vc library (harness/vc.cpp)."""
import json, os
import vlib
from chk_wrap import Broken, sh

ASSUME = ["the Vc library itself is not installed: a stand-in with its interface and element by element operations takes its place (harness/vc/Vc/Vc)"]
WIDTHS = [(2, 4), (4, 8), (1, 1), (8, 16), (2, 2)]              # vectors of doubles and floats: SSE, AVX, scalar, AVX-512, other
STUB = 'extern "C" { unsigned long vc_misuse; }\n'


def commands(ctx):
    d = ctx.path("gen")
    os.makedirs(d, exist_ok=True)
    sh(["python3", os.path.join(vlib.REPO, "src/vc_wrapper_generator.py")], cwd=d)
    open(os.path.join(d, "stub.cc"), "w").write(STUB)
    sig = vlib.signatures(ctx)
    jobs = []

    def lib(w):
        sh(["g++", "-std=c++11", "-w", "-O2", "-fPIC", "-shared", "-DVC_WIDTH_D=%d" % w[0], "-DVC_WIDTH_F=%d" % w[1], "-I" + d, "-I" + os.path.join(vlib.H, "vc"), os.path.join(d, "vdtdiag_vcWrapper.cc"), os.path.join(d, "stub.cc"), "-Wl,-z,defs", "-o", os.path.join(d, "libvc%d_%d.so" % w)])

    o, s = ctx.path("vc.o"), ctx.path("sig.o")
    vlib.parallel([lambda w=w: lib(w) for w in WIDTHS] + [
        lambda: sh(["g++", "-std=gnu++17", "-w", "-O1", "-c", "-I" + d] + vlib.INC + [os.path.join(vlib.H, "vc.cpp"), "-o", o]),
        lambda: sh(["g++", "-std=c++11", "-w", "-O1", "-c"] + vlib.INC + [sig, "-o", s])])
    r = []
    for i, w in enumerate(WIDTHS):
        exe, run = ctx.path("vc-%d-%d" % w), ctx.path("run-%d-%d" % w)
        os.makedirs(run, exist_ok=True)
        sh(["g++", o, s, os.path.join(d, "libvc%d_%d.so" % w), "-Wl,-rpath," + d, "-o", exe, "-lrapidcheck", "-lpthread", "-ldl"])
        r.append(("%d doubles, %d floats" % w, [exe, "--prop", "P30", "--seed", str(ctx.seed + 1000 * i), "--tier", ctx.tier, "--threads", "8", "--dir", run]))
    return r


def prepare(ctx):
    cmds = commands(ctx)
    return dict(replay=lambda path: any(vlib.replay_cmd(c, path) for _, c in cmds))


def check(ctx):
    try:
        cmds = commands(ctx)
    except Broken as e:
        rep = ctx.path("build.txt")
        open(rep, "w").write("# the generated wrapper or a client of its header does not build\n%s\n" % e)

        def again(_):
            try:
                commands(ctx)
                return False
            except Broken:
                return True
        return vlib.finish(ctx, dict(evaluations=1, distinct_nontrivial=1, rule="build of generated code", samples=[str(e)[:300]]), [dict(replay=rep, what="the generated Vc wrapper cannot be built or used: " + str(e)[-600:])], again, ASSUME)
    res, tasks = [], {}
    for label, cmd in cmds:
        out = ctx.path("result-%s.json" % label.replace(", ", "-").replace(" ", ""))
        p = vlib.run(cmd + ["--out", out])
        if p.returncode not in (0, 1) or not os.path.exists(out):
            raise vlib.CheckError("harness failed: rc=%d %s" % (p.returncode, p.stderr.decode(errors="replace")[-2000:]))
        r = json.load(open(out))
        for f in r["failures"]:
            f["what"] = "[vectors of %s] %s" % (label, f["what"])
            tasks[f["replay"]] = cmd
        res.append(r)
    cov, fails = vlib.merge(res)
    return vlib.finish(ctx, cov, fails, lambda path: vlib.replay_cmd(tasks[path], path), ASSUME)
