"""P26: entry points of the generated wrapper library (harness/wrap.cpp)."""
import json, os, subprocess
import vlib

ASSUME = ["scalar fast functions of the same tree are the reference; std::fma, division and root of the machine are exact",
          "the wrapper is built without the Linux multi-version attributes: this compiler's assembler output for them is rejected even for a two line program"]
BUILDS = [("plain", "g++", ["-O3"]), ("avx2", "g++", ["-O3", "-mavx2", "-ffp-contract=off"]), ("unoptimised", "g++", ["-O0"]), ("clang", "clang++", ["-O2"])]


class Broken(Exception):
    pass


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if p.returncode:
        raise Broken("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-3000:]))


def generate(d):
    """files of the wrapper, written by the generator of the tree"""
    os.makedirs(d, exist_ok=True)
    sh(["python3", os.path.join(vlib.REPO, "src/numpy_wrapper_generator.py")], cwd=d)


def library(d, label="plain", cxx="g++", flags=("-O3",)):
    so = os.path.join(d, "libvdtFatLibWrapper.so" if label == "plain" else "wrap-%s.so" % label)
    sh([cxx, "-std=c++11", "-U__linux__", "-w"] + list(flags) + ["-shared", "-fPIC", "-I" + d, "-I" + os.path.join(vlib.REPO, "include"), "-I" + os.path.join(vlib.REPO, "src"),
        os.path.join(d, "vdtFatLibWrapper.cc"), "-Wl,-z,defs", "-o", so])
    return so


def wrapper(ctx):
    d = ctx.path("gen")
    generate(d)
    vlib.parallel([lambda b=b: library(d, *b) for b in BUILDS])
    return d


def client(ctx, d):
    o = ctx.path("wrap.o")
    sh(["g++", "-std=gnu++17", "-w", "-O1", "-c", "-I" + d] + vlib.INC + [os.path.join(vlib.H, "wrap.cpp"), "-o", o])
    exes = []
    for label, _, _ in BUILDS:
        lib = "libvdtFatLibWrapper.so" if label == "plain" else "wrap-%s.so" % label
        exe = ctx.path("wrap-" + label)
        sh(["g++", o, os.path.join(d, lib), "-Wl,-rpath," + d, "-o", exe, "-lrapidcheck", "-lpthread", "-ldl"])
        exes.append((label, exe))
    return exes


def commands(ctx):
    sut = vlib.build_sut(ctx)
    exes = client(ctx, wrapper(ctx))
    r = []
    for i, (label, exe) in enumerate(exes):
        run = ctx.path("run-" + label)
        os.makedirs(run, exist_ok=True)
        r.append((label, [exe, "--prop", "P26", "--seed", str(ctx.seed + 1000 * i), "--tier", ctx.tier, "--threads", "8", "--dir", run, "--sut", sut] + (["--scale", "0.4", "--nohuge"] if i else [])))
    return r


def prepare(ctx):
    cmds = commands(ctx)
    return dict(replay=lambda path: any(vlib.replay_cmd(c, path) for _, c in cmds))


def check(ctx):
    try:
        cmds = commands(ctx)
    except Broken as e:
        rep = ctx.path("build.txt")
        open(rep, "w").write("# the generated wrapper or a client of its header does not build\n%s\n" % e)
        cov = dict(evaluations=1, distinct_nontrivial=1, rule="build of generated code", samples=[str(e)[:300]])

        def again(_):
            try:
                commands(ctx)
                return False
            except Broken:
                return True
        return vlib.finish(ctx, cov, [dict(replay=rep, what="the generated wrapper cannot be built or used: " + str(e)[-600:])], again, ASSUME)
    res, tasks = [], {}
    for label, cmd in cmds:
        out = ctx.path("result-%s.json" % label)
        p = vlib.run(cmd + ["--out", out])
        if p.returncode not in (0, 1) or not os.path.exists(out):
            raise vlib.CheckError("harness failed: rc=%d %s" % (p.returncode, p.stderr.decode(errors="replace")[-2000:]))
        r = json.load(open(out))
        for f in r["failures"]:
            f["what"] = "[%s build] %s" % (label, f["what"])
            tasks[f["replay"]] = cmd
        res.append(r)
    cov, fails = vlib.merge(res)
    return vlib.finish(ctx, cov, fails, lambda path: vlib.replay_cmd(tasks[path], path), ASSUME)
