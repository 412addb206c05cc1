"""P33: generated histories of build configurations, carried out by cmake in a scratch copy of the tree.

A case is a JSON object: compiler, generator, list of steps (options of one configuration, whether it is built). After the last
step the tree is built and installed; the installed headers and library, and the diagnostic programs, are compared with
reference builds made by direct calls of the compiler."""
import json, math, os, random, shutil, struct, subprocess, concurrent.futures as cf
import vlib, chk_hdr

ASSUME = ["Linux on x86-64, the compilers and generators present", "warnings are not treated as errors", "path names without blanks", "Vc is not installed: USE_VC must fall back", "with FMA results may differ by 1e-13 (double) and 1e-5 (float), relative"]
OPTS = ["DIAG", "AVX", "AVX2", "FMA", "SSE", "BUILD_SHARED_LIBS", "PRELOAD", "DEBUG", "USE_VC"]
DEFAULT = dict(SSE="ON", BUILD_SHARED_LIBS="ON")
LIBM = ["asin", "acos", "atan", "atan2", "cos", "exp", "log", "sin", "tan", "tanh"]
HEADERS = ["asin.h", "atan.h", "tanh.h", "atan2.h", "cos.h", "exp.h", "identity.h", "inv.h", "log.h", "sincos.h", "sin.h", "sqrt.h", "tan.h", "vdtcore_common.h", "vdtMath.h"]
SKIP = {".git", "_build", "bin", "Vc"}
SEED = 987654321


class Bad(Exception):
    pass


def sh(cmd, what, cwd=None, env=None, timeout=800):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise vlib.CheckError("no answer: " + " ".join(cmd))
    t = p.stdout.decode(errors="replace")
    if p.returncode:
        e = [l for l in t.splitlines() if "error" in l.lower() or "undefined" in l or "not found" in l]
        raise Bad("%s: %s" % (what, (e or t.splitlines()[-1:] or ["status %d" % p.returncode])[0][:300]))
    return t


def on(o, k):
    return o.get(k, DEFAULT.get(k, "OFF")) == "ON"


def effective(case):
    """options in force after the last step: the cache keeps those which a step does not name"""
    o = {}
    for s in case["steps"]:
        o.update(s["opts"])
    return o


def client():
    return chk_hdr.source(0, ["vdtMath.h"], SEED, True).replace('#include "vdtMath.h"', "#include VDTMATH")


# the standard functions as a program sees them which knows nothing of VDT
STDPROG = "#include <math.h>\n#include <stdio.h>\n#include <string.h>\nvolatile double d1=0.3712, d2=0.8125; volatile float f1=0.3712f, f2=0.8125f;\nint main() { double r; float q; unsigned long long b; unsigned c;\n" + "".join(
    "  r = %s(d1%s); memcpy(&b, &r, 8); printf(\"%s %%llx\\n\", b); q = %sf(f1%s); memcpy(&c, &q, 4); printf(\"%sf %%x\\n\", c);\n" % (f, ", d2" if f == "atan2" else "", f, f, ", f2" if f == "atan2" else "", f) for f in LIBM) + "  return 0; }\n"
FASTPROG = "#include \"vdtMath.h\"\n" + STDPROG
for _f in LIBM:
    FASTPROG = FASTPROG.replace("r = %s(" % _f, "r = vdt::fast_%s(" % _f).replace("q = %sf(" % _f, "q = vdt::fast_%sf(" % _f)


def same(a, b, fma):
    if a == b:
        return True
    if not fma or a is None or b is None or "nan" in (a, b):
        return False
    w = 16 if max(len(a), len(b)) > 8 else 8
    f, t = (">d", 1e-13) if w == 16 else (">f", 1e-5)
    x, y = (struct.unpack(f, bytes.fromhex(s.zfill(w)))[0] for s in (a, b))
    return abs(x - y) <= t * max(abs(x), abs(y))


def table(text):
    return {l.rsplit(" ", 1)[0]: l.rsplit(" ", 1)[1] for l in text.splitlines() if " " in l}


def reference(ctx):
    """results of direct compilations with the default flags"""
    d = ctx.path("ref")
    if os.path.isdir(d):
        return
    os.makedirs(d)
    inc = ["-I" + os.path.join(vlib.REPO, "include"), "-I" + os.path.join(vlib.REPO, "include/diagnostic")]
    open(d + "/client.cpp", "w").write(client() + "int main() { unit_0(%dull); }\n" % SEED)
    open(d + "/std.c", "w").write(STDPROG)
    open(d + "/fast.cpp", "w").write(FASTPROG)
    gxx = ["g++", "-O3", "-std=c++11", "-msse", "-w", "-fPIC"] + inc
    try:
        sig = vlib.signatures(ctx)
        sh(gxx + ["-shared", sig, "-o", d + "/libvdt.so"], "library")
        sh(gxx + ['-DVDTMATH="vdtMath.h"', d + "/client.cpp", d + "/libvdt.so", "-Wl,-rpath," + d, "-o", d + "/client"], "client")
        sh(gxx + [d + "/fast.cpp", "-o", d + "/fast"], "fast client")
        sh(["gcc", "-O0", "-fno-builtin", "-w", d + "/std.c", "-lm", "-o", d + "/std"], "libm client")
        sh(gxx + [os.path.join(vlib.REPO, "progs/vdtArithmBenchmark.cpp"), d + "/libvdt.so", "-Wl,-rpath," + d, "-o", d + "/bench"], "benchmark")
        os.makedirs(d + "/out")
        ref = dict(client=table(sh([d + "/client"], "client")), fast=table(sh([d + "/fast"], "fast client")), std=table(sh([d + "/std"], "libm client")))
        sh([d + "/bench", "-n=x", "-s=40"], "benchmark", cwd=d + "/out")
    except Bad as e:
        raise vlib.CheckError("cannot build the reference: %s" % e)
    ref["files"] = {f: open(os.path.join(d, "out", f), "rb").read() for f in os.listdir(d + "/out")}
    if len(ref["files"]) < 90 or len(ref["client"]) < 300 or len(ref["fast"]) != 20:
        raise vlib.CheckError("reference is incomplete")
    ctx.ref = ref


def judge(ctx, case, tag):
    d = ctx.path("case-" + tag)
    try:
        return _judge(ctx, case, d)
    except Bad as e:
        return str(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def text(case):
    return "%s, %s, %s" % (case["cxx"], case["generator"], " then ".join((" ".join("%s=%s" % kv for kv in sorted(s["opts"].items())) or "defaults") + (" (built)" if s["build"] else "") for s in case["steps"]))


def _judge(ctx, case, d):
    src, bld, pre = d + "/s", d + "/b", d + "/p"
    os.makedirs(d)
    shutil.copytree(vlib.REPO, src, symlinks=True, ignore=lambda p, names: [n for n in names if n in SKIP and os.path.realpath(p) == os.path.realpath(vlib.REPO)] + [n for n in names if n in ("vdtMath_signatures.cc", "__pycache__")])
    env = {k: v for k, v in os.environ.items() if k not in ("CXX", "CC", "CFLAGS", "CXXFLAGS", "LDFLAGS")}
    at = "(%s) " % text(case)
    for i, s in enumerate(case["steps"]):
        sh(["cmake", "-S", src, "-B", bld, "-G", case["generator"], "-DCMAKE_CXX_COMPILER=" + case["cxx"], "-DCMAKE_INSTALL_PREFIX=" + pre, "-DUSERFLAGS=-Wno-error"] + ["-D%s=%s" % kv for kv in sorted(s["opts"].items())], at + "does not configure", env=env)
        if s["build"] or i + 1 == len(case["steps"]):
            sh(["cmake", "--build", bld, "-j2"], at + "does not build", env=env)
    sh(["cmake", "--install", bld], at + "does not install", env=env)
    o = effective(case)
    fma, shared, preload = on(o, "FMA"), on(o, "BUILD_SHARED_LIBS"), on(o, "PRELOAD")
    lib = pre + ("/lib/libvdt.so" if shared else "/lib/libvdt.a")
    for f in [lib] + [pre + "/include/vdt/" + h for h in HEADERS]:
        if not os.path.isfile(f):
            return at + "%s is not installed" % f[len(pre) + 1:]
    # a program using nothing but the installation; the source tree is moved away
    os.rename(src, src + "-away")
    open(d + "/client.cpp", "w").write(client() + "int main() { unit_0(%dull); }\n" % SEED)
    link = ["-L" + pre + "/lib", "-lvdt", "-Wl,-rpath," + pre + "/lib"]
    sh([case["cxx"], "-O2", "-std=c++11", "-w", "-DVDTMATH=<vdt/vdtMath.h>", "-I" + pre + "/include", d + "/client.cpp"] + link + ["-o", d + "/client"], at + "program using the installation does not build", env=env)
    got = table(sh([d + "/client"], at + "program using the installation fails", env=env))
    for k, v in ctx.ref["client"].items():
        ref = v
        if preload and not k.startswith("fast_"):      # the functions without prefix may then be the fast ones
            if got.get(k) is None:
                return at + "no result of " + k
            continue
        if not same(got.get(k), ref, fma):
            return at + "%s: %s instead of %s" % (k, got.get(k), ref)
    # the standard names are offered exactly when asked for
    names = {l.split()[-1] for l in sh(["nm", "-D" if shared else "-g", "--defined-only", lib], "nm").splitlines() if len(l.split()) == 3}
    for f in LIBM:
        for n in (f, f + "f"):
            if (n in names) != preload:
                return at + "symbol %s is %s in the library" % (n, "present" if n in names else "missing")
    std = table(sh([ctx.path("ref") + "/std"], "libm client", env=dict(env, LD_PRELOAD=lib) if shared else env))
    for k, v in (ctx.ref["fast"] if preload and shared else ctx.ref["std"]).items():
        if not same(std.get(k), v, fma):
            return at + "%s of a program with the library preloaded: %s instead of %s" % (k, std.get(k), v)
    if on(o, "DIAG"):
        os.rename(src + "-away", src)
        b = src + "/bin/"
        out = d + "/out"
        os.makedirs(out)
        sh([b + "vdtArithmBenchmark", "-n=x", "-s=40"], at + "accuracy benchmark fails", cwd=out, env=env)
        files = {f: open(os.path.join(out, f), "rb").read() for f in os.listdir(out)}
        if set(files) != set(ctx.ref["files"]):
            return at + "accuracy benchmark writes other files: %s" % sorted(set(files) ^ set(ctx.ref["files"]))[:3]
        if not fma and not preload:
            for f, t in ctx.ref["files"].items():
                if files[f] != t:
                    return at + "%s of the accuracy benchmark differs" % f
        avx = on(o, "AVX") or on(o, "AVX2") or fma
        info = sh([b + "printInstSet"], at + "printInstSet fails", env=env)
        for n, e in (("SSE2", True), ("SSE3", avx), ("SSE4.1", avx), ("AVX", avx)):
            line = [l for l in info.splitlines() if (" " + n + " ") in l]
            if len(line) != 1 or (" not " in line[0]) == e:
                return at + "instruction sets are shown as: " + " / ".join(line or info.splitlines())
    return None


def generate(r, diag):
    def opts():
        o = {}
        for k in OPTS:
            if k != "DIAG" and r.random() < 0.45:
                o[k] = r.choice(["ON", "OFF"])
        return o
    n = r.choice([1, 1, 1, 2, 2, 3])
    steps = [dict(opts=opts(), build=r.random() < 0.4) for _ in range(n)]
    if diag:
        steps[-1]["opts"]["DIAG"] = "ON"
    for s in steps[:-1]:
        if r.random() < 0.3:
            s["opts"]["DIAG"] = "ON" if diag and r.random() < 0.5 else "OFF"
    return dict(cxx=r.choice(["g++", "clang++"]), generator=r.choice(["Ninja", "Unix Makefiles"]), steps=steps)


def usable(case, flags):
    """only instruction sets this processor can execute"""
    for s in case["steps"]:
        for k, f in (("AVX", "avx"), ("AVX2", "avx2"), ("FMA", "fma")):
            if f not in flags:
                s["opts"].pop(k, None)
    return case


def fixed():
    """every option alone switched away from its default, both compilers"""
    yield dict(cxx="g++", generator="Unix Makefiles", steps=[dict(opts={}, build=True)])
    yield dict(cxx="clang++", generator="Ninja", steps=[dict(opts={"DIAG": "ON"}, build=True)])
    for i, k in enumerate(OPTS[1:]):
        yield dict(cxx=["g++", "clang++"][i % 2], generator="Ninja", steps=[dict(opts={k: "OFF" if k in DEFAULT else "ON"}, build=True)])


def shrink(ctx, case):
    n, again = 0, True
    while again and n < 30:
        again, cand = False, []
        for k in range(len(case["steps"])):
            if len(case["steps"]) > 1:
                cand.append(dict(case, steps=case["steps"][:k] + case["steps"][k + 1:]))
        for k, s in enumerate(case["steps"]):
            for q in sorted(s["opts"]):
                cand.append(dict(case, steps=case["steps"][:k] + [dict(s, opts={a: b for a, b in s["opts"].items() if a != q})] + case["steps"][k + 1:]))
        for key, v in (("cxx", "g++"), ("generator", "Ninja")):
            if case[key] != v:
                cand.append(dict(case, **{key: v}))
        for c in cand:
            n += 1
            if judge(ctx, c, "shrink"):
                case, again = c, True
                break
            if n >= 30:
                break
    return case


def prepare(ctx):
    reference(ctx)
    return dict(replay=lambda path: judge(ctx, json.loads([l for l in open(path) if not l.startswith("#")][0]), "replay") is not None)


def check(ctx):
    replay = prepare(ctx)["replay"]
    import chk_num
    flags, r = chk_num.cpuflags(), random.Random(ctx.seed * 104729 + 33)
    cases = [usable(c, flags) for c in list(fixed()) + [generate(r, i % 5 == 0) for i in range(400 if ctx.thorough else 40)]]
    with cf.ThreadPoolExecutor(vlib.NPROC) as ex:
        verdicts = list(ex.map(lambda ic: judge(ctx, ic[1], str(ic[0])), enumerate(cases)))
    nt = {json.dumps(c, sort_keys=True) for c in cases if sum(len(s["opts"]) for s in c["steps"]) > 1}
    cov = dict(evaluations=len(cases), distinct_nontrivial=len(nt), rule="distinct histories in which at least two options are set", samples=[text(c) for c in cases[-6:]], per_task={"library only": sum(not on(effective(c), "DIAG") for c in cases), "with diagnostic programs": sum(on(effective(c), "DIAG") for c in cases)})
    fails = []
    bad = [(c, v) for c, v in zip(cases, verdicts) if v]
    if bad:
        c = shrink(ctx, bad[0][0])
        what = judge(ctx, c, "final") or bad[0][1]
        rep = ctx.path("case.json")
        open(rep, "w").write("# %s\n%s\n" % (what.replace("\n", " "), json.dumps(c)))
        fails.append(dict(replay=rep, what=what))
    return vlib.finish(ctx, cov, fails, replay, ASSUME)
