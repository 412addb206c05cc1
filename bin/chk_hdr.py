"""P27: generated programs which include the public headers in any selection, order and repetition.

A case is a JSON object: compiler, standard, flags and per translation unit the list of included headers and the seed of
the arguments. Every unit calls the scalar and array functions of the headers it includes and prints the bits of the results;
they are compared with those of one reference unit that includes everything."""
import json, os, random, subprocess, concurrent.futures as cf
import vlib

ASSUME = ["diagnostics headers are not public", "no fast-math, no contraction of multiply-add (the baseline instruction set has none)", "bit comparison with a unit including all headers, built by the same compiler"]
SCAL = {"exp.h": ["exp"], "log.h": ["log"], "sin.h": ["sin"], "cos.h": ["cos"], "tan.h": ["tan"], "tanh.h": ["tanh"], "asin.h": ["asin", "acos"], "atan.h": ["atan"], "atan2.h": ["atan2"],
        "sincos.h": ["sincos"], "sqrt.h": ["isqrt", "approx_isqrt"], "inv.h": ["inv", "approx_inv"]}
ALL = sorted(SCAL) + ["identity.h", "stdwrap.h", "vdtMath.h", "vdtcore_common.h"]
SYSTEM = ["<cmath>", "<math.h>", "<limits>", "<algorithm>", "<complex>", "<cstdint>", "<stdint.h>", "<inttypes.h>", "<vector>"]
STD = ["11", "14", "17", "20", "23"]
CXX = ["g++", "clang++"]
FLAGS = [["-O0"], ["-O1"], ["-O2"], ["-O3"], ["-Os"], ["-O2", "-fno-exceptions", "-fno-rtti"], ["-O1", "-fPIC"], ["-O2", "-pedantic-errors"]]
NARG = 7


def funcs(headers):
    """calls offered by the headers of a unit: (name, inputs, outputs, precision, array)"""
    r = []
    hs = set(headers)
    if "vdtMath.h" in hs:
        hs |= set(SCAL) | {"identity.h"}
    for h in sorted(hs & set(SCAL)):
        for f in SCAL[h]:
            nin, nout = (2 if f == "atan2" else 1), (2 if f == "sincos" else 1)
            for s, t in (("", "double"), ("f", "float")):
                r.append(("fast_" + f + s, nin, nout, t, False))
                if f != "sincos":
                    r.append(("fast_" + f + s + "v", nin, 1, t, True))
                    if "approx" not in f:
                        r.append((f + s + "v", nin, 1, t, True))
        if h in ("sqrt.h", "inv.h"):
            f = SCAL[h][0]
            r += [(f, 1, 1, "double", False), (f + "f", 1, 1, "float", False)]
    if "identity.h" in hs:
        for s, t in (("", "double"), ("f", "float")):
            r += [("identity" + s, 1, 1, t, False), ("identity2D" + s, 2, 1, t, False), ("identity" + s + "v", 1, 1, t, True), ("identity2D" + s + "v", 2, 1, t, True)]
    if "stdwrap.h" in hs:
        for t in ("double", "float"):
            r += [("fast_sqrt<%s>" % t, 1, 1, t, False), ("fast_div<%s>" % t, 2, 1, t, False)]
    return r


def source(k, headers, seed, main):
    """text of a unit; args come from the seed so that every unit can be compared with the reference"""
    o = ["#include %s" % (h if h[0] == "<" else '"%s"' % h) for h in headers]
    o += ["#include <cstdio>", "#include <cstring>", "#include <cstdint>"]
    o.append("extern unsigned long long arg_state; unsigned long long next_arg();")
    if main:
        o.append("unsigned long long arg_state; unsigned long long next_arg() { arg_state ^= arg_state << 13; arg_state ^= arg_state >> 7; arg_state ^= arg_state << 17; return arg_state; }")
    o.append("namespace { template <class T> T arg_() { double u = (double)(next_arg() >> 11) * (1.0 / 9007199254740992.0); return (T)(0.001 + 0.99 * u); }")
    o.append("template <class T> void put_(const char *n, int i, T x) { unsigned long long b = 0; std::memcpy(&b, &x, sizeof x); if (x != x) std::printf(\"%s %d nan\\n\", n, i); else std::printf(\"%s %d %llx\\n\", n, i, b); } }")
    o.append("void unit_%d(unsigned long long seed) {" % k)
    for n, nin, nout, t, arr in funcs(headers):
        o.append("  { arg_state = seed ^ %dull; %s x[%d], y[%d], r[%d], q[%d]; std::memset(r, 0, sizeof r); std::memset(q, 0, sizeof q); for (int i = 0; i < %d; ++i) { x[i] = arg_<%s>(); y[i] = arg_<%s>(); }" % (sum(map(ord, n)) * 7919 + 1, t, NARG, NARG, NARG, NARG, NARG, t, t))
        if arr:
            o.append("    vdt::%s(%d, x, %sr);" % (n, NARG, "y, " if nin == 2 else ""))
        elif nout == 2:
            o.append("    for (int i = 0; i < %d; ++i) vdt::%s(x[i], r[i], q[i]);" % (NARG, n))
        else:
            o.append("    for (int i = 0; i < %d; ++i) r[i] = vdt::%s(x[i]%s);" % (NARG, n, ", y[i]" if nin == 2 else ""))
        o.append("    for (int i = 0; i < %d; ++i) { put_(\"%s\", i, r[i]);%s } }" % (NARG, n, " put_(\"%s second\", i, q[i]);" % n if nout == 2 else ""))
    o.append("}")
    return "\n".join(o) + "\n"


def main_unit(n):
    return "".join("void unit_%d(unsigned long long);\n" % k for k in range(n)) + "#include <cstdio>\nint main() {\n" + "".join("  std::printf(\"unit %d\\n\"); unit_%d(SEED);\n" % (k, k) for k in range(n)) + "}\n"


class Bad(Exception):
    pass


def sh(cmd, what):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    except subprocess.TimeoutExpired:
        raise vlib.CheckError("no answer: " + " ".join(cmd))
    if p.returncode:
        err = [l for l in p.stderr.decode(errors="replace").splitlines() if "error" in l or "undefined" in l or "multiple" in l or "ambiguous" in l]
        raise Bad("%s: %s" % (what, (err or ["status %d" % p.returncode])[0][:400]))
    return p.stdout.decode()


def output(ctx, case, d, units=None):
    """builds and runs the program of a case"""
    os.makedirs(d, exist_ok=True)
    units = units or case["units"]
    inc = ["-I" + os.path.join(vlib.REPO, "include")]
    objs = []
    for k, hs in enumerate(units):
        src = os.path.join(d, "u%d.cpp" % k)
        open(src, "w").write(source(k, hs, case["seed"], k == 0))
        o = os.path.join(d, "u%d.o" % k)
        sh([case["cxx"], "-std=c++" + case["std"], "-w"] + case["flags"] + inc + ["-c", src, "-o", o], "unit %d including %s does not compile (%s -std=c++%s %s)" % (k, " ".join(hs), case["cxx"], case["std"], " ".join(case["flags"])))
        objs.append(o)
    m = os.path.join(d, "main.cpp")
    open(m, "w").write(main_unit(len(units)))
    exe = os.path.join(d, "prog")
    sh([case["cxx"], "-w", "-DSEED=%dull" % case["seed"], m] + objs + [ctx.path("libvdt.so"), "-Wl,-rpath," + ctx.work, "-o", exe], "program of %d units including %s does not link" % (len(units), " / ".join(" ".join(u) for u in units)))
    return sh([exe], "the program ends abnormally")


def table(text):
    r, unit = {}, None
    for l in text.splitlines():
        w = l.split(" ")
        if w[0] == "unit":
            unit = int(w[1])
        else:
            r[(unit, " ".join(w[:-1]))] = w[-1]
    return r


def judge(ctx, case, tag):
    """text of the violation or None"""
    d = ctx.path("case-" + tag)
    try:
        got = table(output(ctx, case, d))
        ref = {k[1]: v for k, v in table(output(ctx, case, d, units=[["vdtMath.h", "stdwrap.h"] + sorted(SCAL)])).items()}
    except Bad as e:
        return str(e)
    finally:
        subprocess.run(["rm", "-rf", d])
    for (u, name), v in got.items():
        if ref.get(name) != v:
            return "unit %d including %s: result of %s is %s instead of %s" % (u, " ".join(case["units"][u]), name, v, ref.get(name))
    want = sum((NARG * c[2] for u in case["units"] for c in funcs(u)), 0)
    if len(got) != want:
        return "%d results instead of %d" % (len(got), want)
    return None


def library(ctx):
    """the shared library with the array functions"""
    d = ctx.path("sig")
    os.makedirs(d, exist_ok=True)
    sh(["python3", "-B", os.path.join(vlib.REPO, "src/signatures_generator.py"), "-o", d], "the generator of the array functions fails")
    sh(["g++"] + vlib.LIBFLAGS + ["-w", "-shared", "-I" + os.path.join(vlib.REPO, "include"), os.path.join(d, "vdtMath_signatures.cc"), "-o", ctx.path("libvdt.so")], "the array functions do not compile")


def generate(r):
    nunits = r.choice([1, 1, 2, 2, 2, 3])
    units = []
    for _ in range(nunits):
        n = r.choice([1, 1, 2, 3, 4, 6, 10])
        hs = [r.choice(ALL) for _ in range(n)]
        for _ in range(r.choice([0, 0, 1, 2])):                  # repetitions
            hs.insert(r.randrange(len(hs) + 1), r.choice(hs))
        for _ in range(r.choice([0, 0, 1, 2])):
            hs.insert(r.randrange(len(hs) + 1), r.choice(SYSTEM))
        units.append(hs)
    if nunits > 1 and r.random() < 0.4:                          # the same headers in two units
        units[1] = r.sample(units[0], len(units[0]))
    return dict(cxx=r.choice(CXX), std=r.choice(STD), flags=r.choice(FLAGS), units=units, seed=r.randrange(1, 2**62))


def fixed():
    """every header alone in one and in two units, for the first and the last standard"""
    for i, h in enumerate(ALL):
        yield dict(cxx=CXX[i % 2], std="11", flags=["-O0"], units=[[h], [h]], seed=12345 + i)
        yield dict(cxx=CXX[(i + 1) % 2], std=STD[1 + i % 4], flags=["-O2"], units=[[h]], seed=54321 + i)
    for c in CXX:
        for s in STD:
            yield dict(cxx=c, std=s, flags=["-O0"], units=[ALL, ALL[::-1]], seed=777)


def shrink(ctx, case):
    n = 0
    again = True
    while again and n < 60:
        again = False
        cand = []
        for k in range(len(case["units"])):
            if len(case["units"]) > 1:
                cand.append(dict(case, units=case["units"][:k] + case["units"][k + 1:]))
            for i in range(len(case["units"][k])):
                if len(case["units"][k]) > 1:
                    cand.append(dict(case, units=case["units"][:k] + [case["units"][k][:i] + case["units"][k][i + 1:]] + case["units"][k + 1:]))
        for key, v in (("cxx", "g++"), ("std", "11"), ("flags", ["-O0"])):
            if case[key] != v:
                cand.append(dict(case, **{key: v}))
        for c in cand:
            n += 1
            if judge(ctx, c, "shrink"):
                case, again = c, True
                break
            if n >= 60:
                break
    return case


def prepare(ctx):
    try:
        library(ctx)
        broken = None
    except Bad as e:
        broken = e

    def replay(path):
        if broken:
            return True
        return judge(ctx, json.loads([l for l in open(path) if not l.startswith("#")][0]), "replay") is not None
    return dict(replay=replay)


def check(ctx):
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="distinct programs with more than one unit or more than one included header", samples=[], per_task={})
    try:
        library(ctx)
    except Bad as e:
        rep = ctx.path("library.txt")
        open(rep, "w").write("# %s\n" % e)
        cov.update(evaluations=1, samples=[str(e)])

        def again(_):
            try:
                library(ctx)
                return False
            except Bad:
                return True
        return vlib.finish(ctx, cov, [dict(replay=rep, what=str(e))], again, ASSUME)
    r = random.Random(ctx.seed * 7919 + 27)
    cases = list(fixed()) + [generate(r) for _ in range(3000 if ctx.thorough else 130)]
    with cf.ThreadPoolExecutor(vlib.NPROC) as ex:
        verdicts = list(ex.map(lambda ic: judge(ctx, ic[1], str(ic[0])), enumerate(cases)))
    cov["evaluations"] = len(cases)
    cov["distinct_nontrivial"] = len({json.dumps(c, sort_keys=True) for c in cases if len(c["units"]) > 1 or len(set(c["units"][0])) > 1})
    cov["samples"] = [json.dumps(c) for c in cases[40::23]][:8]
    for c in cases:
        k = c["cxx"] + " c++" + c["std"]
        cov["per_task"][k] = cov["per_task"].get(k, 0) + 1
    fails = []
    for c, v in zip(cases, verdicts):
        if v:
            s = shrink(ctx, c)
            w = judge(ctx, s, "final") or v
            rep = ctx.path("case.json")
            open(rep, "w").write("# %s\n%s\n" % (w.replace("\n", " "), json.dumps(s)))
            fails.append(dict(replay=rep, what=w))
            break
    return vlib.finish(ctx, cov, fails, lambda path: judge(ctx, json.loads([l for l in open(path) if not l.startswith("#")][0]), "replay") is not None, ASSUME)
