"""P24, P29: the accuracy and performance programs, run on generated command lines and files.
Runs under the Python that has NumPy and Hypothesis.

A case is a JSON object of a kind:
  bench    command line of vdtArithmBenchmark; afterwards some pairs of its files go to vdtArithmComparison
  compare  generated response files and a command line of vdtArithmComparison
  perf     command line of vdtPerfBenchmark under a clock which advances by a fixed step at every look
  prog.py --prop P24 --bin DIR --sut SO --clock SO --work DIR --seed N --examples N --journal FILE --out FILE
  prog.py ... --replay FILE      exit 1 if the case fails"""
import argparse, ctypes, json, os, re, shutil, subprocess, sys

P = argparse.ArgumentParser()
for a in ("prop", "bin", "sut", "clock", "work", "journal", "out", "replay"):
    P.add_argument("--" + a, default="")
P.add_argument("--seed", type=int, default=1)
P.add_argument("--examples", type=int, default=200)
P.add_argument("--deep", action="store_true")
A = P.parse_args()
sys.dont_write_bytecode = True
import numpy as np

np.seterr(all="ignore")


class SutFn(ctypes.Structure):
    _fields_ = [("name", ctypes.c_char_p), ("prec", ctypes.c_int), ("nin", ctypes.c_int), ("nout", ctypes.c_int),
                ("scal", ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t)), ("arr", ctypes.c_void_p)]


class SutTable(ctypes.Structure):
    _fields_ = [("n", ctypes.c_int), ("fn", ctypes.POINTER(SutFn))]


lib = ctypes.CDLL(A.sut)
lib.sut_table.restype = ctypes.POINTER(SutTable)
tab = lib.sut_table().contents
SUT = {tab.fn[i].name.decode(): tab.fn[i] for i in range(tab.n)}
libm = ctypes.CDLL("libm.so.6")

# ------------------------------------------------------------------ what the catalogue names mean
POOL = dict(Identity="sym", Exp="exp", Log="pos", Sin="sym", Cos="sym", Tan="sym", Tanh="sym", Asin="one", Acos="one", Atan="sym", Isqrt="pos", Inverse="sym")
LIMIT = {"f8": dict(sym=(-5000., 5000.), pos=(.0001, 5000.), one=(-1., 1.), exp=(-705., 705.)), "f4": dict(sym=(-5000., 5000.), pos=(.0001, 5000.), one=(-1., 1.), exp=(-85., 85.))}
FAST = dict(Fast_Inv="fast_inv", Fast_Apr_Isqrt="fast_approx_isqrt", Fast_Apr_Inv="fast_approx_inv")
CAT = {}                            # name -> (precision, pool, function or None for libm, dimensions)
for prec, s in (("f8", ""), ("f4", "f")):
    for v in ("", "v"):
        for n, p in POOL.items():
            CAT[n + s + v] = (prec, p, n, 1)
        for n in ("Exp", "Log", "Sin", "Cos", "Tan", "Tanh", "Asin", "Acos", "Atan", "Isqrt"):
            CAT["Fast_" + n + s + v] = (prec, POOL[n], "fast_" + n.lower() + s, 1)
        for n, f in FAST.items():
            CAT[n + s + v] = (prec, "pos" if "sqrt" in f else "sym", f + s, 1)
        CAT["Atan2" + s + v] = (prec, "two", "Atan2", 2)
        CAT["Fast_Atan2" + s + v] = (prec, "two", "fast_atan2" + s, 2)
PERF = list(CAT) + ["Identity2D" + s + v for s in ("", "f") for v in ("", "v")]


def values(name, x, y):
    prec, _, f, _ = CAT[name]
    dt = np.dtype(prec)
    if f == "Identity":
        return x.copy()
    if f == "Isqrt":
        return dt.type(1) / np.sqrt(x)
    if f == "Inverse":
        return dt.type(1) / x
    if f.startswith("fast_"):
        o = np.empty(x.size, dt)
        q = np.empty(x.size, dt)
        SUT[f].scal(x.ctypes.data, y.ctypes.data, o.ctypes.data, q.ctypes.data, x.size)
        return o
    g = getattr(libm, f.lower() + ("f" if prec == "f4" else ""))
    c = ctypes.c_float if prec == "f4" else ctypes.c_double
    g.restype, g.argtypes = c, [c] * (2 if f == "Atan2" else 1)
    if f == "Atan2":
        return np.array([g(a, b) for a, b in zip(x.tolist(), y.tolist())], dt)
    return np.array([g(a) for a in x.tolist()], dt)


def ubits(a):
    return a.view(np.uint32 if a.dtype.itemsize == 4 else np.uint64)


class Fail(Exception):
    pass


# ------------------------------------------------------------------ files
def hexes(line, k, where):
    w = line.split()
    r = []
    for t in w[:k]:
        if not re.fullmatch("0x[0-9a-f]+", t):
            raise Fail("%s: bad row %r" % (where, line))
        r.append(int(t, 16))
    if len(r) < k:
        raise Fail("%s: bad row %r" % (where, line))
    return r, w[k:]


def read_response(path, dims):
    lines = open(path).read().split("\n")
    if len(lines) < 6 or lines[-1] != "":
        raise Fail("%s: too short" % os.path.basename(path))
    rows = [hexes(l, dims + 1, os.path.basename(path)) for l in lines[5:-1]]
    for r, rest in rows:
        if rest:
            raise Fail("%s: too many columns" % os.path.basename(path))
    return lines[1], lines[2], [r for r, _ in rows]


def write_response(path, f):
    """a response file as the class writes it"""
    with open(path, "w") as o:
        o.write("VDT function arithmetics performance %s (the first 5 lines are the header)\n" % ("1 input file" if f["dims"] == 1 else "2 inputs file"))
        o.write("%s Precision\nFunction Name = %s\n--\n--\n" % ("Double" if f["prec"] == "f8" else "Single", f["name"]))
        for r in f["rows"]:
            o.write("".join("0x%x " % x for x in r) + "\n")


def diffbit(a, b):
    return abs(a - b).bit_length()


def stats(d):
    n = len(d)
    s, s2 = sum(d), sum(x * x for x in d)
    return max(d), min(d), s / n, -1. if n == 1 else (s2 * n - s * s) / (n * (n - 1))


def check_comparison(path, dims, prec, ref, test):
    """the comparison file against the rows of the two response files"""
    base = os.path.basename(path)
    lines = open(path).read().split("\n")
    if len(lines) < 7 or lines[-1] != "":
        raise Fail("%s: too short" % base)
    if lines[1] != ("Double" if prec == "f8" else "Single") + " Precision":
        raise Fail("%s: wrong precision %r" % (base, lines[1]))
    d = [diffbit(r[-1], t[-1]) for r, t in zip(ref, test)]
    mx, mn, mean, var = stats(d)
    w = lines[5].split()
    try:
        got = (int(w[0]), int(w[1])) + tuple(float(np.array([int(x, 16)], np.uint64).view(np.float64)[0]) for x in w[2:4])
    except (ValueError, IndexError):
        raise Fail("%s: bad statistics %r" % (base, lines[5]))
    if got[:2] != (mx, mn) or not abs(got[2] - mean) <= 1e-9 or not abs(got[3] - var) <= 1e-6:
        raise Fail("%s: statistics %s instead of %s" % (base, got, (mx, mn, mean, var)))
    rows = lines[6:-1]
    if len(rows) != len(ref):
        raise Fail("%s: %d rows instead of %d" % (base, len(rows), len(ref)))
    for i, (l, r, t) in enumerate(zip(rows, ref, test)):
        h, rest = hexes(l, dims + 2, base)
        want = r[:dims] + [r[-1], t[-1]]
        if h != want or not rest or rest[0] != str(d[i]):
            raise Fail("%s: row %d is %r instead of %s %d" % (base, i, l, " ".join("0x%x" % x for x in want), d[i]))
    return mx, mn, mean, var


def check_printed(out, label, st):
    """a line of the printed table: name of the function first, the four statistics last"""
    mx, mn, mean, var = st
    for l in out.split("\n"):
        m = re.search(r"(\d+)\s+(\d+)\s*(-?\d+\.\d\d)\s*(-?\d+\.\d\d)\s*$", l)
        if m and l.startswith(label + " ") and int(m[1]) == mx and int(m[2]) == mn and abs(float(m[3]) - mean) <= 0.00501 and abs(float(m[4]) - var) <= 0.00501:
            return
    raise Fail("no printed line for %s with %s in %r" % (label, (mx, mn, round(mean, 2), round(var, 2)), out[-600:]))


# ------------------------------------------------------------------ running
def execute(prog, argv, cwd, env=None):
    try:
        p = subprocess.run([os.path.join(A.bin, prog)] + argv, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
        raise Fail("%s %s does not end" % (prog, argv))
    if p.returncode < 0:
        raise Fail("%s %s ends with signal %d" % (prog, argv, -p.returncode))
    return p.returncode, p.stdout.decode(errors="replace")


def snapshot(d):
    r = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            r[os.path.relpath(p, d)] = open(p, "rb").read()
    return r


def bench(case, d):
    rc, out = execute("vdtArithmBenchmark", case["argv"], d)
    files = snapshot(d)
    if not case["valid"]:
        if files:
            raise Fail("vdtArithmBenchmark %s writes %s" % (case["argv"], sorted(files)[:3]))
        return
    nick, size = case["nick"], case["size"]
    fam = {}
    data = {}
    for name, (prec, pool, f, dims) in CAT.items():
        fn = nick + "__" + name + "__response.txt"
        if fn not in files:
            raise Fail("vdtArithmBenchmark %s: no file %s" % (case["argv"], fn))
        if "only" in case and name not in case["only"]:
            if files[fn].count(b"\n") != size + 5:
                raise Fail("%s: %d lines for %d entries" % (fn, files[fn].count(b"\n"), size))
            continue
        p, h, rows = read_response(os.path.join(d, fn), dims)
        if p != ("Double" if prec == "f8" else "Single") + " Precision" or h != "Function Name = " + name:
            raise Fail("%s: header %r %r" % (fn, p, h))
        if len(rows) != size:
            raise Fail("%s: %d entries instead of %d" % (fn, len(rows), size))
        cols = [np.array([r[k] for r in rows], np.uint64).astype(np.uint32 if prec == "f4" else np.uint64).view(np.dtype(prec)) for k in range(dims + 1)]
        data[name] = rows
        x, y = cols[0], cols[dims - 1]
        key = (prec, pool)
        if key in fam and not np.array_equal(ubits(fam[key][0]), ubits(x)) or key in fam and not np.array_equal(ubits(fam[key][1]), ubits(y)):
            raise Fail("%s: inputs differ from those of the other functions of the same pool" % fn)
        if key not in fam:
            fam[key] = (x, y)
            for c in cols[:dims]:
                lo, hi = (-1, 1) if pool == "two" else LIMIT[prec][pool]
                lo, hi = np.dtype(prec).type(lo), np.dtype(prec).type(hi)
                if not ((c >= lo) & (c <= hi)).all():
                    raise Fail("%s: inputs outside of the pool" % fn)
                if size >= 200 and not (c.min() < lo + (hi - lo) / 5 and c.max() > hi - (hi - lo) / 5):
                    raise Fail("%s: inputs do not cover the pool" % fn)
                if size >= 20 and len(set(c.tolist())) < size // 2:
                    raise Fail("%s: inputs repeat" % fn)
        want = values(name, x, y)
        bad = np.nonzero((ubits(want) != ubits(cols[dims])) & ~(np.isnan(want) & np.isnan(cols[dims])))[0]
        if len(bad):
            i = int(bad[0])
            raise Fail("%s: entry %d is %s(%r%s) = %r instead of %r" % (fn, i, name, float(x[i]), ", %r" % float(y[i]) if dims == 2 else "", float(cols[dims][i]), float(want[i])))
    if case.get("again"):                          # other nickname, directory and time: the same numbers
        d2 = os.path.join(d, "again")
        os.mkdir(d2)
        execute("vdtArithmBenchmark", ["-n=" + case["again"], "-s=%d" % size], d2, dict(LD_PRELOAD=os.path.join(A.bin, "shift.so")))
        for name in CAT:
            fn, fn2 = nick + "__" + name + "__response.txt", os.path.join(d2, case["again"] + "__" + name + "__response.txt")
            try:
                body = open(fn2, "rb").read().split(b"\n")[5:]
            except OSError:
                raise Fail("vdtArithmBenchmark -n=%s: no file for %s" % (case["again"], name))
            if body != files[fn].split(b"\n")[5:]:
                raise Fail("vdtArithmBenchmark -s=%d: inputs or outputs of %s differ between nickname %r and a later run with nickname %r" % (size, name, nick, case["again"]))
        shutil.rmtree(d2)
    if case["pairs"] and size:
        pairs = [(sorted(CAT)[a % len(CAT)], b) for a, b in case["pairs"]]
        ref, test = [], []
        for n, b in pairs:
            prec, pool, f, dims = CAT[n]
            same = sorted(m for m in CAT if CAT[m][:2] == (prec, pool))
            ref.append(n)
            test.append(same[b % len(same)])
        R = [nick + "__" + n + "__response.txt" for n in ref]
        T = [nick + "__" + n + "__response.txt" for n in test]
        compare_run(case, d, R, T, {r: (CAT[n][3], CAT[n][0], n, data[n]) for r, n in zip(R + T, ref + test)}, ["-n=" + case["out"], "-R=" + ",".join(R), "-T=" + ",".join(T)], case["out"])


def compare_run(case, d, R, T, known, argv, out):
    before = snapshot(d)
    rc, text = execute("vdtArithmComparison", argv, d)
    after = snapshot(d)
    want = {}
    for r, t in zip(R, T):
        if r in known and t in known:
            dims, prec, name, _ = known[r]
            want["comparison__%s__%s.txt" % (out, name.split("_", 1)[-1])] = (r, t)
    new = set(after) - set(before)
    if new - set(want):
        raise Fail("vdtArithmComparison %s writes %s" % (argv, sorted(new - set(want))[:3]))
    for f in before:
        if f not in want and after.get(f) != before[f]:
            raise Fail("vdtArithmComparison %s changes %s" % (argv, f))
    for f, (r, t) in want.items():
        if f not in after:
            raise Fail("vdtArithmComparison %s: no file %s" % (argv, f))
        dims, prec, name, rows = known[r]
        check_comparison(os.path.join(d, f), dims, prec, rows, known[t][3])
    for r, t in zip(R, T):
        if r in known and t in known:
            check_printed(text, known[r][2].split("_", 1)[-1], stats([diffbit(a[-1], b[-1]) for a, b in zip(known[r][3], known[t][3])]))


def compare(case, d):
    known = {}
    for f in case["files"]:
        p = os.path.join(d, f["path"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        write_response(p, f)
        known[f["path"]] = (f["dims"], f["prec"], f["name"], f["rows"])
    if not case["valid"]:
        before = snapshot(d)
        execute("vdtArithmComparison", case["argv"], d)
        if snapshot(d) != before:
            raise Fail("vdtArithmComparison %s writes files" % case["argv"])
        return
    compare_run(case, d, case["R"], case["T"], known, case["argv"], case["out"])


def perf(case, d):
    log = d + ".calls"
    rc, text = execute("vdtPerfBenchmark", case["argv"], d, dict(LD_PRELOAD=A.clock, STEP_CLOCK=str(case["step"]), CALL_LOG=log))
    calls = {w[0]: (int(w[1]), float.fromhex(w[2]), float.fromhex(w[3])) for w in (l.split() for l in open(log))}
    os.remove(log)
    files = snapshot(d)
    if not case["valid"]:
        if files:
            raise Fail("vdtPerfBenchmark %s writes %s" % (case["argv"], sorted(files)[:3]))
        return
    fn = case["nick"] + "__performance_benchmark.txt"
    if set(files) != {fn}:
        raise Fail("vdtPerfBenchmark %s writes %s instead of %s" % (case["argv"], sorted(files), fn))
    row = re.compile(r"Function\s+(\S+)\s*:\s*(\S+) \+- (\S+) ns")
    got = []
    for src, t in (("file", files[fn].decode()), ("screen", text)):
        r = [row.match(l) for l in t.split("\n") if l.startswith("Function ")]
        if None in r or (src == "file" and len(r) != len([l for l in t.split("\n") if l.strip()])):
            raise Fail("lines not understood: %r" % t[:300])
        got.append([m.groups() for m in r])
    if got[0] != got[1]:
        raise Fail("vdtPerfBenchmark %s: screen and file differ: %s" % (case["argv"], sorted(set(got[0]) ^ set(got[1]))[:2]))
    names = [g[0] for g in got[0]]
    if len(set(names)) != len(names):
        raise Fail("vdtPerfBenchmark %s: a function is reported twice" % case["argv"])
    want = {n for n in PERF if re.fullmatch(case["pattern"], n)}
    if set(names) & set(PERF) != want:
        raise Fail("vdtPerfBenchmark %s reports %s, expected %s: differ in %s" % (case["argv"], len(names), len(want), sorted((set(names) & set(PERF)) ^ want)[:4]))
    # every measurement sees the same interval on this clock: a multiple of the step, over the number of calls
    avg = {g[1] for g in got[0]}
    if len(avg) > 1:
        raise Fail("vdtPerfBenchmark %s: functions of the same duration get the averages %s" % (case["argv"], sorted(avg)))
    for a in avg:
        k = float(a) * case["size"] / case["step"]
        if not (k > 0.5 and abs(k - round(k)) < 1e-3):
            raise Fail("vdtPerfBenchmark %s: average %s ns for %d ns and %d calls" % (case["argv"], a, case["step"], case["size"]))
    # calls of the standard functions: warm-up and measurement, over the whole pool
    for f, (n, lo, hi) in calls.items():
        prec = "f4" if f.endswith("f") else "f8"
        base = f[:-1] if prec == "f4" else f
        runs = sum(1 for v in ("", "v") if f.capitalize() + v in want)
        if n != 2 * runs * case["size"] * case["reps"]:
            raise Fail("vdtPerfBenchmark %s: %d calls of %s, expected %d" % (case["argv"], n, f, 2 * runs * case["size"] * case["reps"]))
        if not n:
            continue
        pool = "one" if base == "atan2" else POOL[base.capitalize()]
        a, b = dict(sym=(case["min"], case["max"]), pos=(1e-5, case["max"]), one=(-1., 1.), exp=(-705., 705.) if prec == "f8" else (-80., 80.))[pool]
        t = np.dtype(prec).type
        if not (t(a) <= lo and hi <= t(b)) or case["size"] >= 150 and not (lo < a + (b - a) / 5 and hi > b - (b - a) / 5):
            raise Fail("vdtPerfBenchmark %s: arguments of %s range from %r to %r instead of %r to %r" % (case["argv"], f, lo, hi, a, b))


def run(case):
    d = os.path.join(A.work, "case-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        dict(bench=bench, compare=compare, perf=perf)[case["kind"]](case, d)
    except Fail as e:
        return str(e)[:1500]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None


if A.replay:
    case = json.loads([l for l in open(A.replay) if not l.startswith("#")][0])
    w = run(case)
    print(w or "ok")
    sys.stdout.flush()
    os._exit(1 if w else 0)

# ------------------------------------------------------------------ generation
from hypothesis import given, settings, seed, strategies as st, HealthCheck, Phase

word = st.text("abcXYZ019_.+-", min_size=1, max_size=6)
nicks = st.one_of(word, word, st.builds(lambda c, n: c * n, st.sampled_from("aX_."), st.sampled_from([30, 31, 64, 100, 128, 180])), st.sampled_from(["run88", "a b", "Fast_x", "my__run", "Atan2", "Sin", "x=y", "=", "-n", "--nick", "run Atan2f", "a_", "_", "@%", "comparison__x", "Exp__response", "é"]))


def form(draw, short, long_, val):
    return (short if draw(st.booleans()) else long_) + "=" + val


def order(draw, l):
    return draw(st.permutations(l))


def spoil(draw, argv, known):
    """an invalid variant of a command line: (argv, why) or None"""
    how = draw(st.sampled_from(["unknown", "repeat", "bare", "drop", "none"]))
    argv = list(argv)
    if how == "unknown":
        argv.insert(draw(st.integers(0, len(argv))), draw(st.sampled_from(["-q=1", "--unknown=2", "-N=x", "--nik=x", "nick", "--", "-nn=x", "-=x", "=x", "-h", "--help"])))
    elif how == "repeat":
        s, l = draw(st.sampled_from(known))
        if not any(a.startswith(s + "=") or a.startswith(l + "=") for a in argv):
            return None
        argv.append(draw(st.sampled_from([s, l])) + "=again")
    elif how == "drop":
        s, l = known[draw(st.integers(0, len(known) - 1))]
        argv = [a for a in argv if not (a.startswith(s + "=") or a.startswith(l + "="))]
    elif how == "bare":
        s, l = known[0]
        argv = [draw(st.sampled_from([s + "=", l + "="])) if a.startswith(s + "=") or a.startswith(l + "=") else a for a in argv]
    else:
        argv = []
    return argv, how


@st.composite
def benches(draw):
    nick = draw(nicks)
    size = draw(st.one_of(st.integers(1, 12), st.integers(0, 60), st.sampled_from([1, 2, 255, 256, 257, 1000]), st.integers(100, 700)))
    argv = [form(draw, "-n", "--nick", nick), form(draw, "-s", "--size", str(size))]
    if A.deep and draw(st.integers(0, 400)) == 77:
        size, argv = 50000, argv[:1]              # the documented default
    argv = order(draw, argv)
    pairs = draw(st.lists(st.tuples(st.integers(0, 107), st.integers(0, 60)), min_size=0, max_size=draw(st.sampled_from([6, 6, 40]))))
    c = dict(kind="bench", nick=nick, size=size, argv=list(argv), pairs=[list(p) for p in pairs], out=draw(nicks), valid=True)
    if draw(st.integers(0, 9)) == 5:
        s = spoil(draw, argv, [("-n", "--nick")])
        if s:
            c.update(argv=s[0], valid=False, pairs=[])
    elif size and draw(st.integers(0, 3)) == 2:
        c["again"] = draw(nicks)
    return c


def pattern(draw, prec):
    n = 64 if prec == "f8" else 32
    mant, ones = (52, 0x7ff) if n == 64 else (23, 0xff)
    k = draw(st.integers(0, 5))
    if k == 0:
        x = draw(st.integers(0, 2**n - 1))
    elif k == 1:
        x = draw(st.sampled_from([0, 1 << (n - 1), ones << mant, (ones << mant) | (1 << (n - 1)), 1, (1 << mant) - 1, 1 << mant, (ones << mant) - 1, (2 * ones + 1) << (mant - 1), ((ones >> 1) << mant)]))
    else:
        x = ((ones >> 1) + draw(st.integers(-4, 4)) << mant) + draw(st.integers(0, (1 << mant) - 1)) + (draw(st.integers(0, 1)) << (n - 1))
    if (x >> mant) & ones == ones and x & ((1 << mant) - 1):
        x |= 1 << (mant - 1)                      # quiet NaN
    return x


@st.composite
def compares(draw):
    npairs = draw(st.integers(1, 5))
    files, R, T = [], [], []
    for i in range(npairs):
        dims = draw(st.sampled_from([1, 1, 2]))
        prec = draw(st.sampled_from(["f8", "f4"]))
        base = "Atan2" if dims == 2 else draw(st.sampled_from(["Exp", "Log", "Sin", "Apr_Isqrt", "Inverse", "Identity", "Acos", "Tan", "Atan", "Tanh"]))
        sfx = ("f" if prec == "f4" else "") + draw(st.sampled_from(["", "v"]))
        if draw(st.integers(0, 5)) == 3 and files:
            R.append(draw(st.sampled_from(R)))    # the same pair again
            T.append(T[R.index(R[-1])])
            continue
        n = draw(st.one_of(st.integers(1, 5), st.integers(1, 30)))
        s = draw(st.integers(0, 2**31))
        rows1 = [[pattern(draw, prec) for _ in range(dims + 1)] for _ in range(min(n, 6))]
        rng = np.random.default_rng(s)
        bits = 64 if prec == "f8" else 32
        while len(rows1) < n:
            rows1.append([int(x) & (2**(bits - 2) - 1) for x in rng.integers(0, 2**62, dims + 1)])
        mode = draw(st.sampled_from(["equal", "near", "bit", "one", "any"]))
        rows2 = []
        for j, r in enumerate(rows1):
            o = r[-1]
            if mode == "near":
                o = min(2**bits - 1, max(0, o + int(rng.integers(-3, 4))))
            elif mode == "bit":
                o ^= 1 << int(rng.integers(0, bits))
            elif mode == "one" and j == n - 1:
                o ^= 1
            elif mode == "any":
                o = int(rng.integers(0, 2**62)) & (2**bits - 1)
            mant, ones = (52, 0x7ff) if bits == 64 else (23, 0xff)
            if (o >> mant) & ones == ones and o & ((1 << mant) - 1):
                o |= 1 << (mant - 1)
            rows2.append(r[:-1] + [o])
        dirs = st.sampled_from(["", "", "", "sub/", "Atan2 results/", "a__b/"])
        nick1, nick2 = draw(nicks), draw(nicks)
        n1 = draw(st.sampled_from(["", "Fast_", "VC_"])) + base + sfx
        n2 = draw(st.sampled_from(["", "Fast_", "VC_"])) + base + sfx
        p1, p2 = "%s%s__%s__response.txt" % (draw(dirs), nick1, n1), "%s%s__%s__response.txt" % (draw(dirs), nick2, n2)
        if p1 == p2 or {p1, p2} & set(R + T):
            continue
        missing = draw(st.sampled_from([0] * 6 + [1, 2, 3]))
        if not missing & 1:
            files.append(dict(path=p1, dims=dims, prec=prec, name=n1, rows=rows1))
        if not missing & 2:
            files.append(dict(path=p2, dims=dims, prec=prec, name=n2, rows=rows2))
        R.append(p1)
        T.append(p2)
    if draw(st.integers(0, 15)) == 9:             # long lists
        rng = np.random.default_rng(draw(st.integers(0, 2**31)))
        for k in range(draw(st.sampled_from([10, 16, 20, 33, 70]))):
            prec, base, vec = rng.choice(["f8", "f4"]), rng.choice(["Exp", "Log", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Tanh", "Isqrt", "Inv", "Identity", "Atan2"]), rng.choice(["", "v"])
            dims, bits, name = 2 if base == "Atan2" else 1, 64 if prec == "f8" else 32, base + ("f" if prec == "f4" else "") + vec
            rows = [[int(x) & (2**(bits - 2) - 1) for x in rng.integers(0, 2**62, dims + 1)] for _ in range(int(rng.integers(1, 4)))]
            p1, p2 = "more%d__%s__response.txt" % (k, name), "more%d__Fast_%s__response.txt" % (k, name)
            R.append(p1)
            T.append(p2)
            if rng.integers(0, 8):
                files.append(dict(path=p1, dims=dims, prec=str(prec), name=str(name), rows=rows))
            if rng.integers(0, 8):
                files.append(dict(path=p2, dims=dims, prec=str(prec), name="Fast_" + str(name), rows=[x[:-1] + [x[-1] ^ int(rng.integers(0, 9))] for x in rows]))
    if not R:
        R, T = ["absent"], ["absent too"]
    out = draw(nicks)
    end = st.sampled_from(["", "", "", ","])  # a separator after the last name means nothing
    argv = list(order(draw, [form(draw, "-n", "--nick", out), form(draw, "-R", "--reference", ",".join(R) + draw(end)), form(draw, "-T", "--test", ",".join(T) + draw(end))]))
    c = dict(kind="compare", files=files, R=R, T=T, out=out, argv=argv, valid=True)
    if draw(st.integers(0, 7)) == 5:
        s = spoil(draw, argv, [("-n", "--nick"), ("-R", "--reference"), ("-T", "--test")])
        if s:
            c.update(argv=s[0], valid=False)
        elif len(T) > 1:
            c.update(argv=["-n=" + out, "-R=" + ",".join(R), "-T=" + ",".join(T[:-1])], valid=False)
    return c


atoms = st.sampled_from([".", "F", "f", "v", "A", "E", "Sin", "Exp", "Fast_", "Fast", "Inv", "Atan2", "Identity", "2D", "_", "Tan", "Tanh", "Log", "[A-Z]", "[a-z]", "[^_]", "[efv]", "\\w", "\\d", "(Sin|Cos)", "(Fast_)", "(f|v|fv)", "Apr_"])


@st.composite
def patterns(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        return ".*"
    if k == 1:
        return draw(st.sampled_from(PERF))
    if k == 2:
        return "|".join(draw(st.lists(st.sampled_from(PERF), min_size=1, max_size=4)))
    parts = []
    for _ in range(draw(st.integers(1, 4))):
        parts.append(draw(atoms) + draw(st.sampled_from(["", "", "*", "+", "?", "{1,3}"])))
        if draw(st.booleans()):
            parts.append(".*")
    return "".join(parts)


@st.composite
def perfs(draw):
    nick = draw(nicks)
    size = draw(st.one_of(st.integers(1, 20), st.sampled_from([1, 100, 256, 257]), st.integers(1, 500)))
    if draw(st.integers(0, 29)) == 17:
        size = draw(st.sampled_from([32767, 32768, 65535, 65536, 65537, 70001]))
    reps = draw(st.integers(1, 6))
    step = size * draw(st.sampled_from([1, 2, 10, 1000, 123, 100000]))
    argv = [form(draw, "-n", "--nick", nick), form(draw, "-s", "--size", str(size)), form(draw, "-r", "--repetitions", str(reps))]
    pat = ".*"
    if draw(st.integers(0, 19)) == 7:             # the documented defaults of size or repetitions
        pat = draw(st.sampled_from(PERF))
        if draw(st.booleans()):
            argv.pop(1)
            size, step = 50000, 50000 * 17
        else:
            argv.pop(2)
            reps = 150
        argv.append(form(draw, "-p", "--pattern", pat))
    elif draw(st.integers(0, 19)) == 7:           # many repetitions
        size, reps, pat = draw(st.integers(1, 5)), draw(st.sampled_from([127, 128, 255, 256, 257, 300, 1000, 1500])), draw(st.sampled_from(PERF))
        step = size * 10
        argv[1:] = [form(draw, "-s", "--size", str(size)), form(draw, "-r", "--repetitions", str(reps)), form(draw, "-p", "--pattern", pat)]
    elif draw(st.integers(0, 9)):
        pat = draw(patterns())
        argv.append(form(draw, "-p", "--pattern", pat))
    lo, hi = -5000., 5000.
    if draw(st.booleans()):
        t = draw(st.sampled_from(["10", "1", "5000", "1e3", "0.5", "7.25", "123456"]))
        hi = float(t)
        argv.append(form(draw, "-M", "--pool_max", t))
    if draw(st.booleans()):
        t = draw(st.sampled_from(["-10", "0", "-1e3", "0.25", "-0.5", "-77777"]))
        lo = float(t)
        argv.append(form(draw, "-m", "--pool_min", t))
    argv = list(order(draw, argv))
    c = dict(kind="perf", nick=nick, size=size, reps=reps, min=lo, max=hi, pattern=pat, step=step, argv=argv, valid=True)
    if draw(st.integers(0, 9)) == 5:
        s = spoil(draw, argv, [("-n", "--nick")])
        if s:
            c.update(argv=s[0], valid=False)
    return c


stat = dict(n=0, nt=set(), samples=[], fail=None, per={})


def nontrivial(c):
    if c["kind"] == "bench":
        return c["valid"] and c["size"] > 1
    if c["kind"] == "compare":
        return not c["valid"] or len(c["files"]) > 2
    return c["pattern"] != ".*"


def one(c):
    text = json.dumps(c, sort_keys=True)
    with open(A.journal, "w") as j:
        j.write(text + "\n")
    if stat["fail"] is None:
        stat["n"] += 1
        k = c["kind"] + ("" if c["valid"] else " invalid")
        stat["per"][k] = stat["per"].get(k, 0) + 1
        if nontrivial(c):
            stat["nt"].add(hash(text))
        if stat["n"] % 37 == 11 and len(stat["samples"]) < 4:
            stat["samples"].append(text[:400])
    w = run(c)
    if w:
        stat["fail"] = (w, text)
        raise AssertionError(w)


def big():
    """one long benchmark, a few of its files read completely"""
    rng = np.random.default_rng(A.seed)
    c = dict(kind="bench", nick="big", size=int(rng.integers(65537, 100000)), pairs=[], out="x", valid=True, only=[str(x) for x in rng.choice(sorted(CAT), 8)])
    c["argv"] = ["-n=big", "-s=%d" % c["size"]]
    stat["n"] += 1
    stat["per"]["bench long"] = 1
    w = run(c)
    if w:
        lo, hi = 1, c["size"]                      # smallest failing size, by bisection
        while lo < hi and stat["fail"] is None:
            m = (lo + hi) // 2
            v = run(dict(c, size=m, argv=["-n=big", "-s=%d" % m]))
            if v:
                hi, w = m, v
            else:
                lo = m + 1
        c.update(size=hi, argv=["-n=big", "-s=%d" % hi])
        stat["fail"] = (w, json.dumps(c, sort_keys=True))


def default():
    """no size asked for: the documented one"""
    rng = np.random.default_rng(A.seed)
    c = dict(kind="bench", nick="dflt", size=50000, pairs=[], out="x", valid=True, only=[str(x) for x in rng.choice(sorted(CAT), 4)], argv=["--nick=dflt"])
    stat["n"] += 1
    stat["per"]["bench default size"] = 1
    w = run(c)
    if w:
        stat["fail"] = (w, json.dumps(c, sort_keys=True))


def search():
    """in batches: Hypothesis remembers all examples of a search"""
    for b in range(0, A.examples, 3000):
        test = given(st.one_of(benches(), compares(), compares()) if A.prop == "P24" else perfs())(one)
        test = settings(max_examples=min(3000, A.examples - b), database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False)(test)
        seed(A.seed + 1000003 * b)(test)()


if A.prop == "P24" and A.seed % 1000 < 2:
    big()
if A.prop == "P24" and A.seed % 1000 == 2:
    default()
try:
    stat["fail"] or search()
except Exception:
    if stat["fail"] is None:
        raise
json.dump(dict(evaluations=stat["n"], distinct_nontrivial=len(stat["nt"]), samples=stat["samples"], per_task=stat["per"], fail=stat["fail"]), open(A.out, "w"))
sys.stdout.flush()
os._exit(0)
