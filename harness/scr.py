"""P31: the scripts which tabulate, compare and plot the results, run on generated files.
Runs under the Python that has Hypothesis; the scripts run under the system's Python 3.

A case is a JSON object of a kind:
  table     performance files and options for tabulateVDTResults.py
  histo     comparison files and options for diffhisto.py, which finds a stand-in of ROOT
  command   a nickname for checkAccuracy.py; the command it prints is executed if the programs are there
  scr.py --scripts DIR --bin DIR --work DIR --seed N --examples N --journal FILE --out FILE
  scr.py ... --replay FILE      exit 1 if the case fails"""
import argparse, json, math, os, re, shlex, shutil, struct, subprocess, sys
from decimal import Decimal as D

P = argparse.ArgumentParser()
for a in ("scripts", "bin", "work", "journal", "out", "replay"):
    P.add_argument("--" + a, default="")
P.add_argument("--seed", type=int, default=1)
P.add_argument("--examples", type=int, default=200)
A = P.parse_args()
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/usr/bin/python3" if os.path.exists("/usr/bin/python3") else "python3"

BASE1 = ["Identity", "Exp", "Sin", "Cos", "Tan", "Tanh", "Atan", "Log", "Asin", "Acos", "Isqrt", "Inverse"]
FAST1 = ["Exp", "Sin", "Cos", "Tan", "Tanh", "Atan", "Log", "Asin", "Acos", "Isqrt", "Inv", "Apr_Isqrt", "Apr_Inv"]
GROUPS = []                             # in the order in which the performance program measures
for s in ("", "v", "f", "fv"):
    GROUPS.append([n + s for n in BASE1] + ["Fast_" + n + s for n in FAST1])
for s in ("", "v", "f", "fv"):
    GROUPS.append(["Identity2D" + s, "Atan2" + s, "Fast_Atan2" + s])
ACC = [n + s for n in ("Acos", "Asin", "Atan", "Atan2", "Cos", "Exp", "Isqrt", "Log", "Sin", "Tan", "Tanh") for s in ("", "v", "f", "fv")]


class Fail(Exception):
    pass


def script(name, args, cwd, **env):
    p = subprocess.run([PYTHON, os.path.join(A.scripts, name)] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8", **env))
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode:
        raise Fail("%s %s ends with code %d: %s" % (name, " ".join(args), p.returncode, p.stderr.decode("utf-8", "replace").strip().split("\n")[-1]))
    return out


# ------------------------------------------------------------------ tables
def normalised(rows):
    out, off, offe = [], D(0), D(0)
    for n, t, e in rows:
        if "Identity" in n:
            off, offe = t, e
            continue
        out.append((n, t - off, (e * e + offe * offe).sqrt()))
    return out


CELL = re.compile(r"(-?\d+\.\d\d) \+- (-?\d+\.\d\d)(?: (-?\d+\.\d) ?X)?")


def near(text, v, half):
    return abs(D(text) - v) <= D(half) + abs(v) * D("1e-12") + D("1e-9")


def ratio(a, b):
    return a / (b if b != 0 else D(1))


def check_row(line, name, cells, what):
    """cells: (time, error, factor or None)"""
    w = " ".join(line.split())
    if not w.startswith(name + " "):
        raise Fail("%s: row %r where %s is expected" % (what, line, name))
    rest = w[len(name) + 1:]
    got = list(CELL.finditer(rest))
    if len(got) != len(cells) or CELL.sub("", rest).strip():
        raise Fail("%s: row %r has not %d columns" % (what, line, len(cells)))
    for k, (m, (t, e, f)) in enumerate(zip(got, cells)):
        if not near(m.group(1), t, "0.005") or not near(m.group(2), e, "0.005"):
            raise Fail("%s: column %d of %s is %s, the files say %.4f +- %.4f" % (what, k + 1, name, m.group(0), t, e))
        if (m.group(3) is None) != (f is None):
            raise Fail("%s: column %d of %s: speedup missing or unexpected in %s" % (what, k + 1, name, m.group(0)))
        # differences of times up to 1e6 ns are wrong by their rounding, which counts if they nearly cancel
        if f is not None and not near(m.group(3), f, D("0.05") + (D("1e-9") * (1 + abs(f)) / abs(t) if t else 0)):
            raise Fail("%s: column %d of %s is %s, speedup should be %.4f" % (what, k + 1, name, m.group(0), f))


def run_table(c, d):
    data = []
    for f in c["files"]:
        path = os.path.join(d, f["nick"] + "__performance_benchmark.txt")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        rows = [(n, D(t) / 100, D(e) / 100) for n, (t, e) in zip(c["names"], f["values"])]
        with open(path, "w") as o:
            for n, t, e in rows:
                o.write("Function %-15s : %.2f +- %.2f ns\n" % (n, t, e))
        data.append((f["nick"], normalised(rows) if c["normalise"] else rows))
    out = script("tabulateVDTResults.py", c["argv"], d)
    lines = [l for l in out.split("\n") if l.strip()]
    pos = [0]

    def take(what):
        if pos[0] >= len(lines):
            raise Fail("%s: output ends too early" % what)
        pos[0] += 1
        return lines[pos[0] - 1]

    def head(what, titles):
        l = take(what)
        if " ".join(l.split()) != " ".join("Function Name".split() + " ".join(titles).split()):
            raise Fail("%s: header %r, expected titles %s" % (what, l, titles))
    names = [r[0] for r in data[0][1]]
    if "-s" in c["tables"]:
        head("summary table", [t for t, _ in data])
        for i, n in enumerate(names):
            cells = [(r[i][1], r[i][2], None if k == 0 else ratio(data[0][1][i][1], r[i][1])) for k, (_, r) in enumerate(data)]
            check_row(take("summary table"), n, cells, "summary table")
    if "-v" in c["tables"]:
        head("vector table", [data[0][0]] + [t + " vect." for t, _ in data])
        for i, n in enumerate(names):
            if n.endswith("v"):
                continue
            t0, e0 = data[0][1][i][1:]
            cells = [(t0, e0, None)]
            for _, r in data:
                t, e = {x: (y, z) for x, y, z in r}[n + "v"]
                cells.append((t, e, ratio(t0, t)))
            check_row(take("vector table"), n, cells, "vector table")
    if "-l" in c["tables"]:
        for title, r in data:
            h = take("libm table")
            if title not in h:
                raise Fail("libm table: title line %r without %s" % (h, title))
            if take("libm table").split() != ["Function", "Name", "Libm", "VDT"]:
                raise Fail("libm table: header missing")
            m = {x: (y, z) for x, y, z in r}
            for n, t, e in r:
                f = "Fast_" + n.replace("Inverse", "Inv")
                if n.startswith("Fast_") or n.endswith("v") or f not in m:
                    continue
                check_row(take("libm table"), n, [(t, e, None), m[f] + (ratio(t, m[f][0]),)], "libm table of " + title)
    if pos[0] != len(lines):
        raise Fail("unexpected line %r" % lines[pos[0]])


# ------------------------------------------------------------------ histograms
def dec(prec, b):
    x = struct.unpack("<d" if prec == 64 else "<f", b.to_bytes(prec // 8, "little"))[0]
    if x != x:
        return "-nan" if b >> (prec - 1) else "nan"
    if math.isinf(x):
        return "-inf" if x < 0 else "inf"
    return "%.*f" % (15 if prec == 64 else 6, x)


def domain(name):
    f = name.endswith("f") or name.endswith("fv")
    if "Asin" in name or "Acos" in name:
        return -1, 1
    if "Exp" in name:
        return (-85, 85) if f else (-705, 705)
    if "Log" in name or "Isqrt" in name:
        return .0001, 5000
    return -5000, 5000


def run_histo(c, d):
    where = os.path.join(d, c["dir"])
    cwd = os.path.join(d, c["cwd"])
    os.makedirs(where, exist_ok=True)
    os.makedirs(cwd, exist_ok=True)
    want = {}
    for f in c["files"]:
        fn = "comparison__%s__%s.txt" % (f["nick"], f["name"]) + f.get("tail", "")
        rows = []
        with open(os.path.join(where, fn), "w") as o:
            o.write(("Dumped by an object initialised by comparison__x__Exp.txt - " if f["dumped"] else "") + "VDT function arithmetics performance comparison file (the first 5 lines are the header)\n")
            o.write("%s Precision\nComparison specs/function name = %s\nFormat: input out1 out2 diffbit (decimal)input\nFirst line are stats: Max Min 0xMean 0xRMS\n" % ("Double" if f["prec"] == 64 else "Single", f["name"]))
            o.write("3 0 0x3ff0000000000000 0x3ff0000000000000 \n")
            for ins, o1, o2, db in f["rows"]:
                t = [dec(f["prec"], x) for x in ins]
                o.write("".join("0x%x " % x for x in ins + [o1, o2]) + "%d " % db + " ".join(t) + "\n")
                rows.append((float(t[0]), db))
        if f["nick"] == c["nick"] and not f.get("tail"):
            want[f["name"]] = (f, rows)
    for n in c["noise"]:
        open(os.path.join(where, n), "w").write("noise\n")
    log = os.path.join(d, "root.json")
    script("diffhisto.py", c["argv"], cwd, PYTHONPATH=os.path.join(HERE, "root"), ROOT_LOG=log)
    got = {}
    for h in json.load(open(log)):
        if h["name"] in got:
            raise Fail("histogram %s appears twice" % h["name"])
        got[h["name"]] = h
    used = set()
    same = lambda a, b: a == b or (a != a and b != b)
    for name, (f, rows) in want.items():
        for dim, head in ((1, "Diffbit_"), (2, "DiffVsInput_")):
            h = got.get(head + name)
            if h is None or h["dim"] != dim or h["written"] != 1:
                raise Fail("histogram %s%s missing or not written" % (head, name))
            used.add(head + name)
            fills = [[float(x) for x in r] for r in h["fills"]]
            exp = [[db] for _, db in rows] if dim == 1 else [[x, db] for x, db in rows]
            if len(fills) != len(exp):
                raise Fail("%s%s has %d entries, the file %d" % (head, name, len(fills), len(exp)))
            for k, (a, b) in enumerate(zip(fills, exp)):
                if len(a) != len(b) or not all(map(same, a, b)):
                    raise Fail("%s%s: entry %d is %s, the file says %s" % (head, name, k, a, b))
            lo, hi = domain(name)
            ax = h["axes"]
            if dim == 2:
                if not (ax[1] <= lo and ax[2] >= hi):
                    raise Fail("%s%s: input axis from %g to %g does not cover the inputs of the function" % (head, name, ax[1], ax[2]))
                ax = ax[3:]
            # one bin for each number of differing bits
            nb, a, b = ax[:3]
            if not (a <= 0 and b >= f["prec"] and nb > 0):
                raise Fail("%s%s: %g to %g does not cover the possible numbers of differing bits" % (head, name, a, b))
            bins = [math.floor((k - a) / (b - a) * nb) for k in range(f["prec"] + 1)]
            if len(set(bins)) != len(bins) or bins[0] < 0 or bins[-1] >= nb:
                raise Fail("%s%s: numbers of differing bits share a bin" % (head, name))
    if set(got) != used:
        raise Fail("histograms %s belong to no comparison of the nickname" % sorted(set(got) - used)[:3])


# ------------------------------------------------------------------ command line of the comparison
def run_command(c, d):
    nick = c["nick"]
    out = script("checkAccuracy.py", [nick], d).strip()
    if "\n" in out:
        raise Fail("more than one command is printed")
    w = shlex.split(out)
    opts = dict(x.split("=", 1) for x in w[1:] if "=" in x)
    if not w or os.path.basename(w[0]) != "vdtArithmComparison" or set(opts) - {"-n", "--nick", "-R", "--reference", "-T", "--test"}:
        raise Fail("command %r" % out[:80])
    ref = [v for k, v in opts.items() if k in ("-R", "--reference")][0].split(",")
    test = [v for k, v in opts.items() if k in ("-T", "--test")][0].split(",")
    if [opts.get("-n", opts.get("--nick"))] != [nick] or len(ref) != len(test):
        raise Fail("nickname or number of files wrong in %r" % out[:80])
    seen = set()
    for r, t in zip(ref, test):
        m = re.fullmatch(re.escape(nick) + "__(.*)__response.txt", r)
        if not m or t != "%s__Fast_%s__response.txt" % (nick, m.group(1)):
            raise Fail("reference %s is paired with %s" % (r, t))
        if m.group(1) in seen:
            raise Fail("%s is compared twice" % m.group(1))
        seen.add(m.group(1))
    if set(ACC) - seen:
        raise Fail("not compared: %s" % sorted(set(ACC) - seen))
    if c["execute"]:
        env = dict(os.environ, PATH=A.bin + ":" + os.environ.get("PATH", ""))
        p = subprocess.run(["vdtArithmBenchmark", "-n=" + nick, "-s=%d" % c["size"]], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        p = subprocess.run(out, shell=True, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        miss = [n for n in ACC if not os.path.exists(os.path.join(d, "comparison__%s__%s.txt" % (nick, n)))]
        if miss:
            raise Fail("the printed command does not compare %s" % miss[:4])
        log = os.path.join(d, "root.json")
        script("diffhisto.py", ["-n", nick], d, PYTHONPATH=os.path.join(HERE, "root"), ROOT_LOG=log)
        got = {h["name"]: len(h["fills"]) for h in json.load(open(log)) if h["written"]}
        for n in ACC:
            for k in ("Diffbit_", "DiffVsInput_"):
                if got.get(k + n) != c["size"]:
                    raise Fail("histogram %s%s has %s entries, benchmark size is %d" % (k, n, got.get(k + n), c["size"]))


def run(c):
    d = os.path.join(A.work, "c%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        dict(table=run_table, histo=run_histo, command=run_command)[c["kind"]](c, d)
        return None
    except Fail as e:
        return str(e)
    except subprocess.TimeoutExpired:
        return "the script does not return"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if A.replay:
    text = [l for l in open(A.replay) if not l.startswith("#")]
    w = run(json.loads("".join(text)))
    print(w or "passes")
    sys.exit(1 if w else 0)

# ------------------------------------------------------------------ generators
from hypothesis import given, settings, seed, strategies as st, HealthCheck, Phase

word = st.text("abcdeXYZ0189", min_size=1, max_size=8)
nick1 = st.one_of(word, word, st.builds(lambda a, s, b: a + s + b, word, st.sampled_from(["_", "-", ".", "+", "++", "v1.2"]), word), st.sampled_from(["g++", "a.b", "x+", "Fast_x", "Sin", "Identity", "run-O3", "gcc4.7-AVX"]))
hundredths = st.one_of(st.integers(0, 9999), st.integers(0, 300), st.integers(0, 10 ** 8), st.sampled_from([0, 1, 50, 100, 99999]))


@st.composite
def tables(draw):
    tabs = draw(st.sampled_from([["-s"], ["-v"], ["-l"], ["-s", "-v"], ["-s", "-l"], ["-v", "-l"], ["-s", "-v", "-l"]]))
    how = draw(st.integers(0, 5))
    if how < 2:
        names = [n for g in GROUPS for n in g]
    else:
        stems = sorted({re.sub("f?v?$", "", n) if n not in ("Fast_Inv", "Inv") else n for g in GROUPS for n in g})
        keep = set(draw(st.lists(st.sampled_from(stems), min_size=1, max_size=8)))
        if how < 5:
            keep |= {"Identity", "Identity2D"}
        base = lambda n: next(s for s in stems if n in (s, s + "f", s + "v", s + "fv"))
        names = [n for g in GROUPS for n in g if base(n) in keep]
        if "-v" not in tabs and draw(st.booleans()):
            names = [n for n in names if draw(st.integers(0, 4)) != 2] or names
    normalise = draw(st.booleans())
    if normalise and all("Identity" in n for n in names):
        names = names + ["Tanhf", "Tanhfv"]
    nf = draw(st.integers(1, 4))
    nicks = draw(st.lists(nick1, min_size=nf, max_size=nf, unique=True))
    if draw(st.integers(0, 7)) == 5:
        nicks[0] = "dir/" + nicks[0]
    close = draw(st.booleans())
    files = []
    for n in nicks:
        b = draw(hundredths)
        one = st.tuples(st.integers(b, b + 300) if close else hundredths, hundredths)
        k = draw(st.integers(1, len(names)))
        vals = draw(st.lists(one, min_size=k, max_size=k))
        vals = [vals[(i * 7 + i // k) % k] for i in range(len(names))] if k < len(names) else vals
        files.append(dict(nick=n, values=[list(v) for v in vals]))
    fl = [n + "__performance_benchmark.txt" for n in nicks]
    opts = tabs + ([] if normalise else ["--no-normalise"])
    opts = draw(st.permutations(opts))
    argv = opts + fl if draw(st.booleans()) else fl + opts
    return dict(kind="table", tables=tabs, names=names, normalise=normalise, files=files, argv=argv)


@st.composite
def comparison(draw, nick, name):
    prec = 32 if name.rstrip("v").endswith("f") else 64
    dims = 2 if "Atan2" in name else 1
    num = st.one_of(st.integers(0, 2 ** prec - 1), st.floats(-5000, 5000, width=prec).map(lambda x: int.from_bytes(struct.pack("<d" if prec == 64 else "<f", x), "little")),
                    st.sampled_from([0, 1 << (prec - 1), 0x7ff0000000000000 >> (64 - prec) if prec == 64 else 0x7f800000, 0xfff8000000000000 if prec == 64 else 0xffc00000]))
    row = st.tuples(st.lists(num, min_size=dims, max_size=dims), num, num, st.integers(0, prec)).map(list)
    return dict(nick=nick, name=name, prec=prec, dumped=draw(st.booleans()), rows=draw(st.lists(row, max_size=12)) * draw(st.sampled_from([1, 1, 1, 1, 1, 1, 2, 7, 90])))


@st.composite
def histos(draw):
    nick = draw(nick1)
    names = draw(st.lists(st.sampled_from(ACC + ["Inversef", "Inverse"]), min_size=0, max_size=5, unique=True))
    files = [draw(comparison(nick, n)) for n in names]
    other = draw(st.one_of(nick1, st.sampled_from([nick + "x", "x" + nick, nick.replace("+", "").replace(".", "Q") or "q", nick[:-1] or "z"])))
    if other != nick:
        files += [draw(comparison(other, n)) for n in draw(st.lists(st.sampled_from(ACC), max_size=2, unique=True))]
    if names and draw(st.integers(0, 3)) == 2:
        f = draw(comparison(nick, names[0]))
        files.append(dict(f, tail=draw(st.sampled_from([".bak", "~"]))))
    where, cwd, arg = draw(st.sampled_from([(".", ".", None), (".", ".", "."), ("data", ".", "data"), ("data", ".", "./data/"), ("a/b", "c", "../a/b")]))
    argv = draw(st.sampled_from([["-n", nick], ["--nick=" + nick], ["--nick", nick], ["-n" + nick]]))
    if arg:
        da = draw(st.sampled_from([["-d", arg], ["--dir=" + arg]]))
        argv = argv + da if draw(st.booleans()) else da + argv
    return dict(kind="histo", nick=nick, files=files, dir=where, cwd=cwd, argv=argv, noise=draw(st.lists(st.sampled_from(["notes.txt", "comparison.txt", nick + "__Exp__response.txt", "xcomparison__%s__Exp.txt" % nick]), max_size=2, unique=True)))


commands = st.builds(lambda n, e, s: dict(kind="command", nick=n, execute=e == 3 and bool(A.bin), size=s), nick1, st.integers(0, 6), st.integers(1, 6))
stat = dict(n=0, nt=set(), samples=[], per={}, fail=None)


def one(c):
    text = json.dumps(c, sort_keys=True)
    with open(A.journal, "w") as j:
        j.write(text + "\n")
    if stat["fail"] is None:
        stat["n"] += 1
        k = c["kind"] + (" executed" if c.get("execute") else "")
        stat["per"][k] = stat["per"].get(k, 0) + 1
        if c["kind"] == "table" and len(c["files"]) > 1 or c["kind"] == "histo" and any(f["rows"] and f["nick"] == c["nick"] for f in c["files"]) or c.get("execute"):
            stat["nt"].add(hash(text))
        if stat["n"] % 37 == 11 and len(stat["samples"]) < 4:
            stat["samples"].append(text[:400])
    w = run(c)
    if w:
        stat["fail"] = (w, text)
        raise AssertionError(w)


def search():
    """in batches: Hypothesis remembers all examples of a search"""
    for b in range(0, A.examples, 3000):
        test = given(st.one_of(tables(), tables(), histos(), histos(), commands))(one)
        test = settings(max_examples=min(3000, A.examples - b), database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False)(test)
        seed(A.seed + 1000003 * b)(test)()


try:
    search()
except Exception:
    if stat["fail"] is None:
        raise
json.dump(dict(evaluations=stat["n"], distinct_nontrivial=len(stat["nt"]), samples=stat["samples"], per_task=stat["per"], fail=stat["fail"]), open(A.out, "w"))
sys.stdout.flush()
os._exit(0)
