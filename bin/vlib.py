"""Common machinery of the checks: building from /repo, running harnesses, evidence, replay."""
import atexit, json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "include/diagnostic"), "-I" + H]
LIBFLAGS = ["-O3", "-std=c++11", "-msse", "-fPIC"]      # those of the default build of the library
NPROC = os.cpu_count() or 8


class CheckError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "build", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        atexit.register(lambda: shutil.rmtree(self.work, ignore_errors=True))
        self.replays = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(self.replays, exist_ok=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, name):
        return os.path.join(self.work, name)


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def compile_(cmd, what):
    p = run(cmd, timeout=600)
    if p.returncode != 0:
        raise CheckError("cannot build %s:\n%s\n%s" % (what, " ".join(cmd), p.stderr.decode(errors="replace")[-3000:]))


def parallel(jobs):
    """runs callables concurrently, re-raises the first error"""
    with cf.ThreadPoolExecutor(NPROC) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


def signatures(ctx, preload=False):
    """runs the generator of the tree under test in the scratch directory"""
    d = ctx.path("sig-preload" if preload else "sig")
    if not os.path.isdir(d):
        os.makedirs(d)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        p = run(["python3", os.path.join(REPO, "src/signatures_generator.py")] + (["-p"] if preload else []) + ["-o", d], cwd=d, env=env, timeout=120)
        if p.returncode != 0 or not os.path.exists(os.path.join(d, "vdtMath_signatures.cc")):
            raise CheckError("signature generator failed: " + p.stderr.decode(errors="replace")[-2000:])
    return os.path.join(d, "vdtMath_signatures.cc")


def build_sut(ctx, label="default", cxx="g++", flags=None):
    sig = signatures(ctx)
    out = ctx.path("sut-%s.so" % label)
    compile_([cxx] + (flags or LIBFLAGS) + ["-fPIC", "-w", "-shared", "-fvisibility=hidden"] + INC + [os.path.join(H, "sut.cpp"), sig, "-o", out], "library under test (%s)" % label)
    return out


def build(ctx, src, out, defines=(), flags=("-O2",), std="gnu++17", libs=(), cxx="g++", extra=()):
    o = ctx.path(out)
    compile_([cxx, "-std=" + std, "-w"] + list(flags) + ["-D" + d for d in defines] + INC + [os.path.join(H, src)] + list(extra) + ["-o", o, "-lpthread", "-ldl"] + list(libs), src)
    return o


NUM = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)")


def harvest(ctx, paths=("include", "src")):
    """numbers occurring in the sources of the tree: a dictionary for the generators"""
    fl, ints = set(), set()
    for p in paths:
        for root, _, files in os.walk(os.path.join(REPO, p)):
            for f in sorted(files):
                if not f.endswith((".h", ".py", ".cpp")):
                    continue
                t = open(os.path.join(root, f), errors="replace").read()
                for m in NUM.findall(t):
                    try:
                        if m[:2] in ("0x", "0X"):
                            ints.add(int(m, 16) & (2**64 - 1))
                        else:
                            v = float(m)
                            if v == v and v not in (float("inf"),):
                                fl.add(v)
                            if v == int(v) and 0 < v < 2**63 and "." not in m and "e" not in m.lower():
                                ints.add(int(v))
                    except (ValueError, OverflowError):
                        pass
    out = ctx.path("dict.txt")
    with open(out, "w") as o:
        for v in sorted(fl):
            o.write(repr(v) + "\n")
        for i in sorted(ints):
            o.write("i%x\n" % i)
    return out


# ---------------------------------------------------------------- verdicts
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) (\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def write_evidence(ctx, cov, violations, assumptions):
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level="exploration", coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - ctx.t0, 2), violations=violations)
    p = os.path.join(VERIF, "evidence", ctx.prop + ".json")
    with open(p + ".tmp", "w") as o:
        json.dump(ev, o, indent=1)
    os.replace(p + ".tmp", p)


def merge(results):
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], per_task={})
    fails = []
    for r in results:
        cov["evaluations"] += r["evaluations"]
        cov["distinct_nontrivial"] += r["distinct_nontrivial"]
        cov["rule"] = cov["rule"] or r["rule"]
        cov["samples"] += r["samples"][: max(6, 60 // max(1, len(results)))]
        for k, v in r.get("per_task", {}).items():
            cov["per_task"][k] = cov["per_task"].get(k, 0) + v
        fails += r["failures"]
    cov["samples"] = cov["samples"][:80]
    return cov, fails


def finish(ctx, cov, fails, replay_fn, assumptions, nreplay=3):
    """replays every failure; reports the first which fails every time"""
    confirmed, notes = [], []
    for f in fails:
        ok = True
        for _ in range(nreplay):
            if not replay_fn(f["replay"]):
                ok = False
                break
        if ok:
            dst = os.path.join(ctx.replays, "%s-seed%d%s" % (ctx.prop, ctx.seed, os.path.splitext(f["replay"])[1] or ".txt"))
            if os.path.abspath(f["replay"]) != dst:
                shutil.copyfile(f["replay"], dst)
            confirmed.append(dict(what=f["what"], replay=os.path.relpath(dst, VERIF)))
            notes = []
            break
        notes.append("not reproducible, hence not reported: " + f["what"])
    if notes:
        cov["notes"] = notes
        for n in notes:
            print("NOTE: " + n)
    write_evidence(ctx, cov, confirmed, assumptions)
    for key, text in known_findings(ctx.prop):
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, text))
    if confirmed:
        print(confirmed[0]["what"])
        print("VIOLATION property=%s replay=%s" % (ctx.prop, confirmed[0]["replay"]))
        return 1
    print("OK property=%s evaluations=%d nontrivial=%d wall=%.1fs" % (ctx.prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - ctx.t0))
    return 0


# ---------------------------------------------------------------- harnesses based on engine.h
def replay_cmd(cmd, path, timeout=150):
    """True if the replayed case fails: wrong value, crash, or no return"""
    whole = any(l.startswith("whole ") for l in open(path, errors="replace"))  # watches for calls which do not return itself
    try:
        p = run(cmd + ["--replay", path], timeout=3600 if whole else timeout)
    except subprocess.TimeoutExpired:
        return not whole
    return p.returncode == 1 or p.returncode < 0


def engine_check(ctx, r, assume):
    out = ctx.path("result.json")
    p = run(r["cmd"] + ["--out", out])
    if p.returncode < 0:
        rep = ctx.path("crash.txt")
        open(rep, "w").write("# the code crashes (signal %d) while generated inputs are evaluated; replay by running the check\n" % -p.returncode)
        cov = dict(evaluations=1, distinct_nontrivial=0, rule="", samples=["crash with signal %d" % -p.returncode])
        return finish(ctx, cov, [dict(replay=rep, what="a call crashes with signal %d" % -p.returncode)], lambda _: run(r["cmd"] + ["--out", out]).returncode < 0, assume)
    if p.returncode not in (0, 1) or not os.path.exists(out):
        raise CheckError("harness failed: rc=%d %s" % (p.returncode, p.stderr.decode(errors="replace")[-2000:]))
    cov, fails = merge([json.load(open(out))])
    return finish(ctx, cov, fails, r["replay"], assume)
