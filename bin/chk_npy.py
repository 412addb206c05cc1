"""P28: Python bindings of the wrapper library, driven by Hypothesis (harness/npy.py)."""
import json, os, subprocess
import vlib
import chk_wrap

ASSUME = ["NumPy and Python of the verification environment", "scalar fast functions of the same tree are the reference",
          "the wrapper library is built without the Linux multi-version attributes (see P26)", "ctypes functions: arguments of one shape"]
PY = "python3-vt"
RULE = "four or more elements and a layout other than plain contiguous one dimensional arrays (strides, transposition, broadcasting, byte order, given output)"


def build(ctx):
    d = ctx.path("gen")
    chk_wrap.generate(d)
    chk_wrap.library(d)
    inc = vlib.run([PY, "-c", "import sysconfig, numpy; print(sysconfig.get_paths()['include']); print(numpy.get_include())"])
    if inc.returncode:
        raise vlib.CheckError("no Python with NumPy: " + inc.stderr.decode(errors="replace"))
    inc = inc.stdout.decode().split()
    chk_wrap.sh(["gcc", "-w", "-O2", "-shared", "-fPIC", "-I" + d] + ["-I" + i for i in inc] + [os.path.join(vlib.REPO, "src/vdtNumpyWrapper.c"), "-L" + d, "-lvdtFatLibWrapper", "-Wl,-rpath," + d, "-o", os.path.join(d, "vdtnpfun.so")])
    return d


def base(ctx, d, sut):
    return [PY, os.path.join(vlib.H, "npy.py"), "--gen", d, "--scripts", os.path.join(vlib.REPO, "scripts"), "--sut", sut]


def fails(cmd, path):
    try:
        p = subprocess.run(cmd + ["--replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150)
    except subprocess.TimeoutExpired:
        return True
    return p.returncode == 1 or p.returncode < 0


def simpler(c):
    """smaller variants of a case"""
    for i, n in enumerate(c["shape"]):
        for m in (1, n // 2, n - 1):
            if 0 < m < n:
                yield dict(c, shape=c["shape"][:i] + [m] + c["shape"][i + 1:])
    if c["out"]["kind"] != "none":
        yield dict(c, out=dict(c["out"], kind="none"))
    if c["where"]:
        yield dict(c, where=False)
    if c["method"] != "call":
        yield dict(c, method="call")
    for k, a in enumerate(c["args"]):
        for key, v in (("step", [1] * len(a["step"])), ("bcast", [0] * len(a["bcast"])), ("perm", [0] * len(a["perm"])), ("off", [0] * len(a["off"])), ("pad", 0), ("drop", 0), ("swap", False), ("dtype", "f8")):
            if a[key] != v:
                yield dict(c, args=c["args"][:k] + [dict(a, **{key: v})] + c["args"][k + 1:])


def shrink_crash(ctx, cmd, path):
    c = json.loads([l for l in open(path) if not l.startswith("#")][0])
    t = ctx.path("shrink.json")
    for _ in range(40):
        for s in simpler(c):
            open(t, "w").write(json.dumps(s) + "\n")
            p = subprocess.run(cmd + ["--replay", t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode < 0:
                c = s
                break
        else:
            break
    open(path, "w").write(json.dumps(c) + "\n")


def prepare(ctx):
    sut = vlib.build_sut(ctx)
    cmd = base(ctx, build(ctx), sut)
    return dict(cmd=cmd, replay=lambda path: fails(cmd, path))


def check(ctx):
    try:
        cmd = prepare(ctx)["cmd"]
    except chk_wrap.Broken as e:
        rep = ctx.path("build.txt")
        open(rep, "w").write("# the Python module does not build\n%s\n" % e)

        def again(_):
            try:
                build(ctx)
                return False
            except chk_wrap.Broken:
                return True
        return vlib.finish(ctx, dict(evaluations=1, distinct_nontrivial=1, rule="build", samples=[str(e)[:300]]), [dict(replay=rep, what="the Python module cannot be built: " + str(e)[-600:])], again, ASSUME)
    n = 40000 if ctx.thorough else 2600
    procs = []
    for w in range(vlib.NPROC):
        j, o = ctx.path("w%d.journal" % w), ctx.path("w%d.json" % w)
        procs.append((j, o, subprocess.Popen(cmd + ["--seed", str(ctx.seed * 1000 + w), "--examples", str(n), "--journal", j, "--out", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    res, bad = [], []
    for w, (j, o, p) in enumerate(procs):
        try:
            text = p.communicate(timeout=6000 if ctx.thorough else 600)[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            text = "no answer"
        if p.returncode < 0 and os.path.exists(j) and text != "no answer":
            if not bad:
                shrink_crash(ctx, cmd, j)
            bad.append(dict(replay=j, what="the Python process crashes with signal %d" % -p.returncode))
            continue
        if p.returncode != 0 or not os.path.exists(o):
            raise vlib.CheckError("worker failed: rc=%s %s" % (p.returncode, text[-2000:]))
        r = json.load(open(o))
        if r["fail"]:
            rep = ctx.path("w%d.replay" % w)
            open(rep, "w").write("# %s\n%s\n" % (r["fail"][0].replace("\n", " "), r["fail"][1]))
            bad.append(dict(replay=rep, what=r["fail"][0]))
        res.append(dict(r, rule=RULE, failures=[]))
    cov, _ = vlib.merge(res) if res else (dict(evaluations=1, distinct_nontrivial=0, rule=RULE, samples=["crash"]), [])
    return vlib.finish(ctx, cov, bad, lambda path: fails(cmd, path), ASSUME)
