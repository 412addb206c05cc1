"""P24, P29: the programs of progs/, run as a user runs them, driven by Hypothesis (harness/prog.py)."""
import json, os, subprocess
import vlib

ASSUME = {"P24": ["response files written by the harness have the format of the response class (P19)", "scalar fast functions of the same tree and libm are the reference for function values",
                  "nicknames without a slash; names of one pair of files are not used for another pair"],
          "P29": ["the clock of the measured process advances by a generated step at each look", "pattern semantics of std::regex and Python agree on the generated patterns", "numeric options are numbers"]}
PROGS = {"P24": ["vdtArithmBenchmark", "vdtArithmComparison"], "P29": ["vdtPerfBenchmark"], "P31": ["vdtArithmBenchmark", "vdtArithmComparison"]}
RULE = {"P24": "benchmark of two or more entries, or comparison with more than two files, or an invalid command line of the comparison", "P29": "a pattern other than .*"}
PY = "python3-vt"


class Broken(Exception):
    pass


def build(ctx):
    d = ctx.path("bin")
    os.makedirs(d, exist_ok=True)
    sig = vlib.signatures(ctx)

    def prog(n):
        p = vlib.run(["g++", "-std=c++11", "-O1", "-w"] + vlib.INC + [os.path.join(vlib.REPO, "progs", n + ".cpp"), sig, "-o", os.path.join(d, n)], timeout=600)
        if p.returncode:
            raise Broken("%s does not build: %s" % (n, p.stderr.decode(errors="replace")[-2000:]))
    vlib.parallel([lambda n=n: prog(n) for n in PROGS[ctx.prop]] + [lambda: vlib.compile_(["gcc", "-O2", "-w", "-shared", "-fPIC", "-fno-builtin", os.path.join(vlib.H, "clock.c"), "-o", os.path.join(d, "clock.so"), "-ldl"], "clock"),
                                                                     lambda: vlib.compile_(["gcc", "-O2", "-w", "-shared", "-fPIC", os.path.join(vlib.H, "shift.c"), "-o", os.path.join(d, "shift.so")], "shift")])
    return d


def fails(cmd, path):
    try:
        p = subprocess.run(cmd + ["--replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
    except subprocess.TimeoutExpired:
        return True
    return p.returncode == 1


def prepare(ctx):
    box = {}
    vlib.signatures(ctx)
    vlib.parallel([lambda: box.update(bin=build(ctx)), lambda: box.update(sut=vlib.build_sut(ctx))])
    cmd = [PY, os.path.join(vlib.H, "prog.py"), "--prop", ctx.prop, "--bin", box["bin"], "--sut", box["sut"], "--clock", os.path.join(box["bin"], "clock.so"), "--work", ctx.path("cases")]
    return dict(cmd=cmd, replay=lambda path: fails(cmd, path))


def check(ctx):
    try:
        cmd = prepare(ctx)["cmd"]
    except Broken as e:
        raise vlib.CheckError(str(e))
    if ctx.prop == "P24":
        n = 12000 if ctx.thorough else 600
    else:
        n = 60000 if ctx.thorough else 2500
    return search(ctx, cmd + (["--deep"] if ctx.thorough else []), n, RULE[ctx.prop], ASSUME[ctx.prop])


def search(ctx, cmd, n, rule, assume):
    """n examples in each of several worker processes"""
    procs = []
    for w in range(vlib.NPROC):
        o = ctx.path("w%d.json" % w)
        procs.append((o, subprocess.Popen(cmd + ["--seed", str(ctx.seed * 1000 + w), "--examples", str(n), "--journal", ctx.path("w%d.journal" % w), "--out", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    res, bad = [], []
    for w, (o, p) in enumerate(procs):
        try:
            text = p.communicate(timeout=6000 if ctx.thorough else 700)[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            text = "no answer"
        if p.returncode != 0 or not os.path.exists(o):
            raise vlib.CheckError("worker failed: rc=%s %s" % (p.returncode, text[-2000:]))
        r = json.load(open(o))
        if r["fail"]:
            rep = ctx.path("w%d.replay" % w)
            open(rep, "w").write("# %s\n%s\n" % (r["fail"][0].replace("\n", " "), r["fail"][1]))
            bad.append(dict(replay=rep, what=r["fail"][0]))
        res.append(dict(r, rule=rule, failures=[]))
    cov, _ = vlib.merge(res)
    return vlib.finish(ctx, cov, bad, lambda path: fails(cmd, path), assume)
