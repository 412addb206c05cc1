#!/usr/bin/env python3
"""Planted bugs: mkbug.make(...) writes seeded/<id>/ and confirms it (compiles, tests pass, demonstration
fails with and passes without); mkbug.py try <id>... runs the check of its property against it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = '''#!/bin/bash
# cwd is the repository; exit 0 if the property holds on the demonstrated input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
%s
'''
CPP = '''g++ -std=c++11 %s -I include -I include/diagnostic "$d/demo.cpp" -o "$t/demo" %s || exit 98
"$t/demo"'''


SIG = '"$t/vdtMath_signatures.cc"'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def tests():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode:
        return "build failed: " + b.stdout.decode()[-800:]
    sh("bash /opt/vp/test.sh /tmp/mkbug_t.json")
    base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open("/tmp/mkbug_t.json"))
    return compare(base, res)


def compare(base, res):
    miss = set(base['stable']) - set(res['passed'])
    return "" if not miss else "tests fail: %s" % sorted(miss)[:5]


def make(id, prop, edits, demo=None, needs="", breaks="", opt="-O2", libs="", sh_demo=None, files=None, confirm=True):
    d = os.path.join(V, "seeded", id)
    assert sh("git -C %s status --porcelain" % R).stdout.strip() == b"", "repo dirty"
    try:
        for e in edits:  # (file, old, new[, which occurrence])
            f, old, new = e[:3]
            p = os.path.join(R, f); t = open(p, newline='').read()
            if "\r\n" in t and "\r\n" not in old:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if len(e) > 3:
                parts = t.split(old); k = e[3]
                assert len(parts) > k + 1, (id, f, old)
                t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                assert t.count(old) == 1, (id, f, old, t.count(old))
                t = t.replace(old, new)
            open(p, "w", newline='').write(t)
        diff = sh("git -C %s diff" % R).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        if demo:
            open(os.path.join(d, "demo.cpp"), "w").write(demo)
        for n, c in (files or {}).items():
            open(os.path.join(d, n), "w").write(c)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % (sh_demo or ("python3 src/signatures_generator.py -o \"$t\" || exit 97\n" if libs == "LIB" else "") + CPP % (opt, SIG if libs == "LIB" else libs)))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
        if confirm:
            msg = tests()
            rc = sh("bash %s/demo.sh" % d, cwd=R, timeout=300)
    finally:
        sh("git -C %s checkout -- ." % R)
    if confirm:
        sh("bash /opt/vp/build.sh")
        rc0 = sh("bash %s/demo.sh" % d, cwd=R, timeout=300)
        ok = not msg and rc.returncode != 0 and rc.returncode not in (97, 98, 99) and rc0.returncode == 0
        print("%-28s %s %s patched rc=%d clean rc=%d %s" % (id, prop, "CONFIRMED" if ok else "*** NOT CONFIRMED", rc.returncode, rc0.returncode, msg or ""), flush=True)
        if not ok:
            print(rc.stdout.decode()[-600:], rc0.stdout.decode()[-600:])
        return ok


def try_(id, seed=1, prop=None):
    d = os.path.join(V, "seeded", id); prop = prop or json.load(open(d + "/meta.json"))["property"]
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    if a.returncode:
        print(id, "patch does not apply", a.stdout.decode()); return
    try:
        p = sh("python3 bin/check.py %s quick" % prop, cwd=V, env=dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER="quick"))
    finally:
        sh("git -C %s checkout -- ." % R)
    out = p.stdout.decode(errors="replace").strip().splitlines()
    caught = p.returncode == 1 and any(l.startswith("VIOLATION property=%s " % prop) for l in out)
    print("%-28s %s rc=%d %s | %s" % (id, prop, p.returncode, "CAUGHT" if caught else "*** MISSED", (out[-2] if caught and len(out) > 1 else " ".join(out[-2:]))[:230]), flush=True)
    return caught


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        try_(i)
