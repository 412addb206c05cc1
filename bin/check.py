#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE]

Builds the harness of the property from /repo's working tree, searches generated inputs for a
violation, shrinks and replays it, writes evidence/<property>.json."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

MODULE = {}
for i in (1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 14, 16, 17):
    MODULE["P%02d" % i] = "chk_num"
MODULE["P15"] = "chk_pre"
MODULE["P13"] = "chk_pure"
MODULE["P26"] = "chk_wrap"
MODULE["P27"] = "chk_hdr"
MODULE["P28"] = "chk_npy"
MODULE["P30"] = "chk_vc"
MODULE["P31"] = "chk_scr"
MODULE["P33"] = "chk_build"
MODULE["P24"] = MODULE["P29"] = "chk_prog"
for p in ("P18", "P19", "P20", "P21", "P22", "P23", "P25", "P32"):
    MODULE[p] = "chk_diag"
for p in ("P09", "P10"):
    MODULE[p] = "chk_arr"


def main():
    a = sys.argv[1:]
    replay = None
    if "--replay" in a:
        k = a.index("--replay")
        replay = os.path.abspath(a[k + 1])
        del a[k:k + 2]
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = vlib.Ctx(prop, tier, seed)
    mod = importlib.import_module(MODULE[prop])
    try:
        if replay:
            r = mod.prepare(ctx)
            failed = r["replay"](replay)
            print("%s property=%s replay=%s" % ("VIOLATION" if failed else "OK", prop, replay))
            return 1 if failed else 0
        return mod.check(ctx)
    except vlib.CheckError as e:
        print("ERROR property=%s %s" % (prop, e))
        return 3


if __name__ == "__main__":
    sys.exit(main())
