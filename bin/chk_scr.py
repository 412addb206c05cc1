"""P31: the scripts of scripts/, run as a user runs them, driven by Hypothesis (harness/scr.py)."""
import json, os, subprocess
import vlib, chk_prog

ASSUME = ["performance and comparison files written by the harness have the format of the programs (P24, P29)", "performance files of one table are those of the same functions, in the order of the program",
          "plotting library replaced by a stand-in which records histograms", "nicknames made of letters, digits, _ - . +"]
RULE = "table of two or more files, histograms of a nickname with at least one entry, or printed command executed"
PY = "python3-vt"


def prepare(ctx):
    d = chk_prog.build(ctx)
    cmd = [PY, os.path.join(vlib.H, "scr.py"), "--scripts", os.path.join(vlib.REPO, "scripts"), "--bin", d, "--work", ctx.path("cases")]
    return dict(cmd=cmd, replay=lambda path: chk_prog.fails(cmd, path))


def check(ctx):
    try:
        cmd = prepare(ctx)["cmd"]
    except chk_prog.Broken as e:
        raise vlib.CheckError(str(e))
    return chk_prog.search(ctx, cmd, 20000 if ctx.thorough else 700, RULE, ASSUME)
