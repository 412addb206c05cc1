#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "/")))
p = V + "/DESIGN.md"; t = open(p).read()
head = "| change | caught by | what it breaks |\n|---|---|---|\n"
i = t.index(head) + len(head); j = t.index("\n\n", i)
open(p, "w").write(t[:i] + "\n".join(rows) + t[j:])
