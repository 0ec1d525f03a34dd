#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md (development aid)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "| change | caught by | needs | check strengthened for it |\n"
missed = set(open(V + "/tools/missed.txt").read().split())
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), "yes" if i in missed else ""))
p = V + "/DESIGN.md"
t = open(p).read().split(MARK)[0]
open(p, "w").write(t + MARK + "|---|---|---|---|\n" + "\n".join(rows) + "\n")
