#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (not used by any check)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {"s28-checksum-threads", "s32-cross-seed-prefix", "s42-small-no-root"}
MARK = "<!-- planted bugs -->"
t = open(V + "/DESIGN.md").read()
t = t[:t.index(MARK)] + MARK + "\n| planted bug | caught by | needs |\n|----|----|----|\n"
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    t += "| %s | %s%s | %s |\n" % (i, d["property"], " (after strengthening)" if i in FIRST_MISSED else "", d["needs"].replace("|", "/").replace("\n", " "))
open(V + "/DESIGN.md", "w").write(t)
