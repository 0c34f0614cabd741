#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property, caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob(root + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    caught = m.get("caught", "yes")
    rows.append("| %s | %s%s | %s |" % (os.path.basename(d[:-1]), m["property"], "" if caught == "yes" else " (" + caught + ")", " ".join(m["needs"].split()).replace("|", "/")))
p = root + "/DESIGN.md"
s = open(p).read()
mark = "<!-- seeds: tools/seedtable.py -->"
if mark not in s:
    s = s.replace("SEEDTABLE", mark + "\n")
s = s[: s.index(mark)] + mark + "\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
