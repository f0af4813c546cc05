#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for base in ("seeded", "seeded_other"):
    for d in sorted(glob.glob(os.path.join(ROOT, base, "*", "meta.json"))):
        m, i = json.load(open(d)), d.split("/")[-2]
        e = lambda s: s.replace("|", "\\|")
        rows.append("| %s%s | %s | %s | %s |\n" % (i, "" if base == "seeded" else " (other)", e(m["what_it_breaks"]), e(m["needs"]), m["property"]))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
h = "| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|\n"
a = s.index(h) + len(h)
b = s.index("\n## Limits")
open(p, "w").write(s[:a] + "".join(rows) + s[b:])
