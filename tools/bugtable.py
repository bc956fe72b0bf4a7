#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"]))
p = here + "/DESIGN.md"
s = open(p).read()
a = s.index("| bug | property | what it breaks |")
b = s.index("\n\n", a)
s = s[:a] + "| bug | property | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + s[b:]
open(p, "w").write(s)
