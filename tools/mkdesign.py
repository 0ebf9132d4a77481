#!/usr/bin/env python3
"""Write the planted-bug table of DESIGN.md from seeded/*/meta.json (between the markers)."""
import json, glob, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = []
for d in sorted(glob.glob("seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s | %s |" % (d.split("/")[1], m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
s = open("DESIGN.md").read()
a, b = "<!-- bugs -->\n", "<!-- /bugs -->"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "| bug | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:]
open("DESIGN.md", "w").write(s)
