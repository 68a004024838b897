#!/usr/bin/env python3
"""Section 7 of DESIGN.md: the table of planted changes, from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + i + "/meta.json"))
    rows.append("| %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/")))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeded table -->\n", "<!-- end of table -->\n"
t = a + "| Planted change | Caught by (quick) | Needs |\n|---|---|---|\n" + "\n".join(rows) + "\n" + b
assert a in s and b in s
open(p, "w").write(s[:s.index(a)] + t + s[s.index(b) + len(b):])
