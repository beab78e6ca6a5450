#!/usr/bin/env python3
"""appends the table of planted changes to DESIGN.md (everything after the marker is rewritten)"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
mark = "<!-- table -->\n"
s = s[:s.index(mark) + len(mark)]
s += "\n## Planted changes\n\nEach is in `seeded/<id>/`; \"caught by\" is the check of its own property.\n\n| id | property | what it breaks | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    s += "| %s | %s | %s | %s |\n" % (d, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), m["property"])
open(p, "w").write(s)
