#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/matrix.json (which checks
reported a plant; {"id": ["C01", ...]})."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(f"{V}/tools/matrix.json"))
rows = ["| plant | property | what it needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(f"{V}/seeded/*")):
    i = os.path.basename(d)
    j = json.load(open(d + "/meta.json"))
    own = j["property"]
    got = m.get(i, [])
    got = sorted(got, key=lambda c: (c != own, c))
    rows.append(f"| {i} | {own} | {j['needs']} | {', '.join(got) or 'none'} |")
s = open(f"{V}/DESIGN.md").read()
a = s.index("<!-- table -->")
open(f"{V}/DESIGN.md", "w").write(s[:a] + "<!-- table -->\n" + "\n".join(rows) + "\n")
