#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(R + "/seeded")):
    p = f"{R}/seeded/{d}/meta.json"
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append(f"| {d} | {m['property']} | {m['needs']} |")
s = open(R + "/DESIGN.md").read().split("\n")
a = s.index("| bug | property | needs |")
b = a
while s[b].startswith("|"):
    b += 1
s[a:b] = ["| bug | property | needs |", "|---|---|---|"] + rows
open(R + "/DESIGN.md", "w").write("\n".join(s))
