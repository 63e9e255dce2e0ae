#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["what_it_breaks"].split(":")[0]))
rows.sort()
t = "## Planted bugs\n\nEach was written from a property's text and the code, passes the stable tests, and is caught by the check named (quick tier).\n\n"
t += "| check | bug | what it breaks |\n|---|---|---|\n" + "".join(f"| {p} | {d} | {b} |\n" for p, d, b in rows)
s = open(root + "/DESIGN.md").read()
i = s.find("@CATCH@")
if i < 0: i = s.index("## Planted bugs")
open(root + "/DESIGN.md", "w").write(s[:i] + t)
