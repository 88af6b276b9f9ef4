#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of /verif/DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ALSO = {}
rows = []
for i in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |")
p = root + "/DESIGN.md"
s = open(p).read()
a = s.index("| bug | property |")
s = s[:a] + "| bug | property | needs | what it breaks | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
