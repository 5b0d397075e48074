#!/usr/bin/env python3
"""Regenerates the table of seeded bugs in DESIGN.md."""
import glob, json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows += f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |\n"
p = root + "/DESIGN.md"
s = open(p).read()
a = s.index("| bug | property |"); b = s.index("\n\n", a)
open(p, "w").write(s[:a] + rows.rstrip("\n") + s[b:])
