#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.txt (lines: id caught|missed note)."""
import glob, json, os, re
base = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
caught = {}
for l in open(os.path.join(base, "tools/caught.txt")):
    p = l.rstrip("\n").split(" ", 2)
    if len(p) >= 2: caught[p[0]] = (p[1], p[2] if len(p) > 2 else "")
rows = ["| bug | property | what it breaks | check |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(base, "seeded/*/meta.json"))):
    m = json.load(open(f)); i = f.split("/")[-2]
    c = caught.get(i, ("not run", ""))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {c[0]}{' (' + c[1] + ')' if c[1] else ''} |")
p = os.path.join(base, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->", s, flags=re.S)
open(p, "w").write(s)
