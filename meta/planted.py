#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md, from seeded/*/meta.json and the logs of `plant.py check` given"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f, errors="replace"):
        m = re.match(r"(\S+) (caught|MISSED)", l)
        if m: got[m[1]] = m[2]
rows = []
for i in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    rows.append((m["property"], i, m["needs"], {"caught": m["property"], "MISSED": "missed"}.get(got.get(i), "?")))
t = "| property | bug | needs | caught by |\n|---|---|---|---|\n" + "".join(f"| {p} | {i} | {n.replace('|', '/')} | {c} |\n" for p, i, n, c in sorted(rows))
p = f"{ROOT}/DESIGN.md"
s = open(p).read()
mark = "<!-- table of planted bugs, by meta/planted.py -->"
s = s.replace("@TABLE@", mark) if "@TABLE@" in s else s
s = s[:s.index(mark)] + mark + f"\n\n{len(rows)} in all.\n\n" + t
open(p, "w").write(s)
