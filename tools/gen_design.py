#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (between the markers) from known_findings.json, seeded/ and the results recorded below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def table(name, text):
    global d
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    i, j = d.index(a) + len(a), d.index(b)
    d = d[:i] + "\n" + text.strip() + "\n" + d[j:]
d = open(V + "/DESIGN.md").read()
rows = ["| Property | Commit | What failed |", "|---|---|---|"]
for l in json.load(open(V + "/known_findings.json"))["fixed"]:
    p, c, w = re.match(r"fixed: property=(\S+) (\S+) (.*)", l).groups()
    rows.append(f"| {p} | {c} | {w} |")
table("fixes", "\n".join(rows))
rows = ["| Planted change | Caught by | Needs |", "|---|---|---|"]
S = []
for s in os.listdir(V + "/seeded"):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    S.append((m["property"], s, m["needs"]))
res = {}
p = V + "/tools/seed_results.json"
if os.path.exists(p):
    res = json.load(open(p))
for prop, s, n in sorted(S):
    rows.append(f"| {s} | {', '.join(res.get(s, [])) or 'not run'} | {n.replace('|', '/')} |")
table("seeds", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(d)
