#!/usr/bin/env python3
"""Append the generated tables (properties, planted bugs) to DESIGN.md between markers."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {p["id"]: p for p in map(json.loads, open(R + "/properties.jsonl"))}
man = {c["property"]: c for c in json.load(open(R + "/MANIFEST.json"))["checks"]}
res = json.load(open(R + "/tools/seed_results.json")) if os.path.exists(R + "/tools/seed_results.json") else {}
out = ["## Planted bugs and which check catches them", "",
       "Every bug is in `seeded/<id>/`; each passes the stable tests and its demo distinguishes it.", "",
       "| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '(not run)')} |")
t = open(R + "/DESIGN.md").read()
mark = "<!-- generated: planted bugs -->"
t = t.split(mark)[0] + mark + "\n" + "\n".join(out) + "\n"
open(R + "/DESIGN.md", "w").write(t)
