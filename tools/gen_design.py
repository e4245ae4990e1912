#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + table of planted bugs (from tools/bugs/results.json)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(V, "tools/bugs/results.json")))
rows = ["| planted change (seeded/) | property | its quick check | other checks that also report it | needs |", "|---|---|---|---|---|"]
n = c = 0
for i in sorted(res):
    r = res[i]
    if r.get("verdict") == "INVALID" or not os.path.exists(os.path.join(V, "seeded", i, "meta.json")):
        continue
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    n += 1; c += r["verdict"] == "CAUGHT"
    also = ", ".join(k for k, v in r.get("caught", {}).items() if k != r["property"] and v == 1)
    rows.append(f"| {i} | {r['property']} | {r['verdict'].lower()} | {also} | {m['needs']} |")
head = open(os.path.join(V, "tools/design_head.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(
    head + f"\n## Which checks catch which planted changes\n\n{c} of {n} are caught by the quick check of their own property "
    "(trial runs by tools/plant.py in scratch copies).\n\n" + "\n".join(rows) + "\n")
