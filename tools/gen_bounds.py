#!/usr/bin/env python3
"""Rewrites the table of bounds in DESIGN.md from the evidence of the last runs."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| id | states | transitions | traces | s |", "|----|--------|-------------|--------|---|"]
for p in [json.loads(l) for l in open(V + "/properties.jsonl")]:
    f = "%s/evidence/%s.json" % (V, p["id"])
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    c = e["coverage"]
    rows.append("| %s | %d | %d | %d | %d |" % (p["id"], c["states"], c["transitions"], c["traces_validated_against_impl"], max(1, round(e["wall_s"]))))
s = open(V + "/DESIGN.md").read()
a = s.index("| id |", s.index("## Bounds and cost"))
b = s.index("\n\n", a)
open(V + "/DESIGN.md", "w").write(s[:a] + "\n".join(rows) + s[b:])
