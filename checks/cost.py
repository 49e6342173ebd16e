#!/usr/bin/env python3
"""Adds the wall time and coverage of the evidence files to cost.json (a record for DESIGN.md; run by hand)."""
import json, glob, os
H = os.path.dirname(os.path.abspath(__file__)); f = os.path.join(H, "cost.json")
c = json.load(open(f)) if os.path.exists(f) else {}
for e in sorted(glob.glob(os.path.join(os.path.dirname(H), "evidence", "*.json"))):
    d = json.load(open(e)); v = d["coverage"]
    if d["violations"] or not v.get("transitions"): continue
    c.setdefault(d["property"], {})[d["tier"]] = [d["wall_s"], v.get("states") or 0, v["transitions"]]
json.dump(c, open(f, "w"), indent=0, sort_keys=True)
