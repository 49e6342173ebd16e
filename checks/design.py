#!/usr/bin/env python3
"""Writes ../DESIGN.md: the text below, one section per property (from props.py) and the cost table (cost.json, a record of one run)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import props
from design_text import HEAD, ORACLE, GROUPS, TAIL
cost = json.load(open(os.path.join(HERE, "cost.json")))
o = [HEAD.strip(), ""]
seen = set()
for title, ids in GROUPS:
    o += ["### " + title, ""]
    for i in ids:
        seen.add(i); p = props.PROPS[i]; b = p["bounds"]; b = b if isinstance(b, dict) else dict(quick=b, thorough=b)
        o += ["#### %s — %s" % (i, p["title"]), ""]
        o += ["*Specified:* " + p["statement"], ""]
        o += ["*Enumerated over:* %s. Quick: %s. Thorough: %s." % (p["text"], b["quick"].rstrip("."), b["thorough"].rstrip(".")), ""]
        o += ["*Oracle:* " + ORACLE[i], ""]
        o += ["*Why tests cannot settle it:* %s." % p["why"].rstrip("."), ""]
        c = cost.get(i)
        if c: o += ["*Cost:* " + "; ".join("%s %.0f s, %s states, %s transitions" % (t, c[t][0], f"{c[t][1]:,}", f"{c[t][2]:,}") for t in ("quick", "thorough") if t in c) + " (8 cores).", ""]
for i in props.PROPS:
    if i not in seen: print("not in DESIGN groups:", i)
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
S = os.path.join(os.path.dirname(HERE), "seeded")
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json"))); rows.append("| %s | %s | %s | %s quick |" % (d, m["property"], m["needs"].replace("|", "/"), m["property"]))
o += [TAIL.strip().replace("SEEDED_TABLE", "\n".join(rows)), ""]
open(os.path.join(os.path.dirname(HERE), "DESIGN.md"), "w").write("\n".join(o))
