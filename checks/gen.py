#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (committed; regenerate after editing props.py)."""
import json, os, sys, re
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props
REPO = "/repo"
out = []; checks = []
for i, p in sorted(props.PROPS.items()):
    for name, where in p["mech"]:
        f, _, fns = where.partition(":")
        path = os.path.join(REPO, f)
        if not os.path.exists(path): print("missing anchor file", i, f); continue
        txt = open(path, errors="replace").read()
        for fn in [x.strip() for x in fns.split(",") if x.strip()]:
            if not re.search(r"\b%s\b" % re.escape(fn), txt): print("anchor not found", i, f, fn)
    if len(p["title"]) > 80: print("title too long", i, len(p["title"]))
    a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
    if p.get("observe"): a["observe_at"] = p["observe"]
    out.append(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a))
    b = p["bounds"]; b = b if isinstance(b, dict) else dict(quick=b, thorough=b)
    checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i, thorough_cmd="python3 checks/run.py %s thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique=p.get("technique") or "explicit-state model checking of the implementation: exhaustive enumeration of every input/operation history within the bound, each executed on the real code (AddressSanitizer build) and compared with an independent reference model after every step",
        level="model_checking", level_note=(p.get("note") + " " if p.get("note") else "") + "Bounds: quick: %s; thorough: %s." % (b["quick"], b["thorough"])))
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(o) + "\n" for o in out))
man = dict(version=1, setup_cmd="python3 checks/setup.py", checks=checks, not_applicable=[dict(property=k, reason=r) for k, r in getattr(props, "NOT_APPLICABLE", {}).items()],
           notes="No hooks in /repo: harnesses compile /repo's sources directly. Repairs are the 'fix:' commits listed in known_findings.txt.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out), "properties")
