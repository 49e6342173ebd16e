#!/usr/bin/env python3
"""Developer helper: regenerates the fixed: lines of known_findings.txt from /repo's fix: commits and checks/fixmap.txt (subject prefix -> property).
finding: lines are kept as they are.  Not run by any check."""
import subprocess, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fm = [l.rstrip("\n").split("\t") for l in open(os.path.join(V, "checks/fixmap.txt")) if l.strip()]
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout
kf = os.path.join(V, "known_findings.txt")
keep = [l for l in open(kf)] if os.path.exists(kf) else []
keep = [l for l in keep if not l.startswith("fixed:")]
res = []
for l in out.splitlines():
    h, s = l.split("\t", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    p = [b for a, b in fm if s.startswith(a)]
    if not p: print("no property for:", s); continue
    for q in p[0].split(","): res.append("fixed: property=%s %s %s\n" % (q, h, s))
open(kf, "w").writelines(keep + res)
