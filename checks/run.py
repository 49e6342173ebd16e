#!/usr/bin/env python3
"""Runs the check of one property:  run.py <PROPERTY> [quick|thorough] [--only PART:CASE]
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: a case failed, and failed again when
replayed.  Exit 2: the check itself could not run (e.g. the tree does not compile)."""
import sys, os, json, time, mmap, shutil, subprocess, struct, tempfile, array
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "lib")); sys.path.insert(0, HERE)
import build
from props import PROPS

WRAPS = ["-Wl,--wrap=exit", "-Wl,--wrap=abort", "-Wl,--wrap=__assert_fail"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:hard_rss_limit_mb=3500:"
           "max_allocation_size_mb=3000:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1:"
           "handle_abort=0:quarantine_size_mb=16", TZ="UTC", LC_ALL="C")

def known_findings(prop):
    """Lines  finding: property=<id> key=<key> <description>"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property=%s key=" % prop):
                rest = ln.split("key=", 1)[1]
                k, _, d = rest.partition(" ")
                out[k] = d
    return out

def read_status(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return None
    if len(b) < 24: return None
    ci, fin, failed = struct.unpack("<qqq", b[:24])
    def s(o, n): return b[o:o+n].split(b"\0")[0].decode(errors="replace")
    return dict(case=ci, finished=fin, failed=failed, desc=s(24, 4096), note=s(4120, 4096), msg=s(8216, 8192), key=s(16408, 512))

class Run:
    """One process exploring one shard (or one case)."""
    def __init__(self, exe, tier, work, tag, shard, n, only, limit, known):
        self.status = os.path.join(work, tag + ".st"); self.out = os.path.join(work, tag + ".out")
        self.log = os.path.join(work, tag + ".log"); tmp = os.path.join(work, tag + ".tmp")
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        for f in (self.out, self.status):
            if os.path.exists(f): os.remove(f)
        cmd = [exe, "--tier", tier, "--status", self.status, "--out", self.out, "--tmp", tmp, "--limit", str(limit)]
        cmd += ["--only", str(only)] if only is not None else ["--shard", str(shard), "--nshards", str(n)]
        for k in known: cmd += ["--known", k]
        self.cmd = cmd; self.shard = shard; self.n = n; self.t0 = time.time()
        self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(self.log, "wb"), stdin=subprocess.DEVNULL, env=ENV, cwd=tmp)
    def wait(self):
        self.rc = self.p.wait(); self.wall = time.time() - self.t0
        self.st = read_status(self.status)
        self.ok = self.rc == 0 and self.st is not None and self.st["finished"] == 1
        return self.ok
    def reason(self):
        st = self.st or {}
        try: tail = open(self.log, "rb").read()[-6000:].decode(errors="replace")
        except OSError: tail = ""
        if self.rc == 77: m = "the case did not terminate within its CPU limit"
        elif st.get("failed"): m = st["msg"]
        elif self.rc == 66: m = "memory error (AddressSanitizer)"
        elif self.rc < 0: m = "killed by signal %d" % -self.rc
        else: m = "unexpected exit code %d" % self.rc
        return m, tail

def main():
    prop = sys.argv[1]
    tier = "quick"; only = None
    a = sys.argv[2:]
    i = 0
    while i < len(a):
        if a[i] == "--only": only = a[i+1]; i += 2
        else: tier = a[i]; i += 1
    if tier not in ("quick", "thorough"): sys.exit("bad tier")
    t0 = time.time()
    cfg = PROPS[prop]
    known = known_findings(prop)
    evp = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    if only is None and os.path.exists(evp): os.remove(evp)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = run(prop, tier, only, cfg, known, work, t0, evp)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(prop, tier, only, cfg, known, work, t0, evp):
    parts = cfg["parts"]
    exes = []
    try:
        for pt in parts:
            objs = []
            asan = pt.get("asan", True)
            for o in pt.get("objs", ["lib"]):
                objs += {"lib": lambda: build.build_lib(asan), "judy": build.build_judy, "npl": lambda: build.build_npl(asan),
                         "kperm": lambda: build.build_kperm(asan), "planarity": lambda: build.build_planarity(asan), "planarmap": lambda: build.build_planarmap(asan)}[o]()
            objs += build.build_tools(pt.get("tools", []), asan)
            exes.append(build.build_harness(pt["harness"], objs, asan=asan, extra_inc=[os.path.join(build.REPO, x) for x in pt.get("inc", [])],
                                            ldflags=WRAPS + pt.get("ldflags", []), libs=pt.get("libs", ["-lgsl", "-lgslcblas", "-lm", "-lpthread"])))
    except build.BuildError as e:
        print("check %s could not be built: %s" % (prop, e)); return 2
    tbuild = time.time() - t0
    n = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
    tot = dict(cases=0, total_cases=0, trans=0, traces=0, evals=0)
    states = set(); outcomes = {}; counters = {}; samples = []; hits = set()
    for pi, (pt, exe) in enumerate(zip(parts, exes)):
        htier = {"quick": "thorough", "thorough": "deep"}[tier] if pt.get("deep") else tier
        limit = pt.get("limit", 60 if tier == "quick" else 600)
        if only is not None:
            pk, ck = only.split(":")
            if int(pk) != pi: continue
            runs = [Run(exe, htier, work, "p%do" % pi, 0, 1, int(ck), limit * 4, known)]
        else:
            m = 1 if pt.get("serial") else n
            runs = [Run(exe, htier, work, "p%ds%d" % (pi, s), s, m, None, limit, known) for s in range(m)]
        bad = [r for r in runs if not r.wait()]
        if bad:
            for r in bad:
                # replay before reporting: the failing case alone, with a longer limit; then the whole shard
                k = r.st["case"] if r.st else -1
                how = None
                if only is not None: how = "single case"; rr = r
                elif k >= 0:
                    rr = Run(exe, htier, work, "p%dr%d" % (pi, r.shard), 0, 1, k, limit * 4, known)
                    if not rr.wait(): how = "single case"
                if how is None:
                    rr = Run(exe, htier, work, "p%dq%d" % (pi, r.shard), r.shard, r.n, None, limit * 2, known)
                    if not rr.wait(): how = "shard history"
                if how is None:
                    r.recovered = rr; continue
                m, tail = rr.reason()
                st = rr.st or {}
                d = os.path.join(VERIF, "replay"); os.makedirs(d, exist_ok=True)
                path = os.path.join(d, "%s-%s-%d.txt" % (prop, pt["harness"], st.get("case", -1)))
                with open(path, "w") as f:
                    f.write("property: %s\nharness: %s\ntier: %s\ncase: %s\ninput: %s\nstep: %s\nfailure: %s\nreproduced by: %s\n"
                            "replay: python3 checks/run.py %s %s --only %d:%s\n\n--- log tail ---\n%s\n" %
                            (prop, pt["harness"], tier, st.get("case"), st.get("desc"), st.get("note"), m, how, prop, tier, pi, st.get("case"), tail))
                print("failure: %s\n  input: %s\n  step: %s" % (m, st.get("desc", "")[:600], st.get("note", "")[:600]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                write_ev(prop, tier, cfg, evp, t0, tbuild, tot, states, outcomes, counters, samples, 1, False)
                return 1
        for r in runs:
            if not r.ok: r = r.recovered
            for ln in open(r.out, errors="replace"):
                f = ln.rstrip("\n").split("\t")
                if f[0] in tot:
                    if f[0] == "total_cases": 
                        if r is runs[0]: tot["total_cases"] += int(f[1])
                    else: tot[f[0]] += int(f[1])
                elif f[0] == "outcome": outcomes[f[2]] = outcomes.get(f[2], 0) + int(f[1])
                elif f[0] == "counter": counters[f[2]] = counters.get(f[2], 0) + int(f[1])
                elif f[0] == "sample": samples.append(f[1])
                elif f[0] == "known": hits.add(f[1])
            ar = array.array("Q"); b = open(r.out + ".states", "rb").read(); ar.frombytes(b); states.update((pi, x) if len(parts) > 1 else x for x in ar)
            os.remove(r.out + ".states")
    if only is not None:
        print("case held"); return 0
    for k in sorted(hits):
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, known.get(k, "")))
    write_ev(prop, tier, cfg, evp, t0, tbuild, tot, states, outcomes, counters, samples, 0, True)
    print("%s %s held: %d cases, %d states, %d transitions, %d traces, %d outcomes, %.1f s (build %.1f s)" %
          (prop, tier, tot["cases"], len(states), tot["trans"], tot["traces"], len(outcomes), time.time() - t0, tbuild))
    return 0

def write_ev(prop, tier, cfg, evp, t0, tbuild, tot, states, outcomes, counters, samples, viol, complete):
    top = sorted(outcomes.items(), key=lambda x: -x[1])[:12]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              wall_s=round(time.time() - t0, 2), violations=viol,
              coverage=dict(states=len(states), transitions=tot["trans"], traces_validated_against_impl=tot["traces"],
                            samples=[s for s in samples[:6]] or ["(run stopped before a sample was taken)"],
                            exhaustive=complete, cases=tot["cases"], checks_evaluated=tot["evals"],
                            distinct_outcomes=len(outcomes), commonest_outcomes=[{"outcome": k[:200], "count": v} for k, v in top],
                            counters=counters, bounds=cfg["bounds"][tier] if isinstance(cfg["bounds"], dict) else cfg["bounds"],
                            conformance="the explored transitions are calls of the real functions compiled from /repo's working tree; the reference model is compared after every call"),
              assumptions=cfg.get("assumptions", []))
    json.dump(ev, open(evp, "w"), indent=1)

if __name__ == "__main__":
    main()
