#!/usr/bin/env python3
"""multi.py P1 P2 ... : runs the analyses of several properties once (the
analyses decide all properties together) and prints, per property, reports,
fixpoint-only failures and imprecise ones.  For the quiet corpus."""
import os, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
from specs import registry
from absint import ir

props = [p for p in sys.argv[1:] if p in registry.PROPS]
ir.ensure_irdump()


def jobs(k):
    out = []
    for p in props:
        for j in registry.PROPS[p](k):
            if j not in out:
                out.append(j)
    # a job for all operations covers those for a single one
    return [j for j in out if not (j[0] == "aead" and j[1].get("peel") and j[1].get("op") and (j[0], dict(j[1], op=None)) in out)]


t0 = time.time()
js = jobs(2)
registry.precompile(js)
res = check.run_jobs(js, 420, None, 900)
err = [r for r in res if r["error"] or r.get("crash")]
fixbad = any(o[2] and not o[3]["imprecise"] and o[0][0] in props for r in res if r["job"][1].get("peel") is None for o in r["obl"])
if fixbad:
    for k in (3, 4):
        res += check.run_jobs([j for j in jobs(k) if j[1].get("peel") is not None], 150, None, 300)
line = []
for p in props:
    peeled = [r for r in res if r["job"][1].get("peel") is not None]
    fix = [r for r in res if r["job"][1].get("peel") is None]
    pg, pb, ps = check.split(peeled, p)
    fg, fb, fs = check.split(fix, p)
    line.append("%s=%d/%d/%d" % (p, len(pb), len(fb), len(ps) + len(fs)))
    for tag, d in (("BAD", pb), ("fix", fb), ("soft", ps), ("soft", fs)):
        for k, (n, f, j) in d.items():
            print("  %s %s %s @ %s: %s %s %s" % (tag, p, k[0], k[1], f["msg"][:300], str(j[1]), f["imprecise"][:2]))
for r in err:
    print("  ERROR", r["job"], r["error"] or r["stop"])
for r in res:
    if r["stop"] and not r.get("crash"):
        print("  STOP", r["job"], r["stop"])
print("RESULT %s  (bad/fixpoint-only/imprecise) %.0fs%s" % (" ".join(line), time.time() - t0, " ERRORS" if err else ""))
