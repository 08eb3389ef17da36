#!/usr/bin/env python3
"""check.py <property> : decides one property by static analysis of /repo's
current source.  Exit 0: no violation; 1: VIOLATION line printed; 2: the
analysis could not be carried out (source does not compile, entry point gone).
"""
import json, multiprocessing as mp, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))

ASSUMPTIONS = [
    "clang's LLVM IR (-O0 + mem2reg) of each translation unit is what the compiler generates code from",
    "the models of the C++ standard library, abseil and OpenSSL/BoringSSL functions (engine/absint/models.py, cryptolib.py) describe those libraries",
    "object sizes are below 2^40 bytes, one buffer component is below 2^31 bytes, distinct parameters do not alias",
]


def worker(job, q, limit, prop):
    t = time.time()
    res = dict(job=job, obl=[], stop=None, error=None, stats={})
    r = None
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from absint import lin, engine
        engine.DEADLINE[0] = t + limit
        engine.WANT[0] = prop
        from specs import registry
        try:
            from specs import common
            r = registry.run_job(job)
            eng = r.eng
        except (engine.Stop, MemoryError, RecursionError) as e:
            res["stop"] = str(e) or type(e).__name__
            eng = engine.LAST[0]
        except Exception as e:
            if type(e).__name__ in ("BuildError", "Anchor"):
                raise
            # what was decided before the interpreter gave up still counts
            res["stop"] = "internal error: " + traceback.format_exc(limit=-3)
            res["crash"] = True
            eng = engine.LAST[0]
        if eng is not None:
            res["obl"] = [(k, v[0], v[1], v[2]) for k, v in eng.obl.items()]
            res["stats"] = dict(functions=sorted({eng.p.funcs[f].short for f in eng.visited if eng.p.funcs[f].file.startswith(engine.ir.REPO)}),
                                n_functions=len(eng.visited), abstract_steps=eng.steps, branches=eng.npaths,
                                call_sites=sum(eng.calls_seen.values()), entailment_queries=lin.STATS["ent"],
                                loop_fixpoints=eng.loops_done, unmodelled=eng.unknown, truncated=eng.loop_limit_hits)
    except Exception as e:
        n = type(e).__name__
        res["error"] = "%s: %s" % (n, e) if n in ("BuildError", "Anchor") else traceback.format_exc()
    res["wall"] = time.time() - t
    q.put(json.dumps(res, default=str))


def run_jobs(jobs, limit, prop, budget):
    """Runs the jobs on all cores; a job over its time limit is stopped."""
    ncpu = min(8, os.cpu_count() or 1)
    pend = list(jobs)
    # fixpoint jobs are the slow ones: start them first
    pend.sort(key=lambda j: j[1].get("peel") is not None)
    live, out = [], []
    end = time.time() + budget
    hit = False
    while pend or live:
        if hit or time.time() > end:
            why = "not needed: violation found" if hit else "time budget of the check"
            out += [dict(job=j, obl=[], stop=why, error=None, stats={}, wall=0.0) for j in pend]
            pend = []
        lim = max(5, min(limit, end - time.time()))
        while pend and len(live) < ncpu:
            j = pend.pop(0)
            q = mp.SimpleQueue()
            p = mp.Process(target=worker, args=(j, q, lim, prop))
            p.start()
            live.append((p, q, j, time.time(), lim))
        for x in list(live):
            p, q, j, t0, lim = x
            if not q.empty():
                r = json.loads(q.get())
                out.append(r)
                p.join()
                live.remove(x)
                if j[1].get("peel") is not None and any(o[0][0] == prop and o[2] and not o[3]["imprecise"] for o in r["obl"]):
                    hit = True
            elif not p.is_alive():
                if not q.empty():
                    continue
                out.append(dict(job=j, obl=[], stop="analysis process ended (memory?)", error=None, stats={}, wall=time.time() - t0))
                live.remove(x)
            elif time.time() - t0 > lim + 60 or hit:
                p.kill()
                p.join()
                out.append(dict(job=j, obl=[], stop="not needed: violation found" if hit else "time limit", error=None, stats={}, wall=time.time() - t0))
                live.remove(x)
        time.sleep(0.02)
    return out


def split(results, prop):
    good, bad, soft = {}, {}, {}
    for r in results:
        for k, ok, nb, first in r["obl"]:
            if k[0] != prop:
                continue
            key = (k[1], k[2])
            e = good.setdefault(key, 0)
            good[key] = e + ok
            if nb:
                tgt = soft if first["imprecise"] else bad
                tgt.setdefault(key, (nb, first, r["job"]))
    return good, bad, soft


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from absint import ir
    from specs import registry
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    titles = {}
    for l in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(l)
        titles[d["id"]] = d["title"]
    try:
        ir.ensure_irdump()
    except ir.BuildError as e:
        print("ANALYSIS-BROKEN:", e)
        return 2
    mk = registry.PROPS[prop]
    depth = 2 if tier == "quick" else 4
    jobs = mk(depth)
    # compile the translation units once, in parallel, before the analyses share them
    limit = 420 if tier == "quick" else 3600
    registry.precompile(jobs)
    res = run_jobs(jobs, limit, prop, 600 if tier == "quick" else 20000)
    errs = [r for r in res if r["error"]]
    crash = [r for r in res if r.get("crash")]
    if not errs and crash and len(crash) == len(res):
        errs = [dict(r, error=r["stop"]) for r in crash]
    if errs:
        for r in errs:
            print("ANALYSIS-BROKEN: job %s: %s" % (r["job"], r["error"]))
        return 2
    peeled = [r for r in res if r["job"][1].get("peel") is not None or r["job"][1].get("exact")]
    fix = [r for r in res if r not in peeled]
    pg, pb, psoft = split(peeled, prop)
    fg, fb, fsoft = split(fix, prop)
    # A report of the fixpoint analysis is confirmed on abstract paths with a
    # bounded number of loop iterations, escalating the bound.
    k = depth
    extra = 0
    while not pb and fb and k < depth + 2 and time.time() - t0 < 500:
        k += 1
        jj = [j for j in mk(k) if j[1].get("peel") is not None]
        more = run_jobs(jj, 150, prop, 650 - (time.time() - t0))
        extra += len(jj)
        g2, b2, s2 = split([m for m in more if not m["error"]], prop)
        pb.update(b2)
    undecided = []
    for key, (n, first, job) in fb.items():
        if not pb:
            undecided.append("%s at %s: not proved for unbounded loops (%s)" % (key[0], key[1], first["msg"]))
    for src in (psoft, fsoft):
        for key, (n, first, job) in src.items():
            undecided.append("%s at %s: %s [imprecise: %s]" % (key[0], key[1], first["msg"], "; ".join(first["imprecise"][:3])))
    for r in res:
        if r["stop"]:
            undecided.append("%s: %s" % (r["job"], r["stop"]))
    total = len(set(pg) | set(fg))
    known = {}
    kf = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith("known: property=%s " % prop):
                known[l.split(" ", 2)[2].strip()] = True
    viol = []
    for key, (n, first, job) in sorted(pb.items()):
        ident = "%s | %s" % (first["fn"], key[0])
        if ident in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, ident, first["msg"]))
            continue
        viol.append((key, n, first, job))
    for r in sorted(res, key=lambda r: str(r["job"])):
        st = r["stats"]
        print("analysed %s: %d functions, %d call sites, %d branches, %d obligations for %s, %.1fs%s" % (
            " ".join("%s=%s" % kv for kv in r["job"][1].items() if kv[1] is not None), st.get("n_functions", 0), st.get("call_sites", 0),
            st.get("branches", 0), sum(1 for o in r["obl"] if o[0][0] == prop), prop, r["wall"], " STOPPED: " + r["stop"] if r["stop"] else ""))
    minimum = registry.MIN_OBLIGATIONS.get(prop, 1)
    for u in undecided:
        print("UNDECIDED:", u)
    print("%s: %d distinct obligations, %d instances discharged, %d violated, %d undecided" % (
        prop, total, sum(pg.values()) + sum(fg.values()), len(viol), len(undecided)))
    proved = sorted("%s @ %s" % k for k in fg if k not in fb and k not in fsoft)
    fns = sorted({f for r in res for f in r["stats"].get("functions", [])})
    ev = dict(property=prop, tier=tier, seed=seed, level="other", wall_s=round(time.time() - t0, 1), violations=len(viol),
              assumptions=ASSUMPTIONS + registry.ASSUME.get(prop, []),
              coverage=dict(
                  explanation=registry.explain(prop, titles[prop]),
                  obligations=total, discharged=total - len(set(pb) | set(k for k in fb)),
                  obligation_instances=sum(pg.values()) + sum(fg.values()),
                  proved_for_all_iterations=len(proved),
                  functions_of_repo=fns, call_sites=sum(r["stats"].get("call_sites", 0) for r in res),
                  abstract_branches=sum(r["stats"].get("branches", 0) for r in res),
                  loop_fixpoints=sum(r["stats"].get("loop_fixpoints", 0) for r in res),
                  peel_depth=k, analyses=[dict(job=r["job"], wall_s=round(r["wall"], 1), stop=r["stop"]) for r in res],
                  samples=[dict(rule=k[0], site=k[1], instances=v) for k, v in sorted(list(pg.items()) + list(fg.items()))][:60],
                  undecided=undecided))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rc = 0
    if total < minimum and not viol:
        print("ANALYSIS-BROKEN: only %d obligations found, at least %d expected" % (total, minimum))
        rc = 2
    if viol:
        rp = os.path.join(HERE, "evidence", "%s.replay.json" % prop)
        json.dump([dict(property=prop, rule=k[0], site=k[1], function=f["fn"], message=f["msg"], job=job, occurrences=n,
                        abstract_path=f["path"]) for k, n, f, job in viol], open(rp, "w"), indent=1)
        for k, n, f, job in viol[:20]:
            print("%s: rule '%s' violated in %s: %s" % (k[1], k[0], f["fn"], f["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    return rc


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN: internal error")
        rc = 2
    sys.exit(rc)
