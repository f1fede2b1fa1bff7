#!/opt/veriftools/pyvenv/bin/python
"""developer view: dev.py PROP[,PROP] [target-substring] [-m]   lists the obligations and their results"""
import sys, os, time, tempfile, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/cppvc", V + "/contracts"]
sys.setrecursionlimit(20000)
import z3, front, solve, spec, registry
from concurrent.futures import ThreadPoolExecutor
props = sys.argv[1].split(","); sub = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else ""
M = "-m" in sys.argv; work = tempfile.mkdtemp()
progs = {}; seen = set()
TO = (20, 20, 0); ET = 15
if "-q" in sys.argv: TO = (2, 0, 0); ET = 3
for p in props:
    for tg in registry.PROPS[p]["targets"]:
        if sub not in tg.name or id(tg) in seen: continue
        seen.add(id(tg)); t0 = time.time()
        key = (tg.unit, tuple(tg.roots))
        if key not in progs: progs[key] = front.extract(tg.unit, tg.roots, getattr(tg, "body_dirs", ()))
        t1 = time.time(); t = spec.T(tg.name)
        try: tg.build(progs[key], t)
        except Exception as x: print("##", tg.name, "FAILED", repr(x)[:500]); traceback.print_exc(limit=-6); continue
        t2 = time.time()
        if "-o" in sys.argv: o = sys.argv[sys.argv.index("-o") + 1]; t.items = [x for x in t.items if o in x["name"]]; t.covers = []
        preps = {}
        prep = lambda it: preps.setdefault(it.get("en"), solve.Prep())
        J = [solve.Job(it, prep(it)) for it in t.items] + [solve.Job(c, prep(c), True) for c in t.covers if not c.get("dead")]
        for c in t.covers:
            if c.get("dead"): print("   DEAD COVER", c["name"])
        solve.run_jobs(J, work, TO, ET)
        jobs = [(j.item, "", j.cover) for j in J]; rs = [j.result for j in J]
        print(f"## {tg.name}: extract {t1-t0:.1f}s gen {t2-t1:.1f}s solve {time.time()-t2:.1f}s, {len(t.items)} obligations, fns {[len(e.fns_used) for e in t.engines]}")
        for (it, txt, cov), r in zip(jobs, rs):
            if cov:
                if r.status == "proved": print("   VACUOUS", it["name"])
                elif r.status != "failed": print("   cover undecided", it["name"], r.tries)
                continue
            if r.status != "proved":
                print("  ", r.status, it["name"], sorted(it["props"]), it.get("line"), r.tries)
                if M and r.status == "failed":
                    m = solve.parse_model(r.model)
                    print("      ", {k: v for k, v in m.items()})
        if "-t" in sys.argv:
            for (it, txt, cov), r in sorted(zip(jobs, rs), key=lambda z: -z[1].time)[:12]: print("     ", round(r.time, 2), it["name"], r.tries, len(txt))
            print("   total solver time", sum(r.time for r in rs))
