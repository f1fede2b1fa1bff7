#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough]   decides one property on /repo's current tree"""
import sys, os, json, time, tempfile, importlib, traceback, subprocess, random
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, "contracts"))
sys.setrecursionlimit(20000)
import z3
import front, solve, spec
from values import Unsupported, And, Not
from concurrent.futures import ThreadPoolExecutor
import registry

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)):
            if k.get("property") == prop and k.get("status", "known") == "known": out.append(k)
    return out

def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    thorough = tier == "thorough"
    t0 = time.time()
    ent = registry.PROPS[prop]
    work = tempfile.mkdtemp(prefix="cppvc-" + prop + "-")
    try: rc = run(prop, ent, thorough, work, t0)
    finally: subprocess.run(["rm", "-rf", work])
    sys.exit(rc)

def build_targets(ent, prop, problems, changed):
    progs, tgts = {}, []; base = os.path.join(VERIF, "contracts", "fingerprints.json"); base = json.load(open(base)) if os.path.exists(base) else {}
    for tg in ent["targets"]:
        key = (tg.unit, tuple(tg.roots))
        t = spec.T(tg.name); t.bounded = getattr(tg, "bounded", None)
        try:
            if key not in progs:
                progs[key] = front.extract(tg.unit, tg.roots, getattr(tg, "body_dirs", ()))
            if base.get(front.key(tg)) != progs[key].fingerprint: changed.add(tg.name)
            tg.build(progs[key], t)
        except Unsupported as x:
            problems.append((tg.name, "outside the verifier's subset: " + str(x)))
            continue
        except front.ExtractError as x:
            changed.add(tg.name); problems.append((tg.name, "extraction: " + str(x)[:400])); continue
        except Exception as x:
            problems.append((tg.name, "generator: " + repr(x)[:300]))
            if os.environ.get("CPPVC_DEBUG"): traceback.print_exc()
            continue
        tgts.append((tg, t))
    return tgts

def run(prop, ent, thorough, work, t0):
    problems = []
    if ent.get("harness") is not None and hasattr(ent["harness"], "prepare"): ent["harness"].prepare(work)
    changed = set(); tgts = build_targets(ent, prop, problems, changed)
    jobs = []; meta = []
    for tg, t in tgts:
        n = 0; preps = {}
        prep = lambda it: preps.setdefault(it.get("en"), solve.Prep())
        for it in t.items:
            if prop not in it["props"]: continue
            n += 1
            j = solve.Job(it, prep(it))
            g = z3.simplify(it["goal"]) if not z3.is_quantifier(it["goal"]) else it["goal"]
            if z3.is_true(g):
                j.result = solve.Result(); j.result.status, j.result.backend = "proved", "simplifier"
            jobs.append(j); meta.append(("obl", tg, it))
        for c in t.covers:
            if prop not in c["props"]: continue
            j = solve.Job(c, prep(c), True)
            if c.get("dead"): j.result = solve.Result(); j.result.status = "proved"
            jobs.append(j); meta.append(("cover", tg, c))
        if n == 0: problems.append((tg.name, "the contract generated no obligation"))
    solve.DEADLINE[0] = t0 + (1800 if thorough else 420)
    solve.run_jobs(jobs, work, (60, 90, 60) if thorough else (25, 30, 15), 60 if thorough else 20, 10 if thorough else 5)
    results, failed, undecided, vac, proved = collect(jobs, meta)
    for tg, it, r in vac: problems.append((tg.name, "vacuous: " + it["name"] + " is unreachable"))
    known = known_findings(prop)
    # ---- bounded exploration of the real code (replay of counterexamples, stand-in, cross-check)
    need = bool(failed or undecided or problems)
    standin = None
    budget = ent.get("search_thorough", 120) if thorough else ent.get("search_quick", 4)
    if need: budget = max(budget, ent.get("search_fail", 60))
    rep = None
    if ent.get("harness"):
        seeds = []
        for tg, it, r, txt in failed + undecided:
            if r.model: seeds.append(solve.parse_model(r.model))
        rep = ent["harness"](prop, budget, seeds, work, int(os.environ.get("VERIF_SEED", "1")), thorough)
    if not (rep and rep.get("failure")) and not failed:
        slow = [j for j in jobs if not j.cover and j.result is not None and j.result.status != "proved" and timeoutish(j.result)]
        if slow and len(slow) < 40:         # a busy machine: once more, fewer at a time
            solve.DEADLINE[0] = max(solve.DEADLINE[0], time.time() + 100); old = {id(j): j.result for j in slow}
            for j in slow: j.result = None
            solve.run_jobs(slow, work, (60, 90, 60) if thorough else (30, 40, 20), 60, 5, par=4)
            for j in slow: j.result.tries = old[id(j)].tries + j.result.tries
        results, failed, undecided, _, proved = collect(jobs, meta)
    ev = evidence(prop, ent, tgts, proved, failed, undecided, problems, rep, t0, thorough, results)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "replay-out"); os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + ".txt")
    rc = 0
    lines = []
    if rep and rep.get("known"):
        for k in rep["known"]: lines.append(f"KNOWN-FINDING: property={prop} {k}")
    if rep and rep.get("failure"):
        with open(rpath, "w") as f:
            f.write(f"property {prop}\nfailing input on the real code:\n{rep['failure']}\n\nrerun: {rep.get('rerun','')}\n\n")
            dump_failed(f, failed, undecided, problems)
        lines.append(f"VIOLATION property={prop} replay={rpath}"); rc = 1
    elif failed or (undecided and not all(timeoutish(u[2]) for u in undecided)) or changed and (undecided or problems):
        with open(rpath, "w") as f:
            f.write(f"property {prop}\nno failing input found by replay/search; the obligations below are no longer discharged\n\n")
            dump_failed(f, failed, undecided, problems)
        lines.append(f"VIOLATION property={prop} replay={rpath} no-failing-input-found"); rc = 1
    elif undecided or problems:
        for n, p in problems: lines.append(f"note: {n}: {p}")
        for tg, it, r, txt in undecided: lines.append(f"note: undecided (solver resources): {it['name']}")
        if rep is None and not proved: 
            lines.append("note: nothing decided on this tree")
        lines.append(f"{prop}: decided by the bounded stand-in on this tree ({(rep or {}).get('summary','no harness')})")
    else:
        lines.append(f"{prop}: {len(proved)} obligations discharged, {time.time()-t0:.1f}s" + (f"; cross-check: {rep.get('summary')}" if rep else ""))
    ev["result"] = "violation" if rc else "held"
    finish_evidence(ev, rc)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for l in lines: print(l)
    return rc

def collect(jobs, meta):
    results = [(m + (None,), j.result) for m, j in zip(meta, jobs)]
    failed, undecided, vac, proved = [], [], [], []
    for (kind, tg, it, txt), r in results:
        if kind == "cover":
            # unsat (here: "proved") means the contract is vacuous on this tree
            if r.status == "proved": vac.append((tg, it, r))
            continue
        if r.status == "proved": proved.append((tg, it, r))
        elif r.status == "failed": failed.append((tg, it, r, txt))
        else: undecided.append((tg, it, r, txt))
    return results, failed, undecided, vac, proved

def timeoutish(r): return any(x[2] == "timeout" for x in r.tries) and not any(x[1] == "sat" for x in r.tries)

def dump_failed(f, failed, undecided, problems):
    for tg, it, r, txt in failed + undecided:
        f.write(f"obligation: {it['name']} ({it['kind']}, {it.get('line')})\n  function: {getattr(tg,'function','')}\n  result: {r.status} {r.tries}\n  model: {json.dumps({k: str(v) for k, v in solve.parse_model(r.model).items()})[:3000]}\n\n")
    for n, p in problems: f.write(f"note: {n}: {p}\n")

def evidence(prop, ent, tgts, proved, failed, undecided, problems, rep, t0, thorough, results):
    import evid
    return evid.make(prop, ent, tgts, proved, failed, undecided, problems, rep, t0, thorough, results)
def finish_evidence(ev, rc):
    import evid
    evid.finish(ev, rc)

if __name__ == "__main__": main()
