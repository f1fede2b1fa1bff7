"""evidence of one run"""
import os, time
TECH = "contract-based deductive verification (weakest-precondition style VCs from the Clang AST of /repo, discharged by SMT)"
def make(prop, ent, tgts, proved, failed, undecided, problems, rep, t0, thorough, results):
    engines = [e for _, t in tgts for e in t.engines]
    fns = {}
    for e in engines:
        for full, f, a, b in e.fns_used:
            if f and "/repo/" in f or (f and f.startswith(os.environ.get("VERIF_REPO", "/repo"))): fns[full] = f"{f}:{a}-{b}"
    trusted = sorted({q for e in engines for q in e.trusted})
    assumes = []
    for _, t in tgts:
        for a in t.assumes:
            if a not in assumes: assumes.append(a)
    for a in ent.get("assumes", []):
        if a not in assumes: assumes.append(a)
    back = {}; stime = 0.0
    for it, r in results:
        if r is None: continue
        stime += r.time
    for tg, it, r in proved: back[r.backend] = back.get(r.backend, 0) + 1
    n = len(proved) + len(failed) + len(undecided)
    bounded = [f"{tg.name}: {t.bounded}" for tg, t in tgts if getattr(t, "bounded", None)] + [f"{a}: {b}" for a, b in problems]
    cov = dict(
        obligations=n, discharged=len(proved),
        checker_cmd=f"python3-vt cppvc/check.py {prop} --tier {'thorough' if thorough else 'quick'} (z3 4.13-series 'z3-new', cvc5 1.1.2, z3 4.8.12 as separate processes)",
        trusted_base=["Clang 18 front end and the exporter cppvc/exporter/export.cpp", "the VC generator cppvc/engine.py, loops.py, lib.py", "the order embedding cppvc/fpabs.py", "z3, cvc5"] + (["sympy (rational-function normal form) for the obligations discharged by it"] if any("sympy" in r.backend for _, _, r in proved) else []) + ["library contract: " + q for q in trusted],
        functions_under_contract=[tg.function for tg, _ in tgts if getattr(tg, "function", None)],
        functions_executed_symbolically=[f"{k} ({v})" for k, v in sorted(fns.items())],
        discharged_by=back, solver_time_s=round(stime, 2),
        obligation_names=sorted({it["name"] for _, it, _ in proved}),
        not_discharged=[it["name"] for _, it, _, _ in failed + undecided],
        bounded_standins=bounded)
    if rep:
        cov["cross_check"] = rep.get("summary"); cov["evaluations"] = int(rep.get("evaluations", 0))
        cov["rule"] = "pseudo-random and counterexample-derived inputs executed on the compiled real sources against an independent oracle (bounded; not counted as proof)"
        if rep.get("samples"): cov["samples"] = rep["samples"]
    return dict(property=prop, tier="thorough" if thorough else "quick", seed=int(os.environ.get("VERIF_SEED", "1")), level=ent.get("level", "proof"), coverage=cov, assumptions=assumes, wall_s=round(time.time() - t0, 2), violations=0)
def finish(ev, rc): ev["violations"] = 1 if rc else 0
