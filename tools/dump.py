#!/opt/veriftools/pyvenv/bin/python
"""dump.py PROP target obligation-substring OUT.smt2: the first matching proof obligation as a script"""
import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V + "/cppvc", V + "/contracts"]; sys.setrecursionlimit(20000)
import z3, front, solve, spec, registry
p, sub, name, out = sys.argv[1:5]
for tg in registry.PROPS[p]["targets"]:
    if sub not in tg.name: continue
    t = spec.T(tg.name); tg.build(front.extract(tg.unit, tg.roots, getattr(tg, "body_dirs", ())), t)
    for it in t.items:
        if name in it["name"]:
            s = z3.Solver()
            for f in it["facts"] + it["pc"]: s.add(f)
            s.add(z3.Not(it["goal"])); open(out, "w").write(s.to_smt2()); print(it["name"], len(it["facts"]), len(it["pc"])); sys.exit()
