#!/opt/veriftools/pyvenv/bin/python
"""writes contracts/fingerprints.json: the functions under contract as they are on the tree the proofs were last seen to go through on (read by check.py only to word what it reports when a proof does not go through)"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V + "/cppvc", V + "/contracts"]; sys.setrecursionlimit(20000)
import front, registry
out = {}
for p in sorted(registry.PROPS):
    for tg in registry.PROPS[p]["targets"]:
        k = front.key(tg)
        if k not in out: out[k] = front.extract(tg.unit, tg.roots, getattr(tg, "body_dirs", ())).fingerprint
json.dump(out, open(V + "/contracts/fingerprints.json", "w"), indent=1, sort_keys=True); print(len(out), "units")
