"""regenerates MANIFEST.json from the list of claimed checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
PROOF = "contract-based deductive verification: contracts executed on the real functions over free parameters, obligations discharged by exact normal forms"
KVC = "contract-based deductive verification: loop-nest verification conditions extracted from the real kernel source, discharged by z3 for every shape"
# id -> (level, technique, note)
CLAIMED = {}
NA = {
    "P22": "the JAX side executes traced XLA programs: no deductive verifier here has a semantics for them, and agreement of two floating-point evaluators is not expressible as a contract the NumPy sources could be verified against; every other property is decided for the NumPy backend",
}
exec(open(V + "/tools/claims.py").read())
checks = []
for p in props:
    if p in CLAIMED:
        lv, tech, note = CLAIMED[p]
        checks.append({"property": p, "quick_cmd": f"bash /verif/check.sh {p} quick", "thorough_cmd": f"bash /verif/check.sh {p} thorough",
                       "technique": tech, "level": lv, "level_note": note})
na = [{"property": p, "reason": NA.get(p, "no check built yet")} for p in props if p not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
