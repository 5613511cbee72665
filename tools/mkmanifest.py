#!/usr/bin/env python3
# Regenerates MANIFEST.json from config.py and properties.jsonl.
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import CHECKS, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
TRUST = ("Solver verdicts over all values of the symbolic inputs within the stated bounds, on the LLVM bitcode of the code in /repo regenerated at every run; "
         "trusts clang, the rpsym executor (its traces are validated against the natively compiled code) and Z3. ")
checks = []
for p in props:
    if p not in CHECKS: continue
    c = CHECKS[p]
    b = c.get("bounds", "")
    if isinstance(b, dict): b = "quick: " + b["quick"] + " thorough: " + b["thorough"]
    checks.append({"property": p, "quick_cmd": f"python3 tools/check.py {p} --tier quick", "thorough_cmd": f"python3 tools/check.py {p} --tier thorough",
                   "technique": "symbolic execution of the compiled library (LLVM bitcode), path conditions and properties decided by Z3, counterexamples replayed natively",
                   "level": "model_checking", "level_note": TRUST + "Bounds: " + b})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")} for p in props if p not in CHECKS]
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
