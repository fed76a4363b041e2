"""Write MANIFEST.json from properties.jsonl and spec/claims.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from spec.claims import CLAIMS, NOT_APPLICABLE  # noqa: E402

props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "contract-based deductive verification: symbolic execution of /repo's source against contracts, obligations discharged by z3 (cvc5 in the thorough tier)",
                       "level": "proof", "level_note": CLAIMS[i]})
na = [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "check not built yet")} for p in props if p["id"] not in CLAIMS]
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the source is instrumented in memory on every run (vf/rewrite.py). See DESIGN.md."}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
