"""writes MANIFEST.json from the property modules present"""
import json
import os
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NA = {"P23": "convergence of a statistical average is a limit statement over random sequences; no contract over one call expresses it (the exact per-step algebra is P21)"}
NOTE = json.load(open("/verif/level_notes.json")) if os.path.exists("/verif/level_notes.json") else {}
checks, na = [], []
for i in ids:
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(f"/verif/props/{i.lower()}.py"):
        src = open(f"/verif/props/{i.lower()}.py").read()
        lvl = "exploration" if 'LEVEL = "exploration"' in src else "proof"
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "technique": "contract-based deductive verification: function contracts and loop invariants on the code extracted from /repo on every run, obligations discharged by z3/cvc5; bounded run-time contract checks on the rebuilt code for replay and for the parts outside the verifier's reach",
                       "level": lvl,
                       "level_note": NOTE.get(i, "bounded stand-in: the contracts of this property are checked at run time on the rebuilt code only, nothing is counted as proved" if lvl == "exploration" else "functions listed in the evidence are proved for all inputs (reals for floats, mathematical integers, partial correctness); glue code around them is only checked in bounded runs")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
