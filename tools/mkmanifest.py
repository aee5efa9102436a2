#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in plan.NOT_APPLICABLE or not plan.PLAN.get(i):
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": plan.TECHNIQUE,
        "level": "model_checking",
        "level_note": "Holds for every value of the symbolic inputs within: " + plan.BOUNDS.get(i, "see DESIGN.md") + " Trusts clang's front end, the symx executor (proved paths are re-run natively as a check on it) and Z3.",
    })
na = [{"property": p["id"], "reason": plan.NOT_APPLICABLE.get(p["id"], "check not built yet")} for p in props if p["id"] not in {c["property"] for c in checks}]
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the headers are compiled as they are into LLVM IR on every run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
