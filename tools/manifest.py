#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py (which properties have jobs) and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from plan import PLAN, TECH
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        t, note = TECH[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "the monitor for this property is still being built"})
m = {"version": 1, "setup_cmd": "./check --setup",
     "hooks": {"guard": "none", "enable": "the checks build /repo as it is (path dependency); no hook was needed, all monitored state is reachable through the public API", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds the monitors against /repo's working tree into .build/ and runs them; see DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
