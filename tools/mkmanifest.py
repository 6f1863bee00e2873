#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append({"property": i, "reason": "monitor not built yet"})
        continue
    s = CHECKS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": s["technique"],
        "level": s.get("level", "exploration"),
        "level_note": s.get("level_note", "Executions of the real code under generated workloads are judged by an oracle; "
                            "what was observed is in the evidence file, nothing beyond it is claimed."),
    })
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
