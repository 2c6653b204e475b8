#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from claims import CLAIMS, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = []
for pid in ids:
    if pid in CLAIMS:
        tech, note = CLAIMS[pid]
        checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} --tier quick",
                       "thorough_cmd": f"python3 check.py {pid} --tier thorough", "technique": tech, "level": "other", "level_note": note})
na = [{"property": i, "reason": NA[i]} for i in ids if i not in CLAIMS]
doc = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 9)'", "checks": checks, "not_applicable": na,
       "notes": "All checks are static: they read the source under /repo/mealpy with Python's ast module and never import or run it."}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
