#!/usr/bin/env python3
"""writes MANIFEST.json from absint/claims.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/absint")
from claims import CLAIMS, NA
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i}", "technique": t, "level": "other", "level_note": note})
na = [{"property": i, "reason": NA.get(i, "no static rule built for it yet")} for i in ids if i not in CLAIMS]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Every check compiles the current tree with a rustc driver (nightly, rustc_private) that dumps type-checked MIR, and analyses the dump in Python. Genuine defects are repaired by fix: commits listed in known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
