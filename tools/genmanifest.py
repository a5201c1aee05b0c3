#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py (one entry per check)."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import CHECKS
from technique import TECH, NOTE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        continue
    checks.append({"property": i, "quick_cmd": "python3 run.py " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration", "level_note": NOTE[i]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "no check built yet"} for p in props if p["id"] not in CHECKS],
     "notes": "No hooks in /repo: unexported functions are reached through go build overlays (harness/shims). Repairs of genuine defects are the fix: commits listed in known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(m["not_applicable"]), "unclaimed")
