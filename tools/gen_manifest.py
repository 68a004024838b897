#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry; properties without a check go to not_applicable."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl")) if x.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": registry.TECH.get(i, registry.DEFAULT_TECH),
            "level": "model_checking",
            "level_note": registry.NOTES.get(i, registry.DEFAULT_NOTE),
        })
    else:
        na.append({"property": i, "reason": registry.NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every driver uses the public API only. Known findings and fixed defects: known-findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
