#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the suites that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
import suites
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in suites.PROPERTIES:
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 run.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": suites.NOTES[i][0],
            "level": "model_checking",
            "level_note": suites.NOTES[i][1],
        })
    else:
        na.append({"property": i, "reason": "no check has been built for this property yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Specifications: TLA+ in spec/, checked by TLC. Harness crate: harness/ (path dependency on /repo, rebuilt by every check). No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
