#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and registry.py."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
from registry import PROPERTIES, NOT_APPLICABLE, UNITS
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPERTIES:
        us = [UNITS[u] for u in PROPERTIES[i]["units"]]
        c = {"property": i,
             "quick_cmd": "python3 vf.py check %s" % i,
             "thorough_cmd": "VERIF_TIER=thorough python3 vf.py check %s" % i,
             "evidence_file": "evidence/%s.json" % i,
             "technique": PROPERTIES[i].get("technique", "CBMC code contracts enforced on the real C functions (goto-instrument --dfcc), every obligation discharged by bit-precise SAT"),
             "level": PROPERTIES[i].get("level", "proof"),
             "level_note": PROPERTIES[i]["note"]}
        checks.append(c)
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "No contract check has been built for this property yet.")})
m = {"version": 1,
     "setup_cmd": "python3 vf.py list > /dev/null && goto-cc --version && cbmc --version",
     "checks": checks, "not_applicable": na,
     "notes": "Each check compiles the current /repo sources with goto-cc on every run, enforces the contracts in units/ with goto-instrument --dfcc and discharges the obligations with cbmc. No hooks in /repo are needed. Known findings are in known_findings.json."}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
