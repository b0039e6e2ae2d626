#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt.checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TODO = "No monitor for it has been built yet."
m = {"version": 1, "setup_cmd": "python3 /verif/setup.py", "checks": [], "not_applicable": [],
     "notes": "Runtime monitoring only: every check compiles /repo's current sources (outside /repo), runs them under workloads and judges the observed execution. No hooks are needed in /repo."}
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        m["not_applicable"].append({"property": p["id"], "reason": TODO}); continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 /verif/check.py " + p["id"],
        "thorough_cmd": "env VERIF_TIER=thorough python3 /verif/check.py " + p["id"],
        "technique": c["technique"], "level": "exploration", "level_note": c["note"] or
        "Judges the executions it observes (seeded by VERIF_SEED); executions not run are not covered. Rule: " + c["rule"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
