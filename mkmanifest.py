#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os
from plan import PLAN, NOTE
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if PLAN.get(i):
        t, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
