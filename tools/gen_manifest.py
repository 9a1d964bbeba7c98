#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan of checks."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from dpa import plan
TECH = json.load(open(os.path.join(H, "tools", "technique.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in plan.PLAN:
        t = TECH["checks"][i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i, "technique": t[0], "level": "other", "level_note": t[1]})
    else:
        na.append({"property": i, "reason": TECH["na"][i]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: dpa/ is an abstract interpreter for the package's Python sources (standard library ast); the analysed code is never imported or run."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
