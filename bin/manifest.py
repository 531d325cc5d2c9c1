#!/usr/bin/env python3
"""Regenerates MANIFEST.json from plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, TECH, NOTE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
m = {"version": 1,
     "setup_cmd": "bin/setup",
     "checks": [{"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                 "technique": TECH[i], "level": "exploration", "level_note": NOTE[i]} for i in ids if i in PLAN],
     "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in PLAN]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
