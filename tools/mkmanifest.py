#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the check modules present"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "technique.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "vfx", "checks", i.lower() + ".py")):
        t = TECH.get(i, {})
        checks.append({"property": i, "quick_cmd": "./check.py %s" % i,
                       "thorough_cmd": "./check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t.get("technique", "property-based testing (Hypothesis) against an independent reference model"),
                       "level": "exploration",
                       "level_note": t.get("note", "Searches generated cases; establishes no absence. Trusts the Python reference model and the compiler.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "/opt/veriftools/pyvenv/bin/python -m vfx.build all", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
