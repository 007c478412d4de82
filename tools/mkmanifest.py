#!/usr/bin/env python3
"""Regenerates MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import specs
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for i in ids:
    s = specs.SPECS.get(i)
    if not s:
        na.append({"property": i, "reason": "no check has been built yet"})
        continue
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                   "technique": s["technique"], "level": s.get("level", "exploration"), "level_note": s["note"] + " Holds on what was generated; no proof."})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses own the clock, the arena and allocation failures by symbol interposition. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
