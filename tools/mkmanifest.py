#!/usr/bin/env python3
"""writes MANIFEST.json from the properties and the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")) and pid in NOTES:
        n = NOTES[pid]
        checks.append({"property": pid,
                       "quick_cmd": "VERIF_TIER=quick python3 bin/check.py %s" % pid,
                       "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": pid, "reason": NOTES.get(pid, {}).get("na", "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ checked with TLC; no hooks in /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
