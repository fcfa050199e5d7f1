#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/manifest.py > MANIFEST.json)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
T = json.load(open(os.path.join(ROOT, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    t = T.get(i, {})
    if "na" in t:
        na.append({"property": i, "reason": t["na"]})
    elif "technique" in t and os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "evidence_file": "evidence/%s.json" % i,
                       "technique": t["technique"], "level": "other", "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": "no check has been built for this property yet"})
print(json.dumps({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
                  "notes": "All checks analyse the type-checked program (MIR, types, constants) of /repo's working tree in two build configurations; nothing of it is executed."},
                 indent=1))
