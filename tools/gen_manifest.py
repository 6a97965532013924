#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed properties and their techniques.
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def t(i, tech, note): T[i] = (tech, note)
exec(open(os.path.join(root, "tools", "claims.py")).read())
checks = []
for i in sorted(T):
    tech, note = T[i]
    checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "env VERIF_TIER=thorough ./check.sh " + i,
        "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note})
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in T]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
