#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = json.load(open(V + '/tools/techniques.json'))
NA = TECH.pop('not_applicable')
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash /verif/check.sh {i} quick",
        "thorough_cmd": f"bash /verif/check.sh {i} thorough",
        "technique": TECH[i][0],
        "level": "exploration",
        "level_note": TECH[i][1],
    })
json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(NA), 'not applicable')
