#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist under harness/cmd."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
notes = json.load(open(V + '/tools/levels.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.isdir(f"{V}/harness/cmd/{i.lower()}") and i in notes:
        n = notes[i]
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": n["technique"],
            "level": n["level"],
            "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks enumerate bounded spaces exhaustively on the real code (see DESIGN.md). No hooks are needed in /repo."}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write("\n")
print(len(checks), "checks,", len(na), "not claimed")
