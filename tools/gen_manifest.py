#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json
T = {}
exec(open('/verif/tools/checks.py').read())
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for p in props:
    if p not in T: continue
    tech, level, note = T[p]
    checks.append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p}", "evidence_file": f"evidence/{p}.json",
                   "technique": tech, "level": level, "level_note": note})
na = [{"property": p, "reason": "its check is still being built"} for p in props if p not in T]
m = {"version": 1, "setup_cmd": "./check.sh all", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the library is compiled from /repo/src with std and rand replaced by controllable stand-ins (mc/facade, shims). Every check rebuilds from /repo's working tree. VERIF_TIER selects the bounds."}
open('/verif/MANIFEST.json', 'w').write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
