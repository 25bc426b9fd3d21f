#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/claims.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from claims import CLAIMS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(here, '..', 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "One analyzer (sa/, built on go/types and go/ssa) decides every claimed property from /repo's current source; no code of /repo is executed."}
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
