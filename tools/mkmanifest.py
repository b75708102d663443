#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"/verif/check.sh {i} quick", "thorough_cmd": f"/verif/check.sh {i} thorough",
                       "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "/verif/setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
