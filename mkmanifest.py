#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE = {}
CLAIMED = []
exec(open(os.path.join(here, 'claims.py')).read())
checks = []
for pid in CLAIMED:
    tech, note = NOTE[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "./check %s quick" % pid,
        "thorough_cmd": "./check %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": tech,
        "level": "exploration",
        "level_note": note,
    })
na = []
for p in props:
    if p['id'] in CLAIMED: continue
    na.append({"property": p['id'], "reason": NA.get(p['id'], "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "The simulation is put into the build with 'go build -overlay': statement-level yield points and redirected imports are inserted into copies of the sources, so /repo carries no hooks. See DESIGN.md."}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
