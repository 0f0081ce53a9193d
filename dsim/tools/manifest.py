#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
notes = {}
exec(open('/verif/dsim/tools/notes.py').read())
checks = []
for p in props:
    i = p['id']
    if i not in notes:
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'/verif/check.sh {i} quick',
        'thorough_cmd': f'/verif/check.sh {i} thorough',
        'technique': 'deterministic simulation with fault injection: ' + notes[i][0],
        'level': 'exploration',
        'level_note': notes[i][1],
    })
na = [{'property': p['id'], 'reason': not_applicable[p['id']]} for p in props if p['id'] not in notes]
m = {
    'version': 1,
    'setup_cmd': 'bash /verif/dsim/build.sh',
    'hooks': {'guard': 'none in /repo: the simulator instruments a build overlay (go build -overlay, -tags faketime)', 'enable': 'dsim/build.sh generates the overlay from /repo\'s working tree', 'source_commits': []},
    'checks': checks,
    'not_applicable': na,
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
