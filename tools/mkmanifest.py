#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of implemented checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks'))
import check
from manifest_data import INFO, NA
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    if p in check.TABLE:
        tech, level, note = INFO[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 checks/check.py %s --tier quick' % p,
                            'thorough_cmd': 'python3 checks/check.py %s --tier thorough' % p,
                            'technique': tech, 'level': level, 'level_note': note})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'no check built yet')})
m['notes'] = 'No hooks in /repo: every check analyses the unmodified public headers (and checksum.cpp). See DESIGN.md.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
