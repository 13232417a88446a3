#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the checks present."""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    f = 'checks/%s.py' % i.lower()
    if os.path.exists(os.path.join(V, f)):
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd='python3-vt ' + f, thorough_cmd='python3-vt %s thorough' % f,
                           evidence_file='evidence/%s.json' % i, technique=n[0],
                           level=n[2] if len(n) > 2 else 'exploration', level_note=n[1]))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, ['', 'No check has been built for it yet.'])[1]))
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks: the checks build the unmodified sources of /repo (Clang 20 headers plus a generated shim for four '
               'Clang 21 names) and run its Python scripts. VERIF_SEED seeds every check; VERIF_TIER selects the depth. '
               'python3-vt checks/<id>.py --replay FILE re-runs a replay file.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
