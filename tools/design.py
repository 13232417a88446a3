#!/usr/bin/env python3
"""Writes DESIGN.md."""
import ast
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
notes = json.load(open('tools/notes.json'))
results = json.load(open('tools/results.json')) if os.path.exists('tools/results.json') else {}


def attrs(path):
    out = {}
    for c in ast.parse(open(path).read()).body:
        if isinstance(c, ast.ClassDef):
            for a in c.body:
                if isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Name):
                    try:
                        out[a.targets[0].id] = ast.literal_eval(a.value)
                    except ValueError:
                        pass
    return out


known, fixed = [], []
for l in open('known_findings.jsonl'):
    l = l.strip()
    if l.startswith('fixed:'):
        p, c, w = l[len('fixed: property='):].split(' ', 2)
        fixed.append((p, c, w))
    elif l:
        known.append(json.loads(l))
out = [open('tools/design_head.md').read().rstrip(), '', '## 2. The properties and how each is decided', '']
for l in open('properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out.append('### %s: %s' % (i, p['title']))
    out.append('')
    out.append('*Specified:* ' + p['statement'])
    out.append('')
    f = 'checks/%s.py' % i.lower()
    if i not in notes or not os.path.exists(f):
        out += ['*Not decided:* no check is claimed (see MANIFEST.json).', '']
        continue
    a = attrs(f)
    out += ['*Method:* ' + notes[i][0] + '.', '', '*Generated:* ' + ' '.join(a['rule'].split()), '']
    out += ['*Bounds:* %d random cases in the quick tier, %d in the thorough one, besides fixed ones. %s' % (a['quick'], a['thorough'], notes[i][1]), '']
    out += ['*Beyond the tests:* ' + p['why_tests_cant'], '']
    n = [x for x in fixed if x[0] == i]
    k = [x for x in known if x['property'] == i]
    if n or k:
        out += ['*Findings:* %d repaired%s.' % (len(n), ', %d open' % len(k) if k else ''), '']
out += ['## 3. Findings', '', 'Defects found by the checks on the original tree. Repaired ones have a `fix:` commit each in /repo, and the check fails again without it.', '']
for p, c, w in fixed:
    out.append('* %s (%s): %s' % (p, c, w))
out += ['', 'Open (known findings, each suppressed by its key only):', '']
for k in known:
    out.append('* %s, "%s": %s' % (k['property'], k['key'], k['what']))
out += ['', '## 4. Planted bugs', '', '`seeded/<id>/`: breaks a property, builds, passes the stable tests; caught by:', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    i = f.split('/')[1]
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '\\|'), results.get(i, m['property'])))
out.append('')
if os.path.exists('tools/mutants.md'):
    out += [open('tools/mutants.md').read().rstrip(), '']
out.append(open('tools/design_tail.md').read())
open('DESIGN.md', 'w').write('\n'.join(out))
