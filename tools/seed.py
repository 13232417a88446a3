#!/usr/bin/env python3
"""Builds and validates seeded bugs.  python3 tools/seed.py SPEC.py [ID...]

SPEC.py defines SEEDS = {id: dict(property=, edits=[(file, old, new)], files={name: text},
needs=, what=)}; files must hold demo.sh.  A bug is written to seeded/<id> when the demo
passes on a copy of the unchanged tree and fails on the changed one, and the project's
tests pass there.
"""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/tmp/seedrepo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests(cxx):
    """The tests, as /opt/vp/test.sh runs them, but for a copy."""
    out = ''
    if cxx:
        p = sh('python3 %s/tools/seedbuild.py' % V, env=dict(os.environ, VERIF_REPO=R))
        if p.returncode:
            return 'build fails: ' + (p.stdout + p.stderr)[-800:]
        binary = p.stdout.split()[-1]
        p = sh('python3 run_iwyu_tests.py -- %s' % binary, cwd=R)
        if p.returncode:
            out += 'run_iwyu_tests: ' + ' '.join(l for l in p.stderr.split('\n') if l.startswith(('FAIL', 'ERROR', 'FAILED')))[:400]
    for t in ('fix_includes_test.py', 'iwyu_tool_test.py'):
        p = sh('python3 %s' % t, cwd=R)
        if p.returncode:
            out += t + ' fails: ' + p.stderr[-300:]
    return out


ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
if not os.path.isdir(R):
    subprocess.check_call('cp -a /repo %s' % R, shell=True)
head = sh('git -C /repo rev-parse HEAD').stdout.strip()
sh('git -C %s fetch -q /repo; git -C %s checkout -qf %s' % (R, R, head))
for sid, s in ns['SEEDS'].items():
    if only and sid not in only:
        continue
    d = os.path.join(V, 'seeded', sid)
    sh('git -C %s checkout -qf .' % R)
    ok = True
    for f, old, new in s['edits']:
        p = os.path.join(R, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(sid, 'BAD EDIT', t.count(old), repr(old)[:80])
            ok = False
            break
        open(p, 'w').write(t.replace(old, new))
    if not ok:
        continue
    os.makedirs(d, exist_ok=True)
    diff = sh('git -C %s diff' % R).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    for n, t in s['files'].items():
        open(os.path.join(d, n), 'w').write(t)
        os.chmod(os.path.join(d, n), 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    cxx = any(f.endswith(('.cc', '.h', '.def')) for f, _, _ in s['edits'])
    t = tests(cxx)
    bad = sh('bash %s/demo.sh' % d, cwd=R)
    sh('git -C %s checkout -qf .' % R)
    good = sh('bash %s/demo.sh' % d, cwd=R)
    print(sid, 'OK' if not t and bad.returncode and not good.returncode else 'REJECTED',
          'tests: %r' % t if t else '', 'demo with bug: %d' % bad.returncode, 'without: %d' % good.returncode,
          (good.stdout + good.stderr)[-500:] if good.returncode else '', bad.stdout[-200:] if not bad.returncode else '', flush=True)
