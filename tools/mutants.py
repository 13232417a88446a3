#!/usr/bin/env python3
"""Sensitivity: run checks against small semantic changes in scratch copies.

python3 tools/mutants.py FILE.py [-jN] [CHECK...]  -- FILE defines M = [(repo file, old, new, [checks])]
"""
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
jobs = [int(a[2:]) for a in sys.argv[2:] if a.startswith('-j')] or [2]
only = [a for a in sys.argv[2:] if not a.startswith('-')]
score = {'caught': 0, 'total': 0}
todo = queue.Queue()
for i, m in enumerate(ns['M']):
    todo.put((i, m))


def work(n):
    cache = '/tmp/mutcache%d' % n
    if not os.path.isdir(cache):
        subprocess.call(['cp', '-a', os.path.join(V, '.cache'), cache])
    while True:
        try:
            i, (f, old, new, checks) = todo.get_nowait()
        except queue.Empty:
            return
        checks = [c for c in checks if not only or c in only]
        if not checks:
            continue
        src = open(os.path.join('/repo', f)).read()
        if src.count(old) != 1:
            print(i, 'BAD', src.count(old), repr(old)[:80], flush=True)
            continue
        d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
        r = os.path.join(d, 'repo')
        subprocess.check_call(['bash', '-c', 'mkdir %s; cd /repo; tar c --exclude=.git --exclude=_build . | tar x -C %s' % (r, r)])
        open(os.path.join(r, f), 'w').write(src.replace(old, new))
        res = []
        env = dict(os.environ, VERIF_REPO=r, VERIF_CACHE=cache)
        if f.endswith(('.cc', '.h')):
            p = subprocess.run(['python3', 'tools/seedbuild.py'], cwd=V, env=env, capture_output=True, text=True)
            if p.returncode:
                print(i, 'DOES NOT BUILD', p.stderr[-1500:], flush=True)
                shutil.rmtree(d)
                continue
        hit = False
        for c in checks:
            if hit:
                break
            score['total'] += 1
            p = subprocess.run(['python3-vt', 'checks/%s.py' % c.lower()], cwd=V, env=env, capture_output=True, text=True)
            hit = p.returncode == 1 and 'VIOLATION' in p.stdout
            score['caught'] += hit
            res.append('%s:%s' % (c, 'caught' if hit else ('MISSED' if p.returncode == 0 else 'rc=%d %s' % (p.returncode, p.stderr[-300:]))))
        print(i, ' '.join(res), '|', f, repr(old)[:90], '->', repr(new)[:90], flush=True)
        shutil.rmtree(d)


ts = [threading.Thread(target=work, args=(n,)) for n in range(jobs[0])]
[t.start() for t in ts]
[t.join() for t in ts]
print(score['caught'], 'of', score['total'])
