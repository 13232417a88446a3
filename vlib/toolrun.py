"""Runs iwyu_tool.py (as a script, in process) against the recording stand-in."""
import contextlib
import io
import json
import os
import runpy
import shutil
import subprocess
import sys

from vlib import core

_rec = None


def stand_in():
    global _rec
    if _rec is None:
        out = os.path.join(core.scratch_root(), 'rec')
        subprocess.check_call(['gcc', '-O1', '-o', out, os.path.join(core.VERIF, 'harness', 'rec.c')])
        _rec = out
    return _rec


class Run:
    """One run: status, stdout, stderr, exception, log [(cwd, argv)], times."""


class _Out(io.TextIOWrapper):
    pass


def run(check, db, argv, behaviours=(), cwd=None):
    d = os.path.join(check.tmp, 'rec')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for k, script in enumerate(behaviours):
        with open(os.path.join(d, 'b%d' % k), 'wb') as f:
            f.write(script)
    if db is not None:
        with open(os.path.join(d, 'compile_commands.json'), 'w') as f:
            json.dump(db, f)
    os.environ['REC_DIR'] = d
    os.environ['IWYU_BINARY'] = stand_in()
    r = Run()
    r.dir = d
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding='utf-8', newline='', write_through=True)
    err = io.StringIO()
    oldargv, oldcwd = sys.argv, os.getcwd()
    sys.argv = [os.path.join(core.REPO, 'iwyu_tool.py')] + [a.replace('@DB@', d) for a in argv]
    r.exc = None
    r.status = None
    sys.dont_write_bytecode = True
    try:
        os.chdir(cwd or d)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            runpy.run_path(sys.argv[0], run_name='__main__')
            r.status = 0
    except SystemExit as e:
        r.status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except Exception as e:
        r.exc = e
    finally:
        sys.argv = oldargv
        os.chdir(oldcwd)
    r.out, r.err = raw.getvalue(), err.getvalue()
    r.log = []
    r.times = []
    if r.exc is None:
        for n in sorted(os.listdir(d)):
            if n.startswith('log.'):
                parts = open(os.path.join(d, n), 'rb').read().decode('utf-8', 'surrogateescape').split('\0')[:-1]
                r.log.append((parts[0], parts[1:]))
        t = os.path.join(d, 'times')
        if os.path.exists(t):
            for l in open(t):
                k, a, b = l.split()
                r.times.append((k, int(a), int(b)))
    return r
