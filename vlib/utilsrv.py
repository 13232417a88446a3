"""Calls helper functions of IWYU in a process of their own (with sanitizers)."""
import os
import subprocess

from vlib import build
from vlib.core import Violation

_server = None
_exe = None
SOURCES = ['iwyu_path_util.cc', 'iwyu_regex.cc']


def prepare():
    global _exe
    _exe = build.util_server(['harness/util_server.cc'], SOURCES)


def hexed(s):
    b = s.encode('latin-1') if isinstance(s, str) else s
    return b.hex() or '-'


def call(op, *args):
    """The results as latin-1 strings; a crash is a violation."""
    global _server
    if _server is None or _server.poll() is not None:
        _server = subprocess.Popen([_exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd='/',
                                   env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='halt_on_error=1', LC_ALL='C'))
    _server.stdin.write((' '.join([op] + [hexed(str(a) if not isinstance(a, (str, bytes)) else a) for a in args]) + '\n').encode())
    _server.stdin.flush()
    line = _server.stdout.readline().decode().split()
    if not line or line[-1] != '.':
        err = _server.stderr.read().decode(errors='replace')
        rc = _server.wait()
        _server = None
        raise Violation('%s%r ended the process (status %s):\n%s' % (op, args, rc, err[-2500:]), key='crash in ' + op)
    return [bytes.fromhex(w).decode('latin-1') if w != '-' else '' for w in line[:-1]]


def flag(op, *args):
    return call(op, *args)[0] == '1'
