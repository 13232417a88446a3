"""Builds include-what-you-use (and harnesses linked with its sources) from
/repo's current working tree.

Every object is cached under a key made of the contents of everything that
goes into it (the source file, all IWYU headers, the flags and the header
shim), so a change in /repo always leads to a rebuild of what it affects, and
an unchanged file is never compiled twice.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
LLVM = '/usr/lib/llvm-20'
CXX = LLVM + '/bin/clang++'
DEFS = ['-DIWYU_GIT_REV="verif"',
        '-DIWYU_RESOURCE_BINARY_PATH="%s/bin/clang-20"' % LLVM,
        '-DIWYU_RESOURCE_DIR=""', '-D__STDC_CONSTANT_MACROS',
        '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS']
FLAGS = ['-fPIC', '-std=c++17', '-fno-exceptions', '-funwind-tables', '-w']
LIBS = ['-Wl,-rpath,%s/lib' % LLVM, LLVM + '/lib/libclang-cpp.so.20.1',
        LLVM + '/lib/libLLVM.so.1']


class BuildError(Exception):
    pass


def _read(path):
    with open(path, 'rb') as f:
        return f.read()


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(b'%d:' % len(p))
        h.update(p)
    return h.hexdigest()[:24]


def _repo_files(suffix):
    return sorted(f for f in os.listdir(REPO)
                  if f.endswith(suffix) and os.path.isfile(os.path.join(REPO, f)))


def _run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError('%s failed:\n%s' % (what, p.stdout.decode(errors='replace')[-4000:]))


class _Lock:
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def _shim():
    gen = os.path.join(VERIF, 'build_support', 'mkshim.py')
    out = os.path.join(CACHE, 'shim-' + _hash(_read(gen)))
    if not os.path.exists(os.path.join(out, '.done')):
        tmp = tempfile.mkdtemp(dir=CACHE)
        _run([sys.executable, gen, tmp], 'mkshim')
        open(os.path.join(tmp, '.done'), 'w').close()
        if os.path.exists(out):
            shutil.rmtree(out)
        os.rename(tmp, out)
    return out


def _headers_key():
    parts = []
    for h in _repo_files('.h'):
        parts += [h, _read(os.path.join(REPO, h))]
    return _hash(*parts)


def _object(src, key_extra, flags, shim):
    """Compile src (absolute path); return the object path."""
    text = _read(src)
    key = _hash(text, os.path.basename(src), key_extra, ' '.join(flags), shim)
    obj = os.path.join(CACHE, 'obj', os.path.basename(src) + '-' + key + '.o')
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + '.%d.tmp' % os.getpid()
    _run([CXX] + DEFS + ['-I' + shim, '-isystem', LLVM + '/include', '-I' + REPO] + FLAGS +
         flags + ['-c', src, '-o', tmp], 'compiling ' + src)
    os.rename(tmp, obj)
    return obj


def _prune(d, keep):
    try:
        ents = [os.path.join(d, e) for e in os.listdir(d)]
    except OSError:
        return
    ents.sort(key=lambda p: os.stat(p).st_mtime, reverse=True)
    for p in ents[keep:]:
        try:
            os.unlink(p)
        except OSError:
            pass


def _link(name, objs, extra):
    key = _hash(name, *[os.path.basename(o) for o in objs], ' '.join(extra))
    out = os.path.join(CACHE, 'bin', name + '-' + key)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        _run([CXX] + objs + extra + ['-o', tmp] + LIBS, 'linking ' + name)
        os.rename(tmp, out)
    else:
        os.utime(out)
    return out


def iwyu(opt='-O0'):
    """Return the path of an include-what-you-use built from REPO."""
    with _Lock():
        shim = _shim()
        hk = _headers_key()
        srcs = [os.path.join(REPO, f) for f in _repo_files('.cc') if f.startswith('iwyu')]
        order = {'iwyu.cc': 0, 'iwyu_ast_util.cc': 1}
        srcs.sort(key=lambda s: order.get(os.path.basename(s), 2))
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda s: _object(s, hk, [opt], shim), srcs))
        out = _link('include-what-you-use', sorted(objs), [])
        _prune(os.path.join(CACHE, 'obj'), 80)
        _prune(os.path.join(CACHE, 'bin'), 8)
        return out


def harness(name, sources, repo_sources, flags=('-O1', '-g'), exclude_main=True):
    """Build a harness from /verif sources plus REPO .cc files."""
    with _Lock():
        shim = _shim()
        hk = _headers_key()
        flags = list(flags)
        jobs = [(os.path.join(VERIF, s), flags) for s in sources]
        jobs += [(os.path.join(REPO, s), flags) for s in repo_sources]
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda j: _object(j[0], hk, j[1], shim), jobs))
        link = [f for f in flags if f.startswith('-fsanitize')]
        out = _link(name, objs, link)
        _prune(os.path.join(CACHE, 'obj'), 80)
        _prune(os.path.join(CACHE, 'bin'), 8)
        return out


def util_server(sources, repo_sources):
    """A harness of plain functions, built by g++ with sanitizers."""
    with _Lock():
        files = [os.path.join(VERIF, s) for s in sources] + [os.path.join(REPO, s) for s in repo_sources]
        key = _hash(_headers_key(), *[_read(f) for f in files])
        out = os.path.join(CACHE, 'bin', 'util-server-' + key)
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = tempfile.mkdtemp(dir=CACHE)
            flags = ['-std=c++17', '-O1', '-w', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize=vptr',
                     '-fno-sanitize-recover=all', '-isystem', LLVM + '/include', '-I' + REPO]

            def one(f):
                obj = os.path.join(tmp, os.path.basename(f) + '.o')
                _run(['g++'] + DEFS + flags + ['-c', f, '-o', obj], 'compiling ' + f)
                return obj
            try:
                with ThreadPoolExecutor(8) as ex:
                    objs = list(ex.map(one, files))
                _run(['g++', '-fsanitize=address,undefined'] + objs + ['-o', os.path.join(tmp, 'out')] + LIBS, 'linking the harness')
                os.rename(os.path.join(tmp, 'out'), out)
            finally:
                shutil.rmtree(tmp)
        return out


if __name__ == '__main__':
    t = time.time()
    print(iwyu(), '%.1fs' % (time.time() - t))
