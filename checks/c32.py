import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, cxxgen, iwyurun, simple, utilsrv
from vlib.core import need

SOURCE = ['.c', '.C', '.cc', '.CC', '.cxx', '.CXX', '.cpp', '.CPP', '.c++', '.C++', '.cp']
HEADER = ['.h', '.H', '.hpp', '.hxx', '.hh', '.inl']
SPECIAL = ['<built-in>', '<command line>', '<scratch space>', '<inline asm>']
# Directories of the generated trees.
DIRS = ['', 'a', 'a/b', 'a/b/c', 'ab', 'd', 'd/a', 'd/include', 'src', 'src/x']


def normal(p):
    """The path without '.', '..' (where there is something to take back) and repeated slashes."""
    absolute = p.startswith('/')
    out = []
    for seg in p.split('/'):
        if seg in ('', '.'):
            continue
        if seg == '..' and out and out[-1] != '..':
            out.pop()
        elif seg == '..' and absolute:
            pass
        else:
            out.append(seg)
    return '/' * absolute + '/'.join(out)


def as_dir(p):
    p = normal(p)
    return p + '/' if p and not p.endswith('/') else p


def canonical(p):
    if p in SPECIAL or p == '<stdin>':
        return p
    p = normal(p)
    for exts in HEADER, sorted(SOURCE, key=len, reverse=True):
        hit = [e for e in exts if p.endswith(e)]
        if hit:
            p = p[:-len(hit[0])]
            break
    hit = [e for e in ('_unittest', '_regtest', '_test') if p.endswith(e)]
    if hit:
        p = p[:-len(hit[0])]
    elif p.startswith('test_headercompile_'):
        p = p[len('test_headercompile_'):]
    if p.endswith('-inl'):
        p = p[:-4]
    return p.replace('/internal/', '/public/', 1).replace('/include/', '/src/', 1)


def quoted(path, base, dirs):
    """The name under which to include an absolute path: dirs are (absolute directory, is system)."""
    for d, sys_ in sorted(dirs, key=lambda d: -len(d[0])):
        if path.startswith(d):
            return ('<%s>' if sys_ else '"%s"') % path[len(d):]
    if base and path.startswith(base):
        path = path[len(base):]
    return '"%s"' % path


class C32(core.Check):
    id = 'C32'
    rule = ('Cases are (1) up to 10 calls of the path helpers (built with sanitizers) with generated paths against models of their documented meaning; '
            '(2) a tree of nested directories, some given as -I, -isystem, -iquote or -idirafter in several spellings, headers and a source file in them: the name IWYU '
            'advises is the modelled one and names that very file for Clang. Non-trivial = a path changes, or a name is advised.')
    quick = 4000
    thorough = 120000

    def prepare(self):
        utilsrv.prepare()
        iwyurun.prepare()

    def strategy(self):
        n = st.integers(0, 30)
        seg = st.sampled_from(['a', 'b', '..', '.', '', 'x.h', 'c.d', '...', '.h', 'internal', 'include', 'public', 'src', 'a b', '..a', 'foo-inl.h', 'foo_test.cc',
                               'test_headercompile_a.h', 'é', 'a"', '~', 'x.C', 'x.inl', 'y_unittest.cpp'])
        path = st.tuples(st.sampled_from(['', '', '/', './', '../']), st.lists(seg, max_size=6), st.sampled_from(['', '', '/'])).map(
            lambda t: t[0] + '/'.join(t[1]) + t[2])
        any_ = st.text(alphabet=st.characters(min_codepoint=1, max_codepoint=255, exclude_characters='\\'), max_size=12)
        p = st.sampled_from([path] * 8 + [any_, st.sampled_from(SPECIAL + ['<stdin>', '<x>', '"x"', '"', '', '<', '>'])]).flatmap(lambda s: s)
        stem = st.tuples(st.just('stem'), path, st.sampled_from(['foo', 'a.b', 'x_y', 'bar-baz', 'h']), n, n, n, n).map(list)
        dirs = st.lists(st.tuples(path, st.booleans()).map(list), max_size=4)
        conv = st.tuples(st.just('convert'), path, path, dirs, n).map(list)
        plain = st.tuples(st.just('plain'), p, p).map(list)
        calls = st.lists(st.sampled_from([plain, plain, stem, conv, conv]).flatmap(lambda s: s), min_size=1, max_size=10).map(lambda l: dict(calls=l))
        tree = st.builds(lambda d, h, m, a, w: dict(dirs=d, heads=h, main=m, all=a, was=w),
                         st.lists(st.tuples(n, st.sampled_from(['-I', '-I', '-isystem', '-iquote', '-idirafter']), n).map(list), max_size=5),
                         st.lists(st.tuples(n, n, n).map(list), min_size=1, max_size=6), n, n, st.integers(0, 3))
        return st.sampled_from([calls, calls, tree]).flatmap(lambda s: s)

    def execute(self, case):
        if 'calls' in case:
            out = [self.call(c) for c in case['calls']]
            return sorted({c[0] for c in case['calls']}), any(out)
        return self.tree(case)

    def call(self, c):
        def same(op, want, *args):
            got = utilsrv.call(op, *args)
            need(got == want, lambda: '%s%r is %r, not %r' % (op, args, got, want), key=op)
        if c[0] == 'plain':
            _, p, q = c
            p, q = [x.encode('utf-8', 'replace').decode('latin-1') if any(ord(y) > 255 for y in x) else x for x in (p, q)]
            net = p.startswith('//') and not p.startswith('///')
            is_quoted = len(p) > 1 and (p[0] == '<' and p[-1] == '>' or p[0] == p[-1] == '"')
            same('IsQuotedInclude', ['01'[is_quoted]], p)
            same('IsSpecialFilename', ['01'[p in SPECIAL]], p)
            same('AddQuotes', ['"%s"' % p], p, '0')
            same('AddQuotes', ['<%s>' % p], p, '1')
            same('Basename', [p[p.rfind('/') + 1:]], p)
            bare = p[:-1] if p[-1:] in ('"', '>') else p
            same('IsHeaderFile', ['01'[not any(bare.endswith(e) for e in SOURCE)]], p)
            if net:
                # A network path for LLVM.
                return False
            same('IsAbsolutePath', ['01'[p.startswith('/')]], p)
            same('NormalizeFilePath', [normal(p)], p)
            same('NormalizeFilePath', [normal(p)], normal(p))
            same('NormalizeDirPath', [as_dir(p)], p)
            if p:
                same('MakeAbsolutePath', [p if p.startswith('/') else '/' + p], p)
            if not is_quoted or p in SPECIAL + ['<stdin>']:
                same('GetCanonicalName', [canonical(p)], p)
            base = '/' + normal(q).lstrip('/')
            if p:
                got = utilsrv.call('MakeAbsolutePath2', base, p)[0]
                need(normal(got) == normal(base + '/' + p), lambda: 'MakeAbsolutePath(%r, %r) is %r' % (base, p, got), key='MakeAbsolutePath2')
            if normal(p) and normal(p) != '/' and not normal(p).endswith('..'):
                parent = normal(p).rpartition('/')[0]
                same('GetParentPath', [parent or '/' * p.startswith('/')], normal(p))
            if p.startswith('/') == q.startswith('/') and not q.startswith('//'):
                hit = p.startswith(q)
                same('StripPathPrefix', ['01'[hit], p[len(q):] if hit else p], p, q)
            return normal(p) != p
        if c[0] == 'stem':
            # All that goes with one stem has one canonical name.
            _, d, stem, e1, e2, s1, s2 = c
            d = normal(d).lstrip('/').replace('test_headercompile_', '')
            exts = HEADER + SOURCE
            end = ['', '_test', '_unittest', '_regtest', '-inl', '-inl_test']
            names = [(d + '/' if d else '') + stem + end[s % len(end)] + exts[e % len(exts)] for e, s in ((e1, s1), (e2, s2))]
            got = [utilsrv.call('GetCanonicalName', x)[0] for x in names]
            need(got[0] == got[1] == canonical(names[0]), lambda: 'canonical names of %r are %r' % (names, got), key='stem')
            return True
        _, p, base, dirs, k = c
        base = '/' + normal(base).lstrip('./')
        full = []
        for d, s in dirs:
            d = as_dir('/' + d.lstrip('/'))
            if d not in [x for x, _ in full]:
                full.append((d, s))
        full.sort(key=lambda x: -len(x[0]))
        if p.startswith('//') or not p:
            return False
        if full and k % 3 == 0:
            p = full[k % len(full)][0] + p.lstrip('/')
        elif k % 3 == 1:
            p = base + '/' + p.lstrip('/')
        if p.startswith('//'):
            return False
        path = normal('/' + p.lstrip('/'))
        want = quoted(path, as_dir(base) if k % 2 else '', full)
        same('ConvertToQuotedInclude', [want], p, base if k % 2 else '', *[y for d, s in full for y in (d, '01'[s])])
        return want != '"%s"' % path

    def tree(self, case):
        root = os.path.join(self.tmp, 'p')
        flags, dirs, seen = ['-fno-color-diagnostics', '-std=c++20'], [], {}
        for k, flag, way in case['dirs']:
            d = DIRS[k % len(DIRS)]
            seen.setdefault(d, []).append(flag)
            text = [d or '.', './' + d, d + '/' if d else './', os.path.join(root, d), (d + '/../' + d.split('/')[-1]) if d else '.', (d or '.') + '/.'][way % 6]
            flags += [flag, text] if flag[1] == 'i' or way % 2 else [flag + text]
        for d, fl in seen.items():
            dirs.append((as_dir(os.path.join(root, d)), '-isystem' in fl or '-idirafter' in fl))
        files, heads, used = {}, [], []
        main = os.path.join(DIRS[case['main'] % len(DIRS)], 'm.cc')
        all_ = os.path.join(DIRS[case['all'] % len(DIRS)], 'all.h')
        up = lambda to, at: os.path.relpath(to, os.path.dirname(at) or '.')
        lines = []
        for num, (k, way, use) in enumerate(case['heads']):
            h = simple.Head(num, 0)
            h.path = os.path.join(DIRS[k % len(DIRS)], 'h%d.h' % num)
            files[h.path] = h.text()
            inside = [d for d in dirs if os.path.join(root, h.path).startswith(d[0]) and not (d[1] is False and seen.get(os.path.relpath(d[0], root).replace('.', '')) == ['-iquote'])]
            if way % 3 == 0 and inside:
                d = inside[way % len(inside)]
                name = '<%s>' % os.path.join(root, h.path)[len(d[0]):]
            elif way % 3 == 1:
                name = '"%s"' % os.path.join(root, h.path)
            else:
                name = '"%s"' % up(h.path, all_)
            lines.append('#include %s' % name)
            heads.append((h, use))
        files[all_] = '#pragma once\n' + '\n'.join(lines) + '\n'
        here = ['#include "%s"' % up(all_, main)]
        body, want, have = [], set(), {}
        for h, use in heads:
            base = as_dir(os.path.join(root, os.path.dirname(main)))
            q = quoted(os.path.join(root, h.path), base, dirs)
            if use % 4 == 0:
                # Included under some other name: that name is good enough.
                q = '"%s"' % up(h.path, main)
                have[h.num] = q
                here.append('#include %s' % q)
            elif use % 4 == 1:
                have[h.num] = None
                continue
            body.append('int u%d_ = f%d();' % (h.num, h.num))
            want.add(q)
        files[main] = '\n'.join(here + body) + '\n'
        given = main if case['was'] != 1 else './' + main
        if case['was'] == 2:
            given = os.path.join(root, main)
        reports, r = cxxgen.analyse(self, files, flags, given, root=root)
        show = lambda: 'flags %s\n%s' % (flags, simple.show(files, r))
        need(len(reports) == 1, lambda: 'reports on %s\n%s' % (sorted(reports), show()), key='files')
        (name, rep), = reports.items()
        need(os.path.realpath(os.path.join(root, name)) == os.path.realpath(os.path.join(root, main)), lambda: 'report on %s\n%s' % (name, show()), key='name')
        got = set(rep.full_includes())
        if not rep.correct:
            need(got == want, lambda: 'includes %s, not %s\n%s' % (sorted(got), sorted(want), show()), key='names')
        else:
            need(want == set(x for x in have.values() if x), lambda: 'called correct; should have %s\n%s' % (sorted(want), show()), key='correct')
        # Every name is one by which the compiler finds the header.
        if want and case['was'] != 3:
            with open(os.path.join(root, main), 'w') as f:
                f.write(''.join('#include %s\n' % q for q in sorted(want)) + '\n'.join(body) + '\n')
            p = subprocess.run([cxxgen.CLANG, '-fsyntax-only', '-w', '-H'] + flags + [given], cwd=root, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            need(p.returncode == 0, lambda: 'with the advised names the program does not compile:\n%s\n%s' % (p.stdout.decode(errors='replace'), show()), key='does not compile')
        return ['tree', 'dirs %d' % len(dirs)], bool(want)


if __name__ == '__main__':
    core.run(C32())
