import json
import os
import re
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import build, core, iwyurun
from vlib.core import need

# libstdc++: (name, private by its place)
STD = ['vector', 'list', 'exception', 'string', 'bits/stl_vector.h', 'bits/list.tcc', 'bits/exception.h', 'bits/c++config.h', 'bits/stl_algo.h', 'debug/vector', 'debug/formatter.h', 'debug/list', 'ext/pool.h', 'ext/bits/x.h',
       'ext/pb_ds/detail/a/b.hpp', 'ext/pb_ds/assoc.hpp', 'ext/vstring.tcc', 'experimental/chrono', 'experimental/bits/chrono.h', 'backward/backward_warning.h', 'bits/c++0x_warning.h', 'backward/hash.h', 'tr1/bits.h', 'mybits/y.h',
       'bits', 'ext/debug/z.h', 'x/detail/w.h', 'bits/deep/v.h', 'pstl/glue.h', 'tcc', 'bits/hashtable.h', 'parallel/algo.h']
QTMOD = ['QtCore', 'QtGui', 'QtXml']
QTCLS = ['QHash', 'QBrush', 'QObject', 'QString', 'QPath', 'QList', 'Qt', 'QInternal', 'QtGlobal', 'qfoo', 'QMap.', 'Qhh', 'QtMath']
CPY = ['Python.h', 'abstract.h', 'object.h', 'pyport.h', 'cpython/object.h', 'internal/pycore_x.h', 'patchlevel.h', 'a-b.h', 'x.y.h']
APPLE = ['stdio.h', '_stdio.h', 'xlocale/_stdio.h', '__stdio.h', 'secure/_stdio.h', 'machine/limits.h', 'limits.h', 'i386/limits.h', 'arm/limits.h', 'arm64/limits.h', 'arm/_limits.h', 'i386/_types.h',
         'machine/_types.h', '_types.h', 'machine/profile.h', 'profile.h', 'arm/profile.h', 'sys/_types/_int.h', 'sys/_types/int.h', 'sys/machine/x.h', 'sys/x.h', 'sys/arm64/x.h', 'xlocale/_ctype.h', '_ctype.h', 'ctype.h', 'xlocale.h',
         'arm64/only.h', '_alone.h', 'xlocale/__wc.h', '__wc.h', 'wc.h', '_.h', 'machine/_x.h', 'i386/y.h', 'notarm/limits.h']
FORMS = ['#include <%s>', '#include "%s"', '# include <%s>', '  #  include\t<%s>', '#include <%s> // for <other> and "more"', '#include<%s>', '#include <%s>  /* "x" */', '#include "%s" // >> and <<']


def std_private(name, text):
    d = os.path.dirname(name)
    return '@headername{' in text or name.endswith('.tcc') or name.startswith(('debug/', 'ext/pb_ds/detail/')) or d == 'bits' or d.endswith('/bits')


def apple(names):
    """Where each header that is not public leads to."""
    out = {}
    for n in names:
        cur = n
        parts = cur.split('/')
        if len(parts) > 1 and parts[-2] == 'xlocale' and '/'.join(parts[:-2] + parts[-1:]) in names:
            cur = '/'.join(parts[:-2] + parts[-1:])
        while cur.split('/')[-1].startswith('_'):
            d, _, b = cur.rpartition('/')
            up = (d + '/' if d else '') + b[1:]
            if up not in names:
                break
            cur = up
        parts = cur.split('/')
        if len(parts) > 1 and parts[-2] in ('arm', 'arm64', 'i386'):
            up = '/'.join(parts[:-2] + ['machine', parts[-1]])
            cur = up if up in names else cur
        parts = cur.split('/')
        if len(parts) > 1 and parts[-2] == 'machine' and parts[-1] != 'profile.h':
            up = '/'.join(parts[:-2] + parts[-1:])
            cur = up if up in names else cur
        if not cur.split('/')[-1].startswith('_') and cur != n:
            out[n] = cur
    return out


class C35(core.Check):
    id = 'C35'
    rule = ('Cases are header trees of up to 14 files for each of the four generators (several roots, include notations, comments, directives, missing headers), created in two '
            'orders; also the installed libstdc++. Non-trivial = at least one mapping is expected.')
    quick = 900
    thorough = 40000

    def prepare(self):
        iwyurun.prepare()

    def fixed(self):
        return [dict(kind='real')]

    def strategy(self):
        n = st.integers(0, 400)
        def files(pool):
            inc = st.tuples(st.integers(0, len(pool) - 1), st.integers(0, len(FORMS) - 1)).map(list)
            f = st.tuples(st.integers(0, len(pool) - 1), st.lists(inc, max_size=4), st.integers(0, 9)).map(list)
            return st.lists(f, min_size=1, max_size=14)
        std = st.builds(lambda f, r: dict(kind='std', files=f, root=r), files(STD), n)
        qt = st.builds(lambda f, r, m: dict(kind='qt', files=f, root=r, mods=m), files(QTCLS), n, st.lists(n, min_size=1, max_size=14))
        cpy = st.builds(lambda f, r: dict(kind='cpy', files=f, root=r), files(CPY), n)
        app = st.builds(lambda f, r: dict(kind='apple', files=[[k, [], 0] for k, _, _ in f] + [[k * 7 % len(APPLE), [], 0] for k, _, _ in f], root=r), files(APPLE), n)
        return st.sampled_from([std, std, qt, cpy, app]).flatmap(lambda s: s)

    def gen(self, script, *args):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, os.path.join(build.REPO, 'mapgen', 'iwyu-mapgen-%s.py' % script)] + list(args), cwd=self.tmp, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
        return p.returncode, p.stdout.decode(), p.stderr.decode()

    def load(self, text, show):
        """The entries of a mapping file, one per line."""
        body = re.sub(r'^#.*\n', '', text)
        out = []
        lines = [l for l in body.split('\n') if l.strip() and not l.strip().startswith('#')]
        need(lines and lines[0] == '[' and lines[-1] == ']', lambda: 'not a list\n' + show(), key='syntax')
        for l in lines[1:-1]:
            try:
                out.append(json.loads(l.strip().rstrip(',')))
            except ValueError:
                raise core.Violation('line %r\n%s' % (l, show()), key='syntax')
        for k, l in enumerate(lines[1:-2]):
            need(l.endswith(','), lambda: 'no comma after %r\n%s' % (l, show()), key='syntax')
        return out

    def trees(self, case, files):
        """The same tree twice, made in different orders."""
        roots = []
        names = sorted(files)
        k = case['root']
        for i in (0, 1):
            root = os.path.join(self.tmp, 't%d' % i, ['in', 'inc 5', 'a[1]', 'python3.8'][k % 4])
            shutil.rmtree(os.path.join(self.tmp, 't%d' % i), ignore_errors=True)
            order = names[k % len(names):] + names[:k % len(names)] if i == 0 else names[::-1]
            iwyurun.write_tree(root, {n: files[n] for n in order})
            roots.append(root)
        return roots

    def accepted(self, text, show):
        """IWYU takes the file without a word."""
        d = os.path.join(self.tmp, 'acc')
        shutil.rmtree(d, ignore_errors=True)
        iwyurun.write_tree(d, {'m.imp': text, 'm.cc': 'int x;\n'})
        r = iwyurun.run(d, ['-Xiwyu', '--mapping_file=m.imp', 'm.cc'])
        need(r.status == 0 and r.text.strip() == '(m.cc has correct #includes/fwd-decls)', lambda: 'IWYU says %d %r\n%s' % (r.status, r.text, show()), key='rejected')

    def execute(self, case):
        return getattr(self, case['kind'])(case)

    def same(self, outs, roots, show):
        a, b = [re.sub(r'^(//|#).*\n', '', o, flags=re.M) for o in outs]
        need(a == b, lambda: 'the order in which the tree was made matters\n%s\n== and\n%s' % (show(), outs[1]), key='order')

    def check_std(self, files, roots, out, cxx, show):
        private = {n for n, t in files.items() if std_private(n, t)}
        named = {n for n in private if '@headername{' in files[n]}
        inc = {n: set(re.findall(r'^[ \t]*#[ \t]*include[ \t]*[<"]([^>"]*)[>"]', t, re.M)) for n, t in files.items()}
        behind = private - named
        pub, priv = {}, set()
        for n, targets in inc.items():
            for t in targets & behind:
                if n in private:
                    priv.add((t, n))
                else:
                    pub.setdefault(t, set()).add(n)
        for t in pub:
            pub[t] = {'bits/exception.h': {'exception'}, 'debug/vector': {'vector'}}.get(t, pub[t])
        want = sorted([('<%s>' % t, 'private', '<%s>' % list(p)[0], 'public') for t, p in pub.items() if len(p) == 1] + [('<%s>' % a, 'private', '<%s>' % b, 'private') for a, b in priv])
        got = sorted(tuple(e['include']) for e in self.load(out, show) if list(e) == ['include'])
        need(got == want, lambda: 'missing %s, not wanted %s\n%s' % ([x for x in want if x not in got], [x for x in got if x not in want or got.count(x) > 1], show()), key='mappings')
        lines = sorted((a, b[1:].lower(), c, d[1:].lower()) for a, b, c, d in re.findall(r'^  \{ "(.*)", (\w+), "(.*)", (\w+) \},$', cxx, re.M))
        need(lines == want and cxx.count('{ "') == len(want) and cxx.rstrip().endswith('};'), lambda: 'the C++ form differs from %s\n%s' % (want, cxx), key='c++ form')
        return want

    def real(self, case):
        roots = [d for d in ('/usr/include/c++/13', '/usr/include/x86_64-linux-gnu/c++/13') if os.path.isdir(d)]
        files = {}
        for root in roots:
            for d, _, names in os.walk(root):
                for f in names:
                    n = os.path.relpath(os.path.join(d, f), root)
                    if n not in ('backward/backward_warning.h', 'bits/c++0x_warning.h'):
                        files[n] = open(os.path.join(d, f)).read()
        (s1, out, err), (s2, cxx, _) = self.gen('libstdcxx', '--lang=imp', *roots), self.gen('libstdcxx', *roots)
        show = lambda: 'the installed libstdc++'
        need(s1 == 0 and s2 == 0, lambda: err, key='status')
        want = self.check_std(files, roots, out, cxx, show)
        self.accepted(out, show)
        return ['real'], len(want) > 100

    def std(self, case):
        files = {}
        for k, incs, x in case['files']:
            text = ''
            if x == 1 and (std_private(STD[k], '') or STD[k] in ('backward/hash.h', 'parallel/algo.h')):
                text += '/** @file %s\n *  Do not use. @headername{vector}\n */\n' % STD[k]
            for i, form in incs:
                if STD[i] not in ('backward/backward_warning.h', 'bits/c++0x_warning.h') and i != k:
                    text += FORMS[form] % STD[i] + '\n'
            if x == 2:
                text += '// #include <bits/stl_vector.h>\nint x; #include "list"\n'
            files[STD[k]] = text
        dirs = {os.path.dirname(n) for n in files}
        files = {n: t for n, t in files.items() if n not in ('bits', 'tcc') or not any(d == n or d.startswith(n + '/') for d in dirs)}
        for e in ('exception', 'vector'):
            files.setdefault(e, '')
        # Part of the tree can lie in a second, target-specific root.
        split = case['root'] % 3 == 0
        r = self.trees(case, files)
        outs, roots = [], []
        for i in (0, 1):
            rs = [r[i]]
            if split:
                other = os.path.join(self.tmp, 't%d' % i, 'target')
                for n in sorted(files)[::3]:
                    os.makedirs(os.path.dirname(os.path.join(other, n)), exist_ok=True)
                    os.rename(os.path.join(r[i], n), os.path.join(other, n))
                if os.path.isdir(other):
                    rs.append(other)
            s, out, err = self.gen('libstdcxx', '--lang=imp', *(['-v'] if case['root'] % 5 == 0 else []), *rs)
            need(s == 0, lambda: 'status %d\n%s\n%s' % (s, err, files), key='status')
            outs.append(out)
            roots.append(rs)
        s, cxx, err = self.gen('libstdcxx', '--lang=c++', *roots[0])
        show = lambda: ''.join('== %s\n%s' % kv for kv in sorted(files.items())) + '== mapping\n' + outs[0]
        self.same(outs, r, show)
        want = self.check_std({n: t for n, t in files.items() if n not in ('backward/backward_warning.h', 'bits/c++0x_warning.h')}, roots, outs[0], cxx, show)
        self.accepted(outs[0], show)
        return ['std'], bool(want)

    def qt(self, case):
        files, classes, lower = {}, [], set()
        for j, (k, incs, x) in enumerate(case['files']):
            mod = QTMOD[case['mods'][j % len(case['mods'])] % 3]
            cls = QTCLS[k] if x != 9 else mod
            text = ''
            hs = []
            for i, form in [[k, x % 2 * 1]] * (x < 8) + incs:
                h = QTCLS[i].lower().rstrip('.')
                if form % 3 != 0:
                    text += '#include "%s.h"\n' % h
                    hs.append(h)
                else:
                    text += '#include <other/%s.h>\n' % h
            name = '%s/%s' % (mod, cls)
            if name in files:
                continue
            files[name] = text
            classes.append((mod, cls, hs))
            for h in hs:
                lower.add((mod, h))
        for mod, h in lower:
            files['%s/%s.h' % (mod, h)] = '#pragma once\nint fn_%s_%s();\n' % (mod, h)
        files.setdefault('QtCore/QtConfig.h', '')
        files['QtGui/private/qdeep_p.h'] = 'int deep();\n'
        files['QtGui/private/QDeep'] = '#include "qdeep_p.h"\n'
        roots = self.trees(case, files)
        outs = []
        for root in roots:
            s, out, err = self.gen('qt', root)
            need(s == 0, lambda: 'status %d\n%s\n%s' % (s, err, sorted(files)), key='status')
            outs.append(out)
        show = lambda: ''.join('== %s\n%s' % kv for kv in sorted(files.items())) + '== mapping\n' + outs[0]
        self.same(outs, roots, show)
        entries = self.load(outs[0], show)
        syms = [tuple(e['symbol']) for e in entries if list(e) == ['symbol']]
        incs = [tuple(e['include']) for e in entries if list(e) == ['include']]
        need(len(syms) + len(incs) == len(entries), lambda: 'odd entries\n' + show(), key='entries')
        for _, cls, hs in classes:
            hit = (cls, 'private', '<%s>' % cls, 'public')
            need((hit in syms) == (cls != 'QInternal'), lambda: 'symbol mapping of %s\n%s' % (cls, show()), key='class')
        known = {cls for _, cls, _ in classes} | {'QtGlobal', 'QObject', 'Qt'}
        for a, v, b, w in syms + incs:
            need(v == 'private' and w == 'public' and b[1:-1] in known and b[0] + b[-1] == '<>' and b != '<QInternal>', lambda: 'the mapping of %s to %s\n%s' % (a, b, show()), key='target')
        # Each header goes to the classes whose headers include it.
        for mod, h in sorted(lower):
            targets = {'<%s>' % c for m, c, hs in classes if m == mod and h in hs and c != 'QInternal'}
            got = set()
            for spelling in ('"%s.h"' % h, '<%s.h>' % h, '<%s/%s.h>' % (mod, h), '"%s/%s.h"' % (mod, h)):
                g = {b for a, _, b, _ in incs if a[0] == '@' and re.fullmatch(a[1:], spelling) and mod in a}
                need(g >= targets, lambda: '%s is mapped to %s, not to %s\n%s' % (spelling, sorted(g), sorted(targets), show()), key='header')
                got |= g
            need(got == targets or h == 'qnamespace', lambda: '%s is mapped to %s, not only to %s\n%s' % (h, sorted(got), sorted(targets), show()), key='header too much')
        # The module header, which includes everything, comes last.
        first = {}
        for k, (a, _, b, _) in enumerate(incs):
            first.setdefault(a, b)
        for mod, h in lower:
            plain = [c for m, c, hs in classes if m == mod and h in hs and c not in (mod, 'QInternal')]
            if plain:
                a = [x for x in first if mod in x and re.fullmatch(x[1:], '"%s.h"' % h)]
                need(a and first[a[0]] != '<%s>' % mod, lambda: '%s goes to its module first\n%s' % (h, show()), key='module first')
        self.accepted(outs[0], show)
        return ['qt'], bool(lower)

    def cpy(self, case):
        files, names = {}, set()
        for k, incs, x in case['files']:
            text = ''
            for i, form in incs:
                line = FORMS[form] % CPY[i]
                text += line + '\n'
            fname = CPY[k] if x < 8 else 'README.txt'
            files[fname] = text
        for n, t in files.items():
            if n.endswith('.h'):
                names |= set(re.findall(r'#\s*include\s+"([^"]*)"', t))
        names.discard('Python.h')
        roots = self.trees(case, files)
        outs = []
        for root in roots:
            s, out, err = self.gen('cpython', root)
            need(s == 0, lambda: 'status %d\n%s\n%s' % (s, err, files), key='status')
            outs.append(out)
        show = lambda: ''.join('== %s\n%s' % kv for kv in sorted(files.items())) + '== mapping\n' + outs[0]
        self.same(outs, roots, show)
        entries = self.load(outs[0], show)
        maps = [tuple(e['include']) for e in entries]
        need(len(set(maps)) == len(maps) == len(names), lambda: '%d mappings for %s\n%s' % (len(maps), sorted(names), show()), key='count')
        for a, v, b, w in maps:
            need((v, b, w) == ('private', '<Python.h>', 'public') and a[0] == '@', lambda: 'the mapping of %s\n%s' % (a, show()), key='target')
        for n in sorted(names):
            for s in ('"%s"' % n, '<%s>' % n):
                need(sum(bool(re.fullmatch(a[1:], s)) for a, _, _, _ in maps) == 1, lambda: '%s is not mapped once\n%s' % (s, show()), key='header')
        for s in ('<Python.h>', '"Python.h"', '"xPython.h"', '"abstractxh"'):
            need(not any(re.fullmatch(a[1:], s) for a, _, _, _ in maps), lambda: '%s is mapped\n%s' % (s, show()), key='header too much')
        self.accepted(outs[0], show)
        return ['cpy'], bool(names)

    def apple(self, case):
        files = {APPLE[k]: '' for k, _, _ in case['files']}
        files.update({'dir/x.hpp': '', 'module.map': ''})
        names = {n for n in files if n.endswith('.h')}
        roots = self.trees(case, files)
        outs = []
        for root in roots:
            s, out, err = self.gen('apple-libc', *(['-v'] if case['root'] % 3 == 0 else []), root)
            need(s == 0, lambda: 'status %d\n%s\n%s' % (s, err, sorted(files)), key='status')
            outs.append(out)
        show = lambda: '%s\n%s' % (sorted(names), outs[0])
        self.same(outs, roots, show)
        got = [tuple(e['include']) for e in self.load(outs[0].replace('\n]', '\n]'), show)]
        want = [('<%s>' % a, 'private', '<%s>' % b, 'public') for a, b in sorted(apple(names).items())]
        need(sorted(got) == sorted(want), lambda: 'missing %s, not wanted %s\n%s' % ([x for x in want if x not in got], [x for x in got if x not in want], show()), key='mappings')
        self.accepted(outs[0], show)
        return ['apple'], bool(want)


if __name__ == '__main__':
    core.run(C35())
