import fnmatch
import os
import re
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, cxxgen, iwyurun, simple
from vlib.core import need

MAINS = ['foo.cc', 'foo.cc', 'src/foo.cc', 'src/foo.cpp', 'foo_test.cc', 'src/foo_unittest.cxx', 'x/internal/foo.cc', 'x/src/foo.cc', 'x/src/d/foo_regtest.C', 'a[1]/foo.cc', 'a*b/foo.cc',
         'src/foo-inl.cc', 'src/test_headercompile_foo.cc', 'foo', 'src/foo.h', 'foo.bar.cc']
# Headers: (path, how they are found: by name from the root, next to the main file, in a system directory).
HEADS = ['foo.h', 'foo.hpp', 'foo.hh', 'foo.hxx', 'foo.H', 'foo-inl.h', 'foo.inl', 'foo_test.h', 'foo.ipp', 'foo', 'foobar.h', 'barfoo.h', 'bar.h', 'FOO.h', 'foo.bar.h', 'foo_unittest-inl.h',
         'src/foo.h', 'src/bar.h', 'src/foo-inl.h', 'inc/foo.h', 'inc/foo_test.h', 'inc/bar.h', 'inc/deep/foo.h', 'x/public/foo.h', 'x/include/foo.h', 'x/include/d/foo.h', 'x/foo.h', 'x/d/foo.h',
         'a[1]/foo.h', 'a1/foo.h', 'a*b/foo.h', 'azb/foo.h', 'sys/foo.h', 'sys/bar.h', 'sys/d/foo.h', 'other/h[1].h', 'other/h1.h']
GLOBS = ['*', '*.h', 'foo*', '*/foo.h', 'inc/*', 'inc/???.h', 'inc/[ab]*.h', 'inc/[!b]*', './bar.h', 'bar.h', 'src//bar.h', 'sys/*', 'x/*/foo.h', 'x/*', '*bar*', 'INC/*', '*.hpp', 'inc', 'inc/', 'nothing*', 'other/h[1].h', 'x/./foo.h',
         '*/bar.h', '?ar.h', '*.h*', 'foo.h', '**/deep/*', 'other/*.h']


def canonical(path):
    """The name under which a source file and its headers are one unit."""
    for e in ['.h', '.H', '.hpp', '.hxx', '.hh', '.inl', '.c', '.C', '.cc', '.CC', '.cxx', '.CXX', '.cpp', '.CPP', '.c++', '.C++', '.cp']:
        if path.endswith(e):
            path = path[:-len(e)]
            break
    for t in ['_unittest', '_regtest', '_test']:
        if path.endswith(t):
            path = path[:-len(t)]
            break
    else:
        if path.startswith('test_headercompile_'):
            path = path[len('test_headercompile_'):]
    if path.endswith('-inl'):
        path = path[:-4]
    path = path.replace('/internal/', '/public/', 1)
    return path.replace('/include/', '/src/', 1)


class C27(core.Check):
    id = 'C27'
    rule = ('Cases are a main file in one of 15 places, up to 6 of 37 headers in several places (same stem or not, system or not), including and using each other, associated '
            'pragmas, up to 3 --check_also globs, --transitive_includes_only, --pch_in_code, relative or absolute names. Non-trivial = a file other than the main file is '
            'reported on.')
    quick = 1800
    thorough = 80000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        n = st.integers(0, 100)
        mask = st.integers(0, 127)
        inc = st.tuples(st.integers(0, 6), st.sampled_from([0, 0, 0, 0, 1, 2])).map(list)
        use = st.tuples(st.integers(0, 6), st.sampled_from('fc')).map(list)
        head = st.tuples(st.integers(0, len(HEADS) - 1), st.lists(inc, max_size=3), st.lists(use, max_size=3)).map(list)
        return st.builds(lambda m, h, i, u, g, o, a: dict(main=m, heads=h, inc=i, uses=u, globs=g, opts=o, abs=a),
                         st.integers(0, len(MAINS) - 1), st.lists(head, min_size=1, max_size=6), st.lists(inc, min_size=1, max_size=6), st.lists(use, max_size=4),
                         st.lists(st.integers(0, len(GLOBS) - 1), max_size=3), st.lists(st.sampled_from(['t', 't', 'p', 'C']), max_size=2), st.sampled_from([0, 0, 0, 1]))

    def execute(self, case):
        root = os.path.join(self.tmp, 'p')
        shutil.rmtree(root, ignore_errors=True)
        main = MAINS[case['main']]
        heads, seen = [], {main}
        for k, incs, uses in case['heads']:
            if HEADS[k] not in seen:
                seen.add(HEADS[k])
                heads.append((HEADS[k], incs, uses))
        heads = heads or [('bar.h', [], [])]
        n = len(heads)
        system = [p.startswith('sys/') for p, _, _ in heads]
        base = os.path.realpath(root) + '/' if case['abs'] else ''

        def spell(k, includer):
            p = heads[k][0]
            if system[k]:
                return '<%s>' % p[4:]
            # Headers are told apart by their names: those named only in relation
            # to an includer elsewhere count as another name for its source.
            if os.path.dirname(p) == os.path.dirname(includer) == os.path.dirname(main) and (k + len(includer)) % 2:
                return '"%s"' % os.path.basename(p)
            return '"%s"' % p
        # An include by another file's name that is found nearby first means that file.
        paths = {p for p, _, _ in heads} | {main}

        def target(k, includer):
            s = spell(k, includer)
            if s[0] == '"':
                near = os.path.join(os.path.dirname(includer), s[1:-1])
                if near in paths:
                    return near
            elif s[1:-1] in paths:
                return s[1:-1]
            return heads[k][0]
        index = {p: k for k, (p, _, _) in enumerate(heads)}
        includes = {p: [] for p in paths}
        names = {'<%s>' % p[4:] if system[k] else '"%s"' % p: k for k, (p, _, _) in enumerate(heads)}
        for who, incs in [(main, case['inc'])] + [(p, i) for k, (p, i, _) in enumerate(heads) if not system[k]]:
            for k, mark in incs:
                k %= n
                if who != main and k <= index[who]:
                    continue
                t = target(k, who)
                if t != heads[k][0] or any(x[0] == k for x in includes[who]):
                    continue
                # No name stands for two headers.
                if names.setdefault(spell(k, who), k) != k:
                    continue
                includes[who].append((k, mark if who == main else 0))
        # What the preprocessor does.
        report, assoc = {main}, set()
        done, order = [], []
        opts = case['opts']
        second = 'p' in opts
        count = [0]
        usable = {}
        stem = lambda p: canonical(base + p) == canonical(base + main)

        def belongs(k, who):
            if system[k]:
                return False
            p = heads[k][0]
            return stem(p) or (who == main and count[0] == (2 if second else 1) and canonical(os.path.basename(p)) == canonical(os.path.basename(main)))

        def visit(who):
            for k, mark in includes[who]:
                p = heads[k][0]
                if who == main:
                    count[0] += 1
                inside = belongs(k, who)
                if who == main and (inside or mark):
                    assoc.add(k)
                    report.add(p)
                if k not in order:
                    if inside:
                        report.add(p)
                    order.append(k)
                    visit(p)
                    done.append(k)
            usable[who] = list(done)
        visit(main)
        reach = {}
        for k in reversed(range(n)):
            reach[k] = {j for j, _ in includes[heads[k][0]]} | {i for j, _ in includes[heads[k][0]] for i in reach[j]}
        uses = {}
        for who, us in [(main, case['uses'])] + [(heads[k][0], heads[k][2]) for k in order if not system[k]]:
            uses[who] = [(k % n, how) for k, how in us if k % n in usable[who] and heads[k % n][0] != who]
        globs = [GLOBS[k] for k in case['globs']]
        for p in [heads[k][0] for k in order] + [main]:
            if any(fnmatch.fnmatchcase(base + p, os.path.normpath(g)) for g in globs):
                report.add(p)
        files = {}
        for k, (p, _, _) in enumerate(heads):
            files[p] = '#ifndef G%d_\n#define G%d_\n%sint f%d();\nstruct C%d { int x; };\n%s#endif\n' % (
                k, k, ''.join('#include %s\n' % spell(j, p) for j, _ in includes[p]), k, k,
                ''.join('inline int u%d_%d_%d() { return %s; }\n' % (k, i, j, 'f%d()' % j if how == 'f' else 'sizeof(C%d)' % j) for i, (j, how) in enumerate(uses.get(p, []))))
        files[main] = ''.join('%s#include %s%s\n' % ('// IWYU pragma: associated\n' if mark == 2 else '', spell(k, main), ' // IWYU pragma: associated' if mark == 1 else '') for k, mark in includes[main]) \
            + ''.join('int v%d_%d = %s;\n' % (i, j, 'f%d()' % j if how == 'f' else 'sizeof(C%d)' % j) for i, (j, how) in enumerate(uses[main]))
        iwyurun.write_tree(root, files)
        own = ['--check_also=' + g for g in globs] + ['--transitive_includes_only'] * ('t' in opts) + ['--pch_in_code'] * second
        args = [x for o in own for x in ('-Xiwyu', o)] + ['-std=c++20', '-fno-color-diagnostics', '-I' + (base or '.'), '-isystem', base + 'sys', '-xc++', base + main]
        r = iwyurun.run(root, args)
        show = lambda: simple.show(files, r, args)
        need(r.status in (0, 2), lambda: 'status %d\n%s' % (r.status, show()), key='status')
        try:
            reports, other = iwyurun.parse(r.text)
        except iwyurun.Garbled as e:
            raise core.Violation('the report is garbled (%s)\n%s' % (e, show()), key='garbled')
        got = {os.path.normpath(p) for p in reports}
        want = {base + p for p in report}
        need(got == want, lambda: 'reported on: not wanted %s, missing %s\n%s' % (sorted(got - want), sorted(want - got), show()), key='files')
        if 'error:' in r.text:
            raise core.Violation('does not compile\n' + show(), key='harness')
        # The lists, with what associated headers provide and what is not reached.
        if not second and os.path.basename(main) != 'x':
            desired = {}
            for p in sorted(report, key=lambda p: (p == main, p)):
                k = index.get(p)
                if k is not None and system[k]:
                    continue
                used = set()
                for j, how in uses[p]:
                    if k is not None and k in reach[j]:
                        continue
                    if 't' in opts and k is not None and j not in reach[k]:
                        continue
                    used.add(j)
                desired[p] = used
                direct = {j for j, _ in includes[p]}
                if p == main:
                    provided = {j for a in assoc for j in desired.get(heads[a][0], set())}
                    used = {j for j in used if j not in provided or j in direct} | assoc
                rep = reports[[x for x in reports if os.path.normpath(x) == base + p][0]]
                listed = set(rep.full_includes()) if not rep.correct else None
                if rep.correct:
                    need(used == direct, lambda: '%s is said to be correct, but needs %s and includes %s\n%s' % (p, sorted(used), sorted(direct), show()), key='correct')
                    continue
                found = set()
                for line in listed:
                    hits = [j for j in range(n) if line[1:-1] in (heads[j][0], base + heads[j][0]) and not system[j] or line == '<%s>' % heads[j][0][4:] and system[j]]
                    if not hits:
                        near = os.path.normpath(os.path.join(os.path.dirname(p), line[1:-1]))
                        hits = [index[near]] if near in index else []
                    need(hits, lambda: 'an unknown header %s in the list of %s\n%s' % (line, p, show()), key='unknown')
                    # A name next to the includer comes first.
                    near = os.path.normpath(os.path.join(os.path.dirname(p), line[1:-1]))
                    found.add(index[near] if line[0] == '"' and near in index and near in [heads[j][0] for j in direct] and spell(index[near], p) == line else hits[0])
                need(found == used, lambda: '%s: full list has %s, not %s\n%s' % (p, sorted(heads[j][0] for j in found), sorted(heads[j][0] for j in used), show()), key='list')
        return ['%d files' % min(4, len(report)), 'assoc' if assoc else 'plain'], len(report) > 1


if __name__ == '__main__':
    core.run(C27())
