import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, corpus, cxxgen, iwyurun, simple
from vlib.core import need

# (path, spelling); those in internal directories are private without a pragma.
SPOTS = simple.SPOTS + [('lib/internal/h%d.h', '"lib/internal/h%d.h"'), ('lib/internal/in/h%d.h', '"lib/internal/in/h%d.h"'), ('internal/h%d.h', '"internal/h%d.h"'),
                        ('inc/c++x/internal/h%d.h', '"c++x/internal/h%d.h"'), ('lib/h%d.h', '"lib/h%d.h"'), ('lib/my_internal/h%d.h', '"lib/my_internal/h%d.h"'),
                        ('lib/internals/h%d.h', '"lib/internals/h%d.h"'), ('sys/asm-generic/h%d.h', '<asm-generic/h%d.h>'), ('sys/pre/internal/h%d', '<pre/internal/h%d>')]
EXPORT = ['  // IWYU pragma: export', ' /* IWYU pragma: export */', '  // IWYU pragma: export  // all of it', '// IWYU pragma: export']
LOOKS = ['  // iwyu pragma: export', '  // IWYU prgama: export', '  // export', '  // IWYU: export', '  //IWYU pragma: export', '']
BEGIN = ['// IWYU pragma: begin_exports', '/* IWYU pragma: begin_exports */', '  // IWYU pragma: begin_exports']
END = ['// IWYU pragma: end_exports', '/* IWYU pragma: end_exports */']
KEEP = '  // IWYU pragma: keep'
PRAGMA = ['// IWYU pragma: %s', '/* IWYU pragma: %s */', '  // IWYU pragma: %s', '// IWYU pragma: %s  // for a reason', '/* IWYU pragma: %s */ int z@;']
WRONG = ['// iwyu pragma: %s', '// IWYU prgama: %s', '// See IWYU pragma: %s', '//IWYU pragma: %s', '// IWYU: %s', 'static const char* const z@ = "// IWYU pragma: %s";',
         '/* IWYU pragma:%s */', '// IWYU pragma:%s', '/*IWYU pragma: %s */', '/* iwyu pragma: %s */', '/** IWYU pragma: %s */', '/// IWYU pragma: %s']
FRIENDS = ['m\\.cc', 'm\\.h', 'm.*', '.*', 'nobody', '"m\\.cc"', '".*m.*"', 'm', 'm\\.cc|m\\.h', 'x|m\\.h', '<.*>', '[a-m]\\.cc', '(lib/)?m\\.(cc|h)', 'xm\\.cc', 'm\\.cc2']
NOWHERE = ['"facade/q0.h"', '<q1>', '<facade/q2.h>', '"m.h"', '"lib/m.h"', '"m.cc"', '"c++x/m.h"']
# Where the main file and its header are, and what names start with there.
HOMES = [('', '')] * 4 + [('lib/', 'lib/'), ('inc/c++x/', 'c++x/')]


def friends(regex, quoted):
    if regex[0] not in '"<':
        regex = '"(' + regex + ')"'
    return re.fullmatch(regex, quoted) is not None


class Unit:
    pass


class C25(core.Check):
    id = 'C25'
    rule = ('Cases are (1) include graphs of up to 7 headers, each public, private with or without a named public header (among the headers or elsewhere), in an internal '
            'directory or not, with friends, exporting some of its includes line by line or in ranges (or nearly so), used by a main file and mostly its own header, which '
            'include and export some of them; and (2) edited samples about these pragmas. Non-trivial = a used header has another public name.')
    quick = 2400
    thorough = 60000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        n = st.integers(0, 60)
        mark = st.sampled_from(['', '', 'export', 'export', 'look', 'begin', 'end', 'keep'])
        inc = st.lists(st.tuples(n, mark, n).map(list), max_size=4)
        head = st.builds(lambda s, p, t, f, h, a, i: dict(spot=s, private=p, target=t, friend=f, how=h, after=a, inc=i),
                         st.sampled_from(list(range(8)) * 2 + list(range(8, len(SPOTS)))), st.sampled_from(['', '', '', 'plain', 'include', 'include', 'wrong']), n,
                         st.sampled_from([None] * 3 + list(range(len(FRIENDS)))), n, st.booleans(), inc)
        unit = st.builds(lambda i, u, a: dict(inc=i, uses=u, at=a), inc, st.lists(st.tuples(n, st.sampled_from('ffc')).map(list), min_size=1, max_size=5), n)
        gen = st.builds(lambda h, m, a, d: dict(heads=h, main=m, assoc=a, home=d), st.lists(head, min_size=2, max_size=7), unit, st.one_of(unit, st.none()), st.integers(0, len(HOMES) - 1))
        smp = corpus.cases(['*export*', '*private*', '*friend*', 'internal*', 'pragma*', 're_*', '*headername*', '*facade*', '*public*', 'intends*', 'badinc-extradef'], exclude=corpus.SLOW)
        return st.sampled_from([gen] * 7 + [smp]).flatmap(lambda s: s)

    def execute(self, case):
        if 'sample' in case:
            return corpus.perform(self, case)
        heads = []
        place, home = HOMES[case['home'] % len(HOMES)]
        for k, c in enumerate(case['heads']):
            h = simple.Head(k, 0)
            path, sp = SPOTS[c['spot'] % len(SPOTS)]
            h.path, h.spelling = path % k, sp % k
            heads.append(h)
        n = len(heads)
        edges, private_names, private_paths, friend = {}, set(), set(), {}
        names = [h.spelling for h in heads] + NOWHERE

        def include_lines(specs, allowed, out):
            """Lines with marks, and [(k, exported, kept)]."""
            res, inside = [], False
            for k, mark, how in specs:
                if not allowed:
                    break
                k = allowed[k % len(allowed)]
                if k in [x[0] for x in res]:
                    continue
                if mark == 'begin' and not inside:
                    out.append(BEGIN[how % len(BEGIN)])
                    inside = True
                elif mark == 'end' and inside:
                    out.append(END[how % len(END)])
                    inside = False
                tail = {'export': EXPORT[how % len(EXPORT)], 'look': LOOKS[how % len(LOOKS)], 'keep': KEEP}.get(mark, '') if not inside else ''
                out.append('#include %s%s' % (heads[k].spelling, tail))
                res.append((k, mark == 'export' or inside, mark == 'keep' and not inside))
            if inside:
                out.append(END[0])
            return res

        def pragma(how, text, num):
            return (PRAGMA[how % len(PRAGMA)] % text).replace('@', str(num))
        texts, incs, pre = {}, {}, {}
        for k, (h, c) in enumerate(zip(heads, case['heads'])):
            lines, notes = [], []
            incs[k] = include_lines(c['inc'], list(range(k)), lines)
            how = c['how']
            h.named = None
            if c['private'] == 'plain':
                notes.append(pragma(how, 'private', k))
            elif c['private'] == 'include':
                h.named = names[c['target'] % len(names)]
                # Nobody names a header that is to be private itself, unless that names a public one.
                t = c['target'] % len(names)
                if t < n and (case['heads'][t]['private'] == 'plain' or t == k):
                    h.named = NOWHERE[how % len(NOWHERE)]
                notes.append(pragma(how, 'private, include ' + h.named, k))
            elif c['private'] == 'wrong':
                notes.append((WRONG[how % len(WRONG)] % ['private', 'private, include "facade/q0.h"'][how // 7 % 2].replace('"', "'" if how % len(WRONG) == 5 else '"')).replace('@', str(k)))
            if c['friend'] is not None:
                notes.insert(how % 2 if notes else 0, pragma(how // 3 if how // 3 % len(PRAGMA) != 4 else 0, 'friend ' + FRIENDS[c['friend']], 'f%d' % k))
            h.lines = lines
            pre[k] = not c['after']
            body = ['int f%d();' % k, 'struct C%d { int x; };' % k]
            texts[h.path] = '\n'.join(['#ifndef G%d_' % k, '#define G%d_' % k] + (notes + lines if pre[k] else lines + notes) + body + ['#endif']) + '\n'
            h.private = c['private']
            if c['friend'] is not None:
                friend.setdefault(k, []).append(FRIENDS[c['friend']])
        every = list(range(n))
        texts['all.h'] = '#pragma once\n' + ''.join('#include %s\n' % h.spelling for h in heads)
        units = []
        for name, spec in [('m.h', case['assoc']), ('m.cc', case['main'])]:
            if spec is None:
                continue
            u = Unit()
            u.name, u.quoted = place + name, '"%s%s"' % (home, name)
            lines = []
            u.inc = include_lines(spec['inc'], every, lines)
            u.first = spec['at'] % 2
            lines = ['#include "all.h"'] + lines if u.first else lines + ['#include "all.h"']
            u.uses = list(dict.fromkeys((k % n, how) for k, how in spec['uses']))
            body = ['inline int u%d_%s() { return f%d(); }' % (k, name[-1], k) if how == 'f' else 'inline int v%d_%s() { return sizeof(C%d); }' % (k, name[-1], k) for k, how in u.uses]
            top = ['#pragma once'] if name == 'm.h' else ['#include "%sm.h"' % home] if case['assoc'] else []
            texts[u.name] = '\n'.join(top + lines + body) + '\n'
            units.append(u)

        # What the preprocessor sees, in order.
        def arrow(a, b):
            edges.setdefault(a, []).append(b)
        seen = set()

        def included(k, by, exported, kept):
            name = heads[k].spelling
            m = re.match(r'(["<].*/)internal/', name)
            if m:
                private_names.add(name)
                friend.setdefault(k, []).append(re.escape(m.group(1)) + '.*')
                arrow(name, by)
            if name.startswith('<asm-'):
                private_names.add(name)
                arrow(name, '<asm/' + name.split('/', 1)[1])
            if exported and not kept:
                arrow(name, by)

        def visit(k):
            if k in seen:
                return
            seen.add(k)
            h = heads[k]

            def notes():
                if h.private == 'include':
                    arrow(h.spelling, h.named)
                    private_names.add(h.spelling)
                elif h.private == 'plain':
                    private_paths.add(k)
            if pre[k]:
                notes()
            for j, ex, kp in incs[k]:
                included(j, h.spelling, ex, kp)
                visit(j)
            if not pre[k]:
                notes()
        done_all = [False]

        def all_h(by):
            if not done_all[0]:
                done_all[0] = True
                for j in every:
                    included(j, '"all.h"', False, False)
                    visit(j)

        for u in ([units[0], units[-1]] if case['assoc'] else units):
            me = u.quoted
            if u.first:
                all_h(me)
            for j, ex, kp in u.inc:
                included(j, me, ex, kp)
                visit(j)
            if not u.first:
                all_h(me)

        def closure(name):
            out, todo = [], list(reversed(edges.get(name, [])))
            while todo:
                x = todo.pop()
                if x not in out:
                    out.append(x)
                    todo += reversed(edges.get(x, []))
            return out

        num = {h.spelling: h.num for h in heads}
        # A name in a private pragma stands for no path.
        by_pragma = {h.named for h in heads if h.private == 'include'}

        def public(name):
            return name not in private_names and num.get(name) not in private_paths
        warned = set()

        def candidates(k, by):
            me = by
            if any(friends(r, me) for r in friend.get(k, [])):
                return [heads[k].spelling]
            c = [x for x in closure(heads[k].spelling) if public(x)]
            if not c and not public(heads[k].spelling):
                warned.add(heads[k].path)
            if not c or public(heads[k].spelling):
                c = [heads[k].spelling] + c
            return c
        reports, r, other = self.analyse(texts, units[-1].name)
        show = lambda: simple.show(texts, r)
        need(set(reports) == {u.name for u in units}, lambda: 'reports on %r\n%s' % (list(reports), show()), key='wrong files')
        adesired, moved, lost = set(), False, []
        for u in units:
            me = u.quoted
            own = {units[0].quoted} if u is not units[0] else set()
            direct = {heads[k].spelling for k, _, _ in u.inc} | {'"all.h"'} | own
            desired = set(own)
            for k, ex, kp in u.inc:
                if ex or kp or me in closure(heads[k].spelling):
                    desired.add(heads[k].spelling)
            if me in closure('"all.h"'):
                desired.add('"all.h"')
            order = [(k, candidates(k, me)) for k, _ in u.uses]
            moved = moved or any(c != [heads[k].spelling] for k, c in order)
            left = []
            for k, c in order:
                if me in c and heads[k].spelling in direct:
                    desired.add(heads[k].spelling)
                elif len(c) == 1:
                    desired.add(c[0])
                else:
                    left.append(c)
            cover = []
            for c in left:
                if me in c:
                    continue
                for ok in (lambda x: x in adesired, lambda x: x in direct and x in desired, lambda x: x in desired, lambda x: x in direct):
                    hit = [x for x in c if ok(x)]
                    if hit:
                        desired.add(hit[0])
                        break
                else:
                    cover.append(c)
            while cover:
                count = {}
                for c in cover:
                    for x in set(c):
                        count[x] = (count.get(x, (0, 0))[0] + c.count(x), count.get(x, (0, 0))[1] + c.count(c[0]) * (x == c[0]))
                best = max(count.values())
                x = min(x for x in count if count[x] == best)
                desired.add(x)
                cover = [c for c in cover if x not in c]
            desired.discard(me)
            desired = {x for x in desired if not x.endswith('.cc"')}
            want = {x for x in desired if x in direct or x not in adesired}
            rep = reports[u.name]
            w_add, w_rem = want - direct, direct - want
            if rep.correct:
                need(not w_add and not w_rem, lambda: '%s is called correct; should add %s, remove %s\n%s' % (u.name, sorted(w_add), sorted(w_rem), show()), key='correct')
            else:
                got = tuple({x[0].replace('#include ', '') for x in l} for l in (rep.add, rep.remove, rep.full))
                for name, g, w in zip(('additions', 'removals', 'full list'), got, (w_add, w_rem, want)):
                    need(g == w, lambda: 'wrong %s on %s: unexpected %s, missing %s\n%s' % (name, u.name, sorted(g - w), sorted(w - g), show()), key=name)
            # What the file itself is to provide has to reach it.
            left = {num[x] for x in want if x in num} | {num[x] for x in adesired if x in num}
            while True:
                more = left | {j for k in left for j, _, _ in incs[k]}
                if more == left:
                    break
                left = more
            for k, c in order:
                if me in c and k not in left and not any(x in NOWHERE for x in want):
                    lost.append((u.name, heads[k].spelling))
            adesired = desired
        got = {re.sub(r'^Warning: No public header found to replace the private header (?:\./)?', '', l) for l in other}
        need(got == warned, lambda: 'warnings about %s, not %s\n%s' % (sorted(got), sorted(warned), show()), key='warnings')
        need(not lost, lambda: 'nothing is left that provides %s\n%s' % (lost, show()), key='a facade loses its private header')
        return ['assoc' if case['assoc'] else 'single', 'moved' if moved else 'plain'] + (['warned'] if warned else []), moved

    def analyse(self, files, main):
        root = os.path.join(self.tmp, 'p')
        import shutil
        shutil.rmtree(root, ignore_errors=True)
        iwyurun.write_tree(root, files)
        r = iwyurun.run(root, ['-w'] + simple.FLAGS + [main])
        try:
            reports, other = iwyurun.parse(r.stderr)
        except iwyurun.Garbled as e:
            raise core.Violation('the report is garbled (%s):\n%s' % (e, r.text), key='garbled report')
        need(r.status == 0 and not r.stdout, lambda: 'IWYU fails (status %d)\n%s' % (r.status, simple.show(files, r)), key='fails')
        return reports, r, other


if __name__ == '__main__':
    core.run(C25())
