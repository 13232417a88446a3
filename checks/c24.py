import fnmatch
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, corpus, cxxgen, iwyurun, simple
from vlib.core import need

KEEP = ['  // IWYU pragma: keep', ' // IWYU pragma: keep', '/* IWYU pragma: keep */', '\t/* IWYU pragma: keep */  // more',
        '  // IWYU pragma: keep - it is needed', '  // IWYU pragma: keep // for f1', '  /* c */ // IWYU pragma: keep', '  // IWYU pragma: keep  ']
LOOKS = ['  // IWYU prgama: keep', '  // iwyu pragma: keep', '  // pragma: keep', '  // IWYU pragma keep', '  //IWYU pragma: keep', '  // IWYU  pragma: keep',
         '  // IWYU pragma:keep', '  /*IWYU pragma: keep*/', '  // keep', '  // IWYU: keep', '  // for keep', '  // IWYU pragma : keep', '  // IWYU PRAGMA: keep',
         '  // NOLINT(keep)', '']
BEGIN = ['// IWYU pragma: begin_keep', '/* IWYU pragma: begin_keep */', '  // IWYU pragma: begin_keep  // on']
END = ['// IWYU pragma: end_keep', '/* IWYU pragma: end_keep */', '\t// IWYU pragma: end_keep']
STRAY = ['// IWYU pragma: keep', 'const char* s@ = "// IWYU pragma: begin_keep";', 'const char* s@ = "// IWYU pragma: keep";', '// begin_keep', '/* keep */',
         'const char* s@ = "/* IWYU pragma: begin_keep */"; int i@;', '// // IWYU pragma: begin_keep', '// See "IWYU pragma: begin_keep".', '']
GLOBS = [[]] * 4 + [['h0.h'], ['*'], ['sub/*'], ['*1.h'], ['inc/*'], ['*/in/*', 'h1*'], ['sys/*'], ['nothing', '?ys/h[0-2]*'], ['h1.h', 'h2.h'], ['./h0.h', 'sub/h1.h'], ['0.h', 'h'], ['[!s]*']]


class C24(core.Check):
    id = 'C24'
    rule = ('Cases are (1) a source file or its associated header with up to 8 include lines and forward declarations, each plain, marked with a '
            'keep pragma in one of 8 forms, marked with one of 15 look-alikes or inside a begin_keep range, headers with always_keep, and --keep globs; '
            'and (2) edited samples about keep. Non-trivial = something unused is kept and something is removed.')
    quick = 2200
    thorough = 60000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        n = st.integers(0, 60)
        line = st.builds(lambda what, k, mark, how, rng: [what, k, mark, how, rng], st.sampled_from(['inc', 'inc', 'inc', 'fwd']), st.integers(0, 7),
                         st.sampled_from(['', '', 'keep', 'keep', 'look']), n, st.sampled_from(['', '', '', 'begin', 'end', 'stray', 'two']))
        gen = st.builds(lambda s, l, u, a, g, t, c, f: dict(spots=s, lines=l, uses=u, always=a, glob=g, target=t, crlf=c, fwduse=f),
                        st.lists(st.integers(0, 7), min_size=2, max_size=6), st.lists(line, min_size=1, max_size=8),
                        st.lists(st.tuples(st.integers(0, 7), st.sampled_from('fcp')).map(list), max_size=4),
                        st.lists(st.tuples(st.integers(0, 7), st.integers(0, 4)).map(list), max_size=2), st.integers(0, len(GLOBS) - 1),
                        st.sampled_from(['m.cc', 'm.cc', 'm.h']), st.booleans(), st.lists(st.integers(0, 7), max_size=2))
        smp = corpus.cases(['*keep*', 'pragma*', 'comment_pragmas*', 'relative_exported*', 'include_with_using', 'quoted_includes_first', 'pch*', 'prefix*'])
        return st.sampled_from([gen] * 4 + [smp]).flatmap(lambda s: s)

    def execute(self, case):
        if 'sample' in case:
            return corpus.perform(self, case)
        heads = [simple.Head(k, s) for k, s in enumerate(case['spots'])]
        n = len(heads)
        always = set()
        for k, how in case['always']:
            h = heads[k % n]
            line = ['// IWYU pragma: always_keep', '/* IWYU pragma: always_keep */', '  // IWYU pragma: always_keep  // because',
                    '// iwyu pragma: always_keep', '// See IWYU pragma: always_keep.'][how]
            (h.post if k % 2 else h.pre).append(line)
            if how < 3:
                always.add(h.num)
        # "all.h" reaches everything and is plain
        files = {h.path: h.text() for h in heads}
        files['all.h'] = '#pragma once\n' + ''.join('#include %s\n' % h.spelling for h in heads)
        text, inside, kept, fwds, seen, places = [], False, {}, {}, {}, {}
        first = 2 if case['target'] == 'm.h' else 1
        fwduse = {'X%d' % (k % 8) for k in case['fwduse']}
        opts = ['--keep=' + g for g in GLOBS[case['glob']]]

        def globbed(path):
            return any(fnmatch.fnmatchcase(path, g[2:] if g.startswith('./') else g) for g in GLOBS[case['glob']])
        for what, k, mark, how, rng in case['lines']:
            key = (what, k % n if what == 'inc' else k)
            if key in seen and (rng != 'two' or seen[key] == 2):
                continue
            seen[key] = seen.get(key, 0) + 1
            if rng == 'begin' and not inside:
                text.append(BEGIN[how % len(BEGIN)])
                inside = True
            elif rng == 'end' and inside:
                text.append(END[how % len(END)])
                inside = False
            elif rng == 'stray' and not inside:
                text.append(STRAY[how % len(STRAY)].replace('@', str(len(text))))
            tail = '' if inside and mark == 'keep' else KEEP[how % len(KEEP)] if mark == 'keep' else LOOKS[how % len(LOOKS)] if mark == 'look' else ''
            protected = inside or mark == 'keep'
            if what == 'inc':
                h = heads[k % n]
                text.append('#include %s%s' % (h.spelling, tail))
                protected = protected or h.num in always or globbed(h.path)
                kept[h.num] = kept.get(h.num, False) or protected
                places.setdefault('#include ' + h.spelling, []).append((len(text) + first - 1, protected))
            else:
                # only the last line of a declaration can have its comment
                over = how % 3 == 1
                text += ['class', '  X%d;%s' % (k, tail)] if over else ['class X%d;%s' % (k, tail)]
                x = 'X%d' % k
                fwds[x] = fwds.get(x, False) or protected
                places.setdefault('class %s;' % x, []).append((len(text) - over + first - 1, protected))
        if inside:
            text.append(END[0])
        target = case['target']
        gone_all = '#include "all.h"'
        text.append(gone_all)
        all_kept = globbed('all.h')
        want = {}
        used = {k % n for k, how in case['uses'] if how != 'p'}
        ptr = {k % n for k, how in case['uses'] if how == 'p'}
        once = list(dict.fromkeys((k % n, how) for k, how in case['uses']))
        body = simple.uses(once)
        if target == 'm.h':
            body = ['inline int u%d_() { return f%d(); }' % (k, k) if how == 'f' else 'inline int v%d_() { return sizeof(C%d); }' % (k, k) if how == 'c'
                    else 'extern C%d* w%d_;' % (k, k) for k, how in once]
        body += ['%sX%s* z%s_;' % ('extern ' if target == 'm.h' else '', x[1:], x[1:]) for x in sorted(fwduse & set(fwds))]
        full = '\n'.join((['#pragma once'] if target == 'm.h' else []) + text + body) + '\n'
        if case['crlf']:
            full = full.replace('\n', '\r\n')
        files[target] = full
        if target == 'm.h':
            files['m.cc'] = '#include "m.h"\n'
        reports, r = cxxgen.analyse(self, files, simple.FLAGS, 'm.cc', opts)
        show = lambda: simple.show(files, r, opts)
        need(set(reports) == {'m.cc', target}, lambda: 'reports on %r\n%s' % (list(reports), show()), key='wrong files')
        rep = reports[target]
        inc = {h.num for h in heads if h.num in kept}
        want = {heads[k].spelling for k in used} | {heads[k].spelling for k in inc if kept[k]} | ({'"all.h"'} if all_kept else set())
        fwd_want = {x for x in fwds if fwds[x] or x in fwduse}
        cls = {k for k in ptr if heads[k].spelling not in want}
        have = {heads[k].spelling for k in inc} | {'"all.h"'}
        fwd_all = {'class %s;' % x for x in fwd_want} | {'struct C%d;' % k for k in cls}
        w_add = {'#include ' + s for s in want - have} | {'struct C%d;' % k for k in cls}
        w_rem = {'#include ' + s for s in have - want} | {'class %s;' % x for x in set(fwds) - fwd_want}
        w_full = {'#include ' + s for s in want} | fwd_all
        removed = {} if rep.correct else {t: [int(x[1]) for x in rep.remove if x[0] == t] for t in places}
        for t, marks in places.items():
            if len(marks) < 2:
                continue
            gone = [k for k, _ in marks if k in removed.get(t, [])]
            need(not any(p for k, p in marks if k in gone), lambda: 'a protected %s is removed\n%s' % (t, show()), key='duplicate')
            if not any(p for _, p in marks):
                need(len(marks) - len(gone) == (t in w_full), lambda: '%s: lines %s of %s are removed\n%s' % (t, gone, marks, show()), key='duplicate')
            w_rem = (w_rem - {t}) | ({t} if gone else set())
        if rep.correct:
            need(not w_add and not w_rem, lambda: 'called correct; should add %s, remove %s\n%s' % (w_add, w_rem, show()), key='correct')
        else:
            got = tuple({x[0] for x in l} for l in (rep.add, rep.remove, rep.full))
            for name, g, w in zip(('additions', 'removals', 'full list'), got, (w_add, w_rem, w_full)):
                need(g == w, lambda: 'wrong %s on %s: unexpected %s, missing %s\n%s' % (name, target, sorted(g - w), sorted(w - g), show()), key=name)
        if target == 'm.h':
            need(reports['m.cc'].correct, lambda: 'm.cc is not correct\n' + show(), key='m.cc')
        keeps = [k for k in inc if kept[k] and k not in used] or [x for x in fwds if fwds[x] and x not in fwduse]
        return [target] + (['keeps'] if keeps else []) + (['glob'] if opts else []) + (['always'] if always & inc else []), bool(keeps and w_rem)


if __name__ == '__main__':
    core.run(C24())
