import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, corpus, cxxgen, iwyurun, simple
from vlib.core import need

NS = [[], [], ['na'], ['na', 'nb']]
STYLE = ['// IWYU pragma: %s', '/* IWYU pragma: %s */', '  // IWYU pragma: %s', '// IWYU pragma: %s  // for a reason', '// IWYU pragma: %s and more']
WRONG = ['// IWYU prgama: %s', '// iwyu pragma: %s', '//IWYU pragma: %s', '// See IWYU pragma: %s', '// IWYU pragma %s', '/* IWYU pragma:%s */', '// IWYU pragma:%s', '/*IWYU pragma: %s */', '/** IWYU pragma: %s */', 'extern const char* s@;  // note: IWYU pragma: %s',
         '/*IWYU pragma: %s*/', '// IWYU: %s']


class Unit:
    pass


class C26(core.Check):
    id = 'C26'
    rule = ('Cases are (1) a source file and mostly an associated header with include lines, forward declarations, full and pointer uses of up to 5 headers, '
            'each with up to 4 no_include and no_forward_declare pragmas (some malformed, some naming something else), with or without --no_fwd_decls; '
            '(2) edited samples about these. Non-trivial = a pragma or the option changes the advice.')
    quick = 2400
    thorough = 60000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        n = st.integers(0, 60)
        k = st.integers(0, 7)
        unit = st.builds(lambda i, f, u, p, at: dict(inc=i, fwd=f, uses=u, prag=p, at=at), st.lists(k, max_size=3),
                         st.lists(st.tuples(k, st.sampled_from('CD')).map(list), max_size=2),
                         st.lists(st.tuples(k, st.sampled_from('fcppd')).map(list), min_size=1, max_size=5),
                         st.lists(st.tuples(st.sampled_from(['inc', 'fwd', 'fwd']), k, n, st.sampled_from(['', '', '', 'wrong', 'other'])).map(list), max_size=4), k)
        gen = st.builds(lambda s, m, h, o: dict(spots=s, main=m, assoc=h, opt=o), st.lists(st.tuples(st.integers(0, 7), k).map(list), min_size=1, max_size=5),
                        unit, st.one_of(unit, unit, st.none()), st.sampled_from([0, 0, 1]))
        smp = corpus.cases(['no_include', 'no_fwd*', '*no_forward*', 'pragma_no*', 'comment_pragmas', 'fwd_decl*', 'forward_declare*', 'badinc-extradef', '*inhibit*'],
                           exclude=corpus.SLOW)
        return st.sampled_from([gen] * 6 + [smp]).flatmap(lambda s: s)

    def unit(self, spec, heads, name):
        u = Unit()
        n = len(heads)
        u.name = name
        u.inc = list(dict.fromkeys(k % n for k in spec['inc']))
        u.fwd = list(dict.fromkeys((k % n, l) for k, l in spec['fwd']))
        u.uses = list(dict.fromkeys((k % n, how) for k, how in spec['uses']))
        u.no_inc, u.no_fwd, prag = set(), set(), []
        for what, k, how, kind in spec['prag']:
            h = heads[k % n]
            if what == 'inc':
                arg = h.spelling
                if kind == 'other':
                    arg = '<%s>' % arg[1:-1] if arg[0] == '"' else '"%s"' % arg[1:-1]
            else:
                arg = ['', '::'][how % 2] + h.prefix + 'CD'[(how // 2) % 2] + str(h.num)
                if kind == 'other':
                    arg = [h.prefix + 'C', 'zz::C%d' % h.num, 'C%d0' % h.num, 'f%d' % h.num, (h.ns or ['q'])[-1]][how % 5]
            text = ('no_include ' if what == 'inc' else 'no_forward_declare ') + arg
            if kind == 'wrong':
                line = WRONG[how % len(WRONG)]
            else:
                line = STYLE[how % len(STYLE)]
                if what == 'inc':
                    u.no_inc.add(arg)
                else:
                    u.no_fwd.add(arg.lstrip(':'))
            prag.append((line % text).replace('@', '%s%d' % (name[-1], len(prag))))
        lines = ['#include %s' % heads[k].spelling for k in u.inc]
        fwd = [heads[k].fwd(l) for k, l in u.fwd]
        body = []
        for k, how in u.uses:
            h = heads[k]
            t = '%s%d' % (name[-1], k)
            q = h.prefix
            body.append({'f': 'inline int u%s_() { return %sf%d(); }' % (t, q, k), 'c': 'inline int v%s_() { return sizeof(%sC%d); }' % (t, q, k),
                         'p': 'extern %sC%d* w%s_;' % (q, k, t), 'd': 'extern %sD%d* z%s_;' % (q, k, t)}[how])
        at = spec['at'] % 4
        out = ['#include "all.h"'] + lines
        if at == 0:
            out = prag + out
        elif at == 1:
            out = out[:1] + prag + out[1:]
        out = out + fwd
        if at == 2:
            out += prag
        out += body
        if at == 3:
            out += prag
        u.text = '\n'.join(out) + '\n'
        return u

    def model(self, u, heads, opt, assoc=None, use_pragmas=True):
        """(additions, removals, full list, desired headers, declarations left)."""
        no_fwd = u.no_fwd if use_pragmas else set()
        desired = set()
        ptr = []
        for k, how in u.uses:
            h = heads[k]
            if how in 'fc':
                desired.add(k)
                continue
            letter = 'C' if how == 'p' else 'D'
            if h.prefix + letter + str(k) in no_fwd:
                desired.add(k)
            elif opt:
                # the header has a declaration
                desired.add(k)
            else:
                ptr.append((k, letter))
        adesired = assoc.desired if assoc else set()
        keep = set()
        for k, letter in ptr:
            if letter == 'C' and k in desired | adesired:
                continue
            if (k, letter) in u.fwd:
                keep.add((k, letter))
            elif assoc and (k, letter) in assoc.left:
                pass
            else:
                keep.add((k, letter))
        u.desired, u.left = desired, keep & set(u.fwd)
        u.gone = set(u.fwd) - keep
        want = {heads[k].spelling for k in desired if k in u.inc or k not in adesired}
        # those a use is satisfied by although only m.h wants them
        if use_pragmas:
            want -= u.no_inc
        have = {heads[k].spelling for k in u.inc}
        inc = lambda s: {'#include ' + x for x in s}
        fwd = lambda s: {heads[k].fwd(l) for k, l in s}
        extra = {'#include "m.h"'} if assoc else set()
        return (inc(want - have) | fwd(keep - set(u.fwd)), inc((have | {'"all.h"'}) - want) | fwd(set(u.fwd) - keep), inc(want) | fwd(keep) | extra)

    def execute(self, case):
        if 'sample' in case:
            return corpus.perform(self, case)
        heads = [simple.Head(k, s, NS[m % 4]) for k, (s, m) in enumerate(case['spots'])]
        files = {h.path: h.text() for h in heads}
        files['all.h'] = '#pragma once\n' + ''.join('#include %s\n' % h.spelling for h in heads)
        units = []
        if case['assoc']:
            units.append(self.unit(case['assoc'], heads, 'm.h'))
            files['m.h'] = '#pragma once\n' + units[0].text
        units.append(self.unit(case['main'], heads, 'm.cc'))
        files['m.cc'] = ('#include "m.h"\n' if case['assoc'] else '') + units[-1].text
        opts = ['--no_fwd_decls'] * case['opt']
        reports, r = cxxgen.analyse(self, files, simple.FLAGS, 'm.cc', opts)
        show = lambda: simple.show(files, r, opts)
        need(set(reports) == {u.name for u in units}, lambda: 'reports on %r\n%s' % (list(reports), show()), key='wrong files')
        changed = False
        assoc = None
        for u in units:
            plain = self.model(u, heads, 0, assoc, False)
            w = self.model(u, heads, case['opt'], assoc)
            changed = changed or plain != w
            rep = reports[u.name]
            got = tuple({x[0] for x in l} for l in (rep.add, rep.remove, rep.full))
            if rep.correct:
                need(not w[0] and not w[1], lambda: '%s is called correct; should add %s, remove %s\n%s' % (u.name, w[0], w[1], show()), key='correct')
            else:
                for name, g, x in zip(('additions', 'removals', 'full list'), got, w):
                    need(g == x, lambda: 'wrong %s on %s: unexpected %s, missing %s\n%s' % (name, u.name, sorted(g - x), sorted(x - g), show()), key=name)
            assoc = u
        return ['assoc' if case['assoc'] else 'single'] + opts + (['no_include'] if any(u.no_inc for u in units) else []) + (
            ['no_forward_declare'] if any(u.no_fwd for u in units) else []), changed


if __name__ == '__main__':
    core.run(C26())
