import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, fixmodel as fm, cpplex
from vlib.core import need
from hypothesis import strategies as st


@st.composite
def cases(draw):
    k = draw(st.integers(2, 4))
    d = dict(tree=draw(fm.tree()), pool=draw(fm.adds()) + draw(fm.adds()), k=k,
             rm=draw(st.lists(st.integers(0, 2 ** k - 1), min_size=4, max_size=12)),
             ad=draw(st.lists(st.integers(0, 2 ** k - 1), min_size=6, max_size=6)),
             correct=draw(st.integers(0, 9)) == 9,
             perm=draw(st.permutations(range(k))), other=draw(fm.tree()), otheradds=draw(fm.adds()),
             where=draw(st.integers(0, k)), opts=draw(fm.options()),
             base=draw(st.sampled_from(['', '', 'mix'])),
             ext=draw(st.sampled_from(['.cc', '.cc', '.h'])))
    return d


class C05(core.Check):
    id = 'C05'
    rule = ('Cases are one generated file with two to four reports on it that disagree on removals and additions, in two '
            'orders and interleaved with a report on another file; non-trivial = some removal was vetoed by another '
            'report or some addition came from only one of them.')
    quick = 6000
    thorough = 200000

    def strategy(self):
        return cases()

    def execute(self, case):
        k = case['k']
        r = fm.render(case['tree'])
        data = ''.join(l.text + '\n' for l in r.lines)
        fname = os.path.join(self.tmp, 'file' + case['ext'])
        oname = os.path.join(self.tmp, 'other.cc')
        o = fm.render(case['other'])
        odata = ''.join(l.text + '\n' for l in o.lines)
        orep, _, _, _ = fm.report(oname, o, case['otheradds'])
        rm = case['rm']
        if not case['correct']:
            # most of the time the reports mostly agree
            rm = [x if x % 3 else 2 ** k - 1 for x in rm]
        allm = 2 ** k - 1
        opts = [x for x in case['opts'] if x not in ('--comments', '--update_comments')]

        def rep(j, name):
            return fm.report(name, r, [a if case['ad'][i] >> j & 1 else None for i, a in enumerate(case['pool'])],
                             comments=False, remove=lambda sp: rm[sp[0].no % len(rm)] >> j & 1)

        def run(order, where, extra=(), naming=''):
            with open(fname, 'w', newline='') as f:
                f.write(data)
            with open(oname, 'w', newline='') as f:
                f.write(odata)
            reps = []
            for n, j in enumerate(order):
                name = fname
                if naming == 'mix' and n % 2:
                    name = os.path.basename(fname)
                reps.append(rep(j, name)[0])
            if case['correct']:
                reps.insert(len(reps) // 2, '(%s has correct #includes/fwd-decls)\n' % fname)
            if where is not None:
                reps.insert(where, orep)
            ex = list(extra) + (['--basedir', self.tmp] if naming else [])
            s, out, exc = fm.run_main(opts + ex, ''.join(reps))
            need(exc is None, lambda: 'raised %r' % (exc,))
            need('ERROR' not in out, lambda: 'refused: ' + out)
            with open(fname, newline='') as f:
                a = f.read()
            with open(oname, newline='') as f:
                b = f.read()
            return a, b, out
        order = list(range(k))
        got, other, out = run(order, case['where'], naming=case['base'])
        info = lambda: '--- before\n%s\n--- reports\n%s\n--- after\n%s' % (data, '\n'.join(rep(j, 'F')[0] for j in order), got)
        spans = fm.spans(r, 'inc') + fm.spans(r, 'fwd')
        every = [sp for sp in spans if rm[sp[0].no % len(rm)] == allm and not case['correct']]
        safe = case['ext'] == '.h' and '--nosafe_headers' not in opts
        if safe:
            every = []
        gone = {sp[0].key for sp in every}
        toks = cpplex.tokens(got)
        have = [key for key, _ in cpplex.includes(toks)] + [key for key, _, _ in cpplex.idents(toks, r'[KA]\d+')]
        for sp in spans:
            key = sp[0].key
            if key in gone:
                need(key not in have, lambda: '%s stays although every report removes it\n%s' % (key, info()), key='stays')
            else:
                need(have.count(key) == 1, lambda: '%s is removed although a report keeps it\n%s' % (key, info()), key='removed')
        for i, a in enumerate(case['pool']):
            key = fm.add_line(a, 100 + i)[0]
            want = 1 if case['ad'][i] else 0
            need(have.count(key) == want, lambda: 'addition %s is there %d times, should be %d\n%s' % (
                key, have.count(key), want, info()), key='additions')
        # order and interleaving
        base, ob, _ = run(order, None, ['--reorder'])
        perm, op, _ = run(case['perm'], case['where'], ['--reorder'])
        need(base == perm, lambda: 'the result depends on the order of the reports\n%s\n--- in order\n%s\n--- permuted\n%s' % (
            info(), base, perm), key='depends on order')
        # the other file gets its own edits only
        with open(oname, 'w', newline='') as f:
            f.write(odata)
        fm.run_main(opts, orep)
        with open(oname, newline='') as f:
            alone = f.read()
        need(other == alone, lambda: 'the report on another file is applied differently when interleaved', key='other file')
        vetoed = any(0 < rm[sp[0].no % len(rm)] < allm for sp in spans)
        single = any(0 < x < allm for x in case['ad'][:len(case['pool'])])
        return ['k=%d' % k, 'vetoed' if vetoed else 'agreed', 'all gone' if gone else 'none gone', 'safe' if safe else 'unsafe'], vetoed or single


if __name__ == '__main__':
    core.run(C05())
