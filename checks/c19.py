import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import ccat, core, corpus, cxxgen, fixmodel as fm, iwyurun
from vlib.core import need

KINDS = sorted(ccat.KINDS)
TAGS = ['struct', 'struct', 'union', 'nested struct', 'flexible struct', 'function', 'typedef']
FLAGS = ['-I.', '-Iinc', '-isystem', 'sys', '-fno-color-diagnostics']
STDS = ['-std=c99', '-std=c11', '-std=gnu11', '-std=c17', '-std=gnu17', '-std=c23', '-std=gnu2x']


class C19(core.Check):
    id = 'C19'
    rule = ('Cases are C programs of up to 6 headers holding entities of 30 kinds (structs, unions, enums, typedefs, functions, '
            'variables, macros), a main file with up to 10 of 200 forms of use, includes and forward declarations, and '
            'sometimes an associated header; plus the sample C programs of the repository under edits without meaning. The expected includes and forward '
            'declarations are computed from the uses, and the advice is applied. Non-trivial = a line has to be added and another one removed.')
    quick = 1600
    thorough = 50000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        std = st.sampled_from(STDS)
        gen = lambda **k: cxxgen.cases(**k).flatmap(lambda c: std.map(lambda s: dict(c, std=s)))
        c = [gen(kinds=KINDS, max_uses=10), gen(kinds=KINDS, max_uses=6), gen(kinds=TAGS, max_uses=8, max_headers=4), gen(kinds=TAGS, max_uses=8, max_headers=4),
             gen(kinds=KINDS, max_uses=7, assoc=True), gen(kinds=TAGS, max_uses=8, assoc=True, max_headers=4)]
        names = [s.main for s in corpus.samples() if s.main.startswith('tests/c/')]
        sample = st.builds(lambda n, o: dict(sample=n, ops=o), st.sampled_from(names), corpus.ops_strategy(6))
        return st.sampled_from(c * 3 + [sample]).flatmap(lambda s: s)

    def execute(self, case):
        if 'sample' in case:
            return corpus.perform(self, case)
        p = cxxgen.build(case, cat=ccat, ext='.c', flags=FLAGS + [case['std']])
        reports, r = cxxgen.analyse(self, p.files(), p.args, p.main.name)
        show = lambda: '%s %s\n== report\n%s' % (case['std'], p.show(), r.text)
        names = [p.main.name] + ([p.assoc.name] if p.assoc else [])
        need(set(reports) == set(names), lambda: 'reports on %r\n%s' % (list(reports), show()), key='wrong files')
        labels = sorted({u.entity.kind + ' ' + u.label for u in p.main.uses})
        if p.assoc:
            labels.append('associated header')
            self.judge(p.assoc, reports[p.assoc.name], show, header=True)
        else:
            self.judge(p.main, reports[p.main.name], show)
        self.settle(p, names, r, show)
        return labels, any(x.add for x in reports.values()) and any(x.remove for x in reports.values())

    def judge(self, unit, rep, show, header=False):
        have = [h.spelling for h in unit.includes]
        inc = have if rep.correct else rep.full_includes()
        uses = unit.uses
        want = {u.entity.header.spelling for u in uses if u.need == 'F'}
        for u in uses:
            if u.need == 'F':
                need(u.entity.header.spelling in inc, lambda: '%s, which provides %s (%s), is not in the list\n%s' % (
                    u.entity.header.spelling, u.entity.name or u.entity.kind, u.label, show()), key='missing include')
        for f in inc:
            need(f in want, lambda: '%s is in the list, but nothing of it is used that needs it\n%s' % (f, show()), key='superfluous include')
        key = lambda e: cxxgen.fwd_key(cxxgen.fwd_line(e))
        full = [key(e) for e in unit.fwds] if rep.correct else [cxxgen.fwd_key(t) for t in rep.full_fwds()]
        need(len(full) == len(set(full)), lambda: 'a forward declaration is listed twice\n' + show(), key='twice')
        required, allowed, introduced = set(), set(), set()
        for u in uses:
            if u.entity.header.spelling in want or not u.entity.fwd:
                continue
            if u.need == 'P':
                (allowed if u.entity in introduced else required).add(key(u.entity))
            elif u.need == 'N':
                introduced.add(u.entity)
                allowed.add(key(u.entity))
        for k in required:
            need(k in full, lambda: 'the forward declaration %r is not in the list\n%s' % (k, show()), key='missing forward declaration')
        for k in full:
            need(k in required | allowed, lambda: 'the forward declaration %r is not needed\n%s' % (k, show()), key='superfluous forward declaration')

    def settle(self, p, names, r, show):
        root = os.path.join(self.tmp, 'p')
        status, out, exc = fm.run_main(['--nosafe_headers'], r.text, cwd=root)
        need(exc is None, lambda: 'fix_includes raised %r\n%s' % (exc, show()), key='fix_includes raised')
        show2 = lambda: show() + ''.join('\n== %s after applying\n%s' % (n, open(os.path.join(root, n)).read()) for n in names)
        # -Wvisibility: a struct first named in a parameter list is another struct
        ok, why = cxxgen.compiles(root, ['-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types'] + p.args, p.main.name)
        if not ok and not cxxgen.compiles_files(self, p):
            raise core.Skip('generated program does not compile')
        need(ok, lambda: 'the program does not compile any more: %s\n%s' % (why[:1500], show2()), key='does not compile')
        again, r2 = cxxgen.rerun(self, p.args, p.main.name)
        for n in names:
            need(n in again and again[n].correct, lambda: 'after applying the advice, IWYU still finds fault with %s:\n%s\n%s' % (
                n, r2.text, show2()), key='not settled')


if __name__ == '__main__':
    core.run(C19())
