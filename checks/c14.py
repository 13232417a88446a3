import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, cxxgen, iwyurun
from vlib.core import need


def expect_includes(p, rep, r, wanted=None):
    have = [h.spelling for h in p.main.includes]
    full = have if rep.correct else rep.full_includes()
    want = sorted(h.spelling for h in p.headers if h.num in (p.main.wanted_headers() if wanted is None else wanted))
    show = lambda: '%s\n== report\n%s' % (p.show(), r.text)
    for w in want:
        need(w in full, lambda: '%s is not in the full include list, though it declares what the main file uses (%s)\n%s' % (
            w, ', '.join('%s: %s' % (u.entity.qualified or u.entity.kind, u.label) for u in p.main.uses
                         if u.need == 'F' and u.entity.header.spelling == w), show()), key='missing include')
    for f in full:
        need(f in want, lambda: '%s is in the full include list, though nothing of it is used that needs it\n%s' % (f, show()),
             key='superfluous include')


class C14(core.Check):
    id = 'C14'
    rule = ('Cases are programs of up to 6 headers in 7 kinds of places holding entities of 24 kinds in namespaces, and a main '
            'file with up to 10 of 170 forms of use, includes and forward declarations; the expected full include list is '
            'computed from the uses. Non-trivial = an include has to be added and another one removed.')
    quick = 2400
    thorough = 60000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        return cxxgen.cases(max_uses=10)

    def execute(self, case):
        p = cxxgen.build(case)
        reports, r = cxxgen.analyse(self, p.files(), p.args, p.main.name)
        show = lambda: '%s\n== report\n%s' % (p.show(), r.text)
        need(list(reports) == [p.main.name], lambda: 'reports on %r\n%s' % (list(reports), show()), key='wrong files')
        expect_includes(p, reports[p.main.name], r)
        want = p.main.wanted_headers()
        have = {h.num for h in p.main.includes}
        labels = sorted({u.entity.kind for u in p.main.uses}) + (['add'] if want - have else []) + (['remove'] if have - want else [])
        return labels, bool(want - have) and bool(have - want)


if __name__ == '__main__':
    core.run(C14())
