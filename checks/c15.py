import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, cxxgen, iwyurun
from vlib.core import need


class C15(core.Check):
    id = 'C15'
    rule = ('Cases are programs of up to 5 headers holding classes, structs, unions and class templates, and a main file with '
            'up to 8 of 100 forms of use that need the definition or do not, and forward declarations; the expected sets of '
            'includes and of forward declarations are computed from the uses. Non-trivial = one class is used by declaration '
            'only and another one needs its definition.')
    quick = 2400
    thorough = 60000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        return cxxgen.cases(kinds=['class', 'class', 'class', 'struct', 'union', 'class template', 'constrained template', 'function'], max_headers=5, max_uses=8)

    def execute(self, case):
        p = cxxgen.build(case)
        reports, r = cxxgen.analyse(self, p.files(), p.args, p.main.name)
        show = lambda: '%s\n== report\n%s' % (p.show(), r.text)
        need(list(reports) == [p.main.name], lambda: 'reports on %r\n%s' % (list(reports), show()), key='wrong files')
        rep = reports[p.main.name]
        have = [cxxgen.fwd_key(cxxgen.fwd_line(e)) for e in p.main.fwds]
        full = have if rep.correct else [cxxgen.fwd_key(t) for t in rep.full_fwds()]
        inc = [h.spelling for h in p.main.includes] if rep.correct else rep.full_includes()
        want = {cxxgen.fwd_key(cxxgen.fwd_line(e)): e for e in p.main.wanted_fwds()}
        need(len(full) == len(set(full)), lambda: 'a forward declaration is listed twice\n' + show(), key='twice')
        for k, e in want.items():
            need(k in full, lambda: 'the forward declaration %r is not in the list\n%s' % (k, show()), key='missing forward declaration')
            need(e.header.spelling not in inc, lambda: 'the header of %s, of which a declaration suffices, is demanded\n%s' % (
                e.qualified, show()), key='header demanded')
        for k in full:
            need(k in want, lambda: 'the forward declaration %r is not needed\n%s' % (k, show()), key='superfluous forward declaration')
        for u in p.main.uses:
            if u.need == 'F':
                need(u.entity.header.spelling in inc, lambda: 'use %r of %s needs the definition, but its header is not demanded\n%s' % (
                    u.label, u.entity.qualified, show()), key='definition not demanded')
        fs = {u.entity.num for u in p.main.uses if u.need == 'F'}
        labels = ['P ' + u.label for u in p.main.uses if u.need == 'P'] + ['F ' + u.label for u in p.main.uses if u.need == 'F']
        labels += ['had forward declarations'] if p.main.fwds else []
        return sorted(set(labels)), bool(want) and bool(fs)


if __name__ == '__main__':
    core.run(C15())
