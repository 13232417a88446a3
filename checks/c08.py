import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, fixmodel as fm
from vlib.core import need
from hypothesis import strategies as st

STALE = ['shift', 'past-end', 'far-past-end', 'zero', 'no-number', 'full-shift', 'full-past-end', 'fwd-past-end']
BROKEN = ['missing-file', 'directory', 'order', 'no-remove', 'wrong-name', 'begin', 'truncated', 'mutated', 'mutated', 'badns']
NOISE = ['', 'foo.cc:12:3: warning: something [-Wx]', '  int x;', '#include "unrelated.h"', '- #include "q.h"  // lines 1-1',
         'class Z;', 'In file included from a.cc:1:', '^~~~', 'warning: --- not an end', '(nothing)', '1 error generated.',
         'namespace a { class B; }', '\u00e9\u4e2d']


@st.composite
def cases(draw):
    return dict(a=draw(fm.tree()), aadds=draw(fm.adds()), b=draw(fm.tree()), badds=draw(fm.adds()),
                kind=draw(st.sampled_from(STALE + BROKEN + ['none', 'none'])), pick=draw(st.integers(0, 50)),
                first=draw(st.booleans()), opts=draw(fm.options()), crlf=draw(st.booleans()),
                noise=draw(st.lists(st.sampled_from(NOISE), max_size=4)),
                muts=draw(st.lists(st.tuples(st.integers(0, 6), st.integers(0, 60), st.integers(0, 60)), min_size=1, max_size=4)),
                ext=draw(st.sampled_from(['.cc', '.cc', '.h'])))


class C08(core.Check):
    id = 'C08'
    rule = ('Cases are two generated files with reports of which one is stale (line numbers that do not fit), malformed or '
            'names a file that cannot be edited, plus unrelated text between the reports; non-trivial = the good report '
            'had an effect and the bad one was not harmless by luck.')
    quick = 8000
    thorough = 250000

    def strategy(self):
        return cases()

    def execute(self, case):
        kind = case['kind']
        an = os.path.join(self.tmp, 'bad' + case['ext'])
        bn = os.path.join(self.tmp, 'good.cc')
        opts = [o for o in case['opts']]
        a, b = fm.render(case['a']), fm.render(case['b'])
        atext = ''.join(l.text + '\n' for l in a.lines)
        btext = ''.join(l.text + '\n' for l in b.lines)
        if kind in STALE:
            # something must be there to be wrong about
            if not any(l.role == 'inc' for l in a.lines):
                a.lines.insert(0, fm.L('#include "first.h"', 'inc', (), (), dict(t='inc', rm=True), ()))
                a.lines[0].key = '"first.h"'
                for i, l in enumerate(a.lines):
                    l.no = i + 1
                atext = ''.join(l.text + '\n' for l in a.lines)
            inc = [l for l in a.lines if l.role == 'inc']
            victim = inc[case['pick'] % len(inc)]
            for l in inc:
                l.item['rm'] = l.item.get('rm') or l is victim
        arep, aremoved, akept, aadded = fm.report(an, a, case['aadds'])
        brep, bremoved, _, badded = fm.report(bn, b, case['badds'])
        labels = [kind, 'bad first' if case['first'] else 'bad last']
        certain = kind in STALE       # the report certainly does not fit
        n = len(a.lines)
        if kind in STALE:
            non = [l.no for l in a.lines if l.role not in ('inc', 'fwd')]
            line = '- #include %s  // lines %d-%d' % (victim.key, victim.no, victim.no)
            assert line in arep
            if kind in ('shift', 'full-shift') and not non:
                kind = 'past-end'
            tgt = non[case['pick'] % len(non)] if non else 0
            if kind == 'shift':
                arep = arep.replace(line, line.replace('lines %d-%d' % (victim.no, victim.no), 'lines %d-%d' % (tgt, tgt)))
            elif kind == 'past-end':
                arep = arep.replace(line, line.replace('lines %d-%d' % (victim.no, victim.no), 'lines %d-%d' % (n + 1, n + 1)))
            elif kind == 'far-past-end':
                arep = arep.replace(line, line.replace('lines %d-%d' % (victim.no, victim.no), 'lines %d-%d' % (victim.no, n + 5)))
            elif kind == 'zero':
                arep = arep.replace(line, line.replace('lines %d-%d' % (victim.no, victim.no), 'lines 0-0'))
            elif kind == 'no-number':
                arep = arep.replace(line, line.split('  //')[0])
            elif kind == 'full-shift':
                arep = arep.replace('\n---\n', '\n#include "w.h"  // lines %d-%d\n---\n' % (tgt, tgt))
            elif kind == 'full-past-end':
                arep = arep.replace('\n---\n', '\n#include "w.h"  // lines %d-%d\n---\n' % (n + 3, n + 3))
            elif kind == 'fwd-past-end':
                arep = arep.replace('\n---\n', '\nclass Ww;  // lines %d-%d\n---\n' % (n + 3, n + 3))
        elif kind == 'missing-file':
            arep = arep.replace(an, an + '.missing')
            certain = True
        elif kind == 'directory':
            d = os.path.join(self.tmp, 'dir.cc')
            os.makedirs(d, exist_ok=True)
            arep = arep.replace(an, d)
            certain = True
        elif kind == 'badns' and ' has correct' not in arep:
            arep = arep.replace('should add these lines:\n', 'should add these lines:\nnamespace q { class Wx\n', 1)
            certain = False
        elif kind in ('order', 'no-remove', 'wrong-name', 'begin') and ' has correct' not in arep:
            certain = True
            parts = arep.split('\n\n')
            if kind == 'order':
                arep = '\n\n'.join([parts[1], parts[0], parts[2]])
            elif kind == 'no-remove':
                arep = '\n\n'.join([parts[0], parts[2]])
            elif kind == 'wrong-name':
                sec, end = [('The full include-list for %s', ':'), ('%s', ' should remove these')][case['pick'] // 2 % 2]
                sec += end
                arep = arep.replace(sec % an, sec % (an + 'x' if case['pick'] % 2 else bn))
            else:
                arep = '\n\n'.join(parts[1:])
        elif kind == 'truncated':
            ls = arep.split('\n')
            cut = 1 + case['pick'] % max(1, (ls.index('---') if '---' in ls else 2) - 1)
            arep = '\n'.join(ls[:cut]) + '\n'
            certain = ' has correct' not in arep
        elif kind == 'mutated':
            ls = arep.split('\n')
            for op, i, j in case['muts']:
                i %= len(ls)
                j %= len(ls)
                if op == 0 and len(ls) > 1:
                    del ls[i]
                elif op == 1:
                    ls.insert(j, ls[i])
                elif op == 2:
                    ls[i], ls[j] = ls[j], ls[i]
                elif op == 3:
                    ls[i] = re.sub(r'\d+', lambda m: str(int(m.group(0)) + j), ls[i], count=1)
                elif op == 4:
                    ls[i] = ls[i][:len(ls[i]) * j // 60]
                elif op == 5:
                    ls[i] = ['---', '}', '{', '', '- ', '//', '#include', 'namespace a { '][j % 8]
                else:
                    ls[i] = ls[i].replace('- ', '', 1)
            arep = '\n'.join(ls) + '\n'
        broken = kind in BROKEN
        noise = '\n'.join(case['noise']) + '\n'
        if '---' in case['noise']:
            noise = ''
        order = [arep, brep]
        if not case['first'] or (broken and kind not in ('missing-file', 'directory')):
            order = [brep, arep]
        text = noise + order[0] + noise + order[1]
        if case['crlf']:
            text = text.replace('\n', '\r\n')
        # what the good report does alone
        with open(bn, 'w', newline='') as f:
            f.write(btext)
        s, out, exc = fm.run_main(opts, brep)
        need(exc is None, lambda: 'raised %r on a good report' % (exc,))
        with open(bn, newline='') as f:
            bwant = f.read()
        awant = None
        if kind == 'none':
            with open(an, 'w', newline='') as f:
                f.write(atext)
            fm.run_main(opts, arep)
            with open(an, newline='') as f:
                awant = f.read()
        with open(an, 'w', newline='') as f:
            f.write(atext)
        with open(bn, 'w', newline='') as f:
            f.write(btext)
        s, out, exc = fm.run_main(opts, text)
        with open(an, newline='') as f:
            agot = f.read()
        with open(bn, newline='') as f:
            bgot = f.read()
        show = lambda: '--- input\n%s\n--- file\n%s\n--- file afterwards\n%s\n--- output\n%s' % (text, atext, agot, out)
        need(exc is None, lambda: 'fix_includes raised %r\n%s' % (exc, show()), key='raised %s' % type(exc).__name__)
        need(bgot == bwant, lambda: 'the good report was not applied as it is alone\n%s' % show(), key='good report not applied')
        if kind == 'none':
            need(agot == awant, lambda: 'unrelated text changes what is done\n%s' % show(), key='noise matters')
        if certain:
            need(agot == atext, lambda: 'a report that does not fit changed the file\n%s' % show(), key='misfit applied')
            if kind != 'truncated' and ' has correct' not in arep:
                need('ERROR' in out or 'Skipping' in out, lambda: 'a misfit is not mentioned\n%s' % show(), key='not mentioned')
        elif kind in ('mutated', 'badns') and not any(l.role == 'fwd' for l in a.lines) and \
                not re.search(r'^(?!.*#include).*// lines', arep, re.M):
            # includes may be wrong, but everything else must survive
            stat, _ = fm.roles(a, [s_ for s_ in fm.spans(a, 'inc')])
            got = agot.split('\n')
            i = 0
            for l in a.lines:
                if stat[l.no] == 'protected':
                    while i < len(got) and got[i] != l.text:
                        i += 1
                    need(i < len(got), lambda: 'a malformed report lost the line %r\n%s' % (l.text, show()), key='line lost')
                    i += 1
        return labels, bgot != btext and (certain or kind in ('mutated', 'badns', 'none'))


if __name__ == '__main__':
    core.run(C08())
