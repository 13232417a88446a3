import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter
from vlib import core, fixmodel as fm, cpplex
from vlib.core import need


def anchors(text):
    toks = cpplex.tokens(text)
    out = {}
    seen = Counter()
    for k, t in cpplex.includes(toks):
        seen[k] += 1
        out[k] = (t.conds, t.ns, t.depth)
    for k, t, _ in cpplex.idents(toks, r'[A-Za-z]+\d+'):
        seen[k] += 1
        out[k] = (t.conds, t.ns, t.depth)
    return {k: v for k, v in out.items() if seen[k] == 1}


class C07(core.Check):
    id = 'C07'
    rule = ('Cases are generated files with nested conditionals, namespaces in four styles and header guards, and reports '
            'that empty some of them; non-trivial = the run changed a file holding a conditional or a namespace from '
            'which something was removed.')
    quick = 16000
    thorough = 300000

    def strategy(self):
        return fm.case_strategy(store=fm.st.just(dict(eol='\n', enc='ascii', final=True, ctl='')),
                                ext=fm.st.sampled_from(['.cc', '.h']),
                                opts=fm.options().map(lambda o: [x for x in o if 'safe' not in x] + ['--nosafe_headers']))

    def execute(self, case):
        a = fm.applying(self, case)
        need(a.exc is None, lambda: 'fix_includes raised %r on a valid report\n%s' % (a.exc, a.show))
        try:
            before = anchors(a.before)
        except cpplex.Bad as e:
            raise core.Skip('generated text does not parse: %s' % e)
        try:
            after = anchors(a.after)
        except cpplex.Bad as e:
            raise core.Violation('the result does not balance: %s\n%s' % (e, a.show), key='does not balance')
        names = ['conditionals', 'namespaces', 'brace depth']
        for k, v in before.items():
            if k in after:
                for what, x, y in zip(names, v, after[k]):
                    need(x == y, lambda: '%s of %s changed: %r -> %r\n%s' % (what, k, x, y, a.show), key=what + ' changed')
        removed_items = {id(s[0].item) for s in a.removed}
        have = Counter(l.rstrip() for l in a.after.split('\n'))
        touched = False
        hit = 0
        for i, b in enumerate(a.r.blocks):
            rem = fm.removable(b['item'], removed_items)
            was = fm.touched(b['item'], removed_items)
            hit += was
            mine = [l for l in a.r.lines if l.blocks and l.blocks[-1] == i and l.role in ('if', 'else', 'endif', 'nso', 'nsc')]
            if not rem:
                for l in mine:
                    need(have[l.text.rstrip()] >= 1, lambda: 'line of a block with content is gone: %r\n%s' % (l.text, a.show),
                         key='block with content lost')
            elif was and a.new != a.data:
                for l in mine:
                    if l.role in ('if', 'endif', 'nsc'):
                        need(have[l.text.rstrip()] == 0 or l.text in a.report or self.filled(a, l),
                             lambda: 'emptied block stays: %r\n%s' % (l.text, a.show), key='emptied block stays')
        for l in a.r.lines:
            if l.role == 'guard':
                need(have[l.text] == 1, lambda: 'header guard line %r is there %d times\n%s' % (l.text, have[l.text], a.show),
                     key='header guard')
        kinds = {b['kind'] for b in a.r.blocks}
        return sorted(kinds) + ['touched blocks=%d' % min(hit, 4), 'guard=%s' % case['tree']['guard']], a.new != a.data and hit > 0

    @staticmethod
    def filled(a, l):
        """An addition may go into the block that its removal emptied."""
        return bool(a.added)


if __name__ == '__main__':
    core.run(C07())
