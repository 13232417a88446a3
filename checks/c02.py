import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import json
import re
from collections import Counter, defaultdict
from vlib import core, fixmodel as fm, cpplex
from vlib.core import need
from hypothesis import strategies as st


def trailing(text, role):
    """The text after the include name or the declaration's last ; or }."""
    if role == 'inc':
        m = re.match(r'\s*#\s*include\s*[<"][^>"]*[>"](.*)', text)
    else:
        m = re.match(r'[^;]*;[\s}]*(.*)', text)
    return m.group(1).strip() if m else ''


class C02(core.Check):
    id = 'C02'
    rule = ('Cases are generated files and reports as for C01; non-trivial = at least one addition and one removal took '
            'effect, or an addition beside two or more untouched lines.')
    quick = 16000
    thorough = 300000

    def strategy(self):
        return fm.case_strategy(store=fm.st.just(dict(eol='\n', enc='ascii', final=True, ctl='')),
                                dup=st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)), max_size=2))

    def execute(self, case):
        case = json.loads(json.dumps(case))
        top = [it for it in case['tree']['top'] + case['tree']['rest'] if it['t'] == 'inc']
        for n, (i, j) in enumerate(case['dup']):
            if i < len(top) and j < len(top):
                top[i]['u'] = top[i].get('u', 500 + n)
                for k in ('u', 'angled', 'name'):
                    top[j][k] = top[i][k]
        a = fm.applying(self, case)
        copies = Counter(sp[0].key for sp in a.kept + (a.removed if a.safe else []))
        comments_of = defaultdict(set)
        for sp in a.kept + (a.removed if a.safe else []):
            comments_of[sp[0].key].add(trailing(sp[-1].text, sp[0].role))
        need(a.exc is None, lambda: 'fix_includes raised %r on a valid report\n%s' % (a.exc, a.show))
        need('ERROR' not in a.out, lambda: 'valid report refused: %s\n%s' % (a.out, a.show))
        try:
            toks = cpplex.tokens(a.after)
        except cpplex.Bad as e:
            raise core.Violation('the result does not parse: %s\n%s' % (e, a.show), key='does not parse')
        lines = a.after.split('\n')
        incs = defaultdict(list)
        for k, t in cpplex.includes(toks):
            incs[k].append(t)
        fwds = defaultdict(list)
        for name, t, nxt in cpplex.idents(toks, r'[KA]\d+'):
            fwds[name].append(t)
        guard = {('#ifndef GUARD_H_',)} if case['tree']['guard'] == 'ifndef' else set()
        # an #if around the whole file counts as a guard too
        body = [l for l in a.r.lines if l.role not in ('blank', 'com') and l.text != '#pragma once']
        if (body and body[0].role == 'if' and all(body[0].blocks[0] in l.blocks for l in body)
                and 'els' not in body[0].item):
            guard.add((body[0].text,))
        # additions
        for (key, line), ad in zip(a.added, case['adds']):
            if ad['t'] == 'inc':
                got = incs.get(key, [])
                need(len(got) == 1, lambda: 'added include %s is there %d times\n%s' % (key, len(got), a.show),
                     key='added include not there once')
                t = got[0]
                need(t.depth == 0 and not t.ns and (not t.conds or t.conds in guard),
                     lambda: 'added include %s governed by %r in %r depth %d\n%s' % (key, t.conds, t.ns, t.depth, a.show),
                     key='added include misplaced')
            else:
                got = fwds.get(key, [])
                need(len(got) == 1, lambda: 'added declaration %s is there %d times\n%s' % (key, len(got), a.show),
                     key='added declaration not there once')
                t = got[0]
                need(t.ns == tuple(ad['ns']) and t.depth == 0 and (not t.conds or t.conds in guard),
                     lambda: 'added declaration %s: namespaces %r for %r, under %r\n%s' % (
                         key, t.ns, ad['ns'], t.conds, a.show), key='added declaration misplaced')
                want = {'class': 'class %s;', 'struct': 'struct %s;', 'template': 'template <typename T> class %s;',
                        'template2': 'template <typename T, int N> struct %s;'}[ad['kw']] % key
                need(want in lines[t.line - 1], lambda: 'added declaration %s altered: %r' % (want, lines[t.line - 1]),
                     key='added declaration altered')
        # removals
        for sp in a.removed:
            key = sp[0].key
            got = (incs if sp[0].role == 'inc' else fwds).get(key, [])
            if copies[key] and not a.safe:
                continue
            if a.safe:
                need(1 <= len(got) <= copies[key], lambda: '%s removed from a header\n%s' % (key, a.show), key='removed from a header')
            else:
                need(not got, lambda: '%s was not removed\n%s' % (key, a.show), key='not removed')
        # the rest
        comments = '--comments' in case['opts'] or '--update_comments' in case['opts']
        full = dict(re.findall(r'^#include ([<"].*?[>"])(.*)$', a.report.split('The full include-list')[-1], re.M))
        for sp in a.kept + (a.removed if a.safe else []):
            key = sp[0].key
            got = (incs if sp[0].role == 'inc' else fwds).get(key, [])
            need(1 <= len(got) <= copies[key], lambda: '%s is there %d times\n%s' % (key, len(got), a.show), key='kept line not there once')
            if sp in a.removed and copies[key] > 1:
                continue
            t = got[0]
            text = lines[t.line - 1]
            was, now = trailing(sp[-1].text, sp[0].role), trailing(text, sp[0].role)
            okay = {was} | comments_of[key]
            if sp[0].role == 'inc' and comments and '//' in full.get(key, ''):
                okay = {full[key].strip()}
            if a.new == a.data:
                okay.add(was)
            need(now in okay, lambda: 'trailing comment of %s is %r, should be %r\n%s' % (key, now, okay, a.show),
                 key='trailing comment')
            if sp[0].role == 'fwd':
                need(t.ns == fm.fwd_ns(sp), lambda: '%s moved to namespace %r\n%s' % (key, t.ns, a.show),
                     key='declaration changed namespace')
        labels = ['safe' if a.safe else 'unsafe', 'adds=%d' % len(a.added), 'removes=%d' % min(3, len(a.removed)),
                  'guard=%s' % case['tree']['guard']] + [o for o in case['opts']]
        return labels, a.new != a.data and ((a.added and a.removed and not a.safe) or (a.added and len(a.kept) >= 2))


if __name__ == '__main__':
    core.run(C02())
