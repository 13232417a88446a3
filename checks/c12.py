import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter
from vlib import core, toolrun
from vlib.core import need
from hypothesis import strategies as st

FILES = ['a.cc', '/abs/dir/a.h', 'dir with blank/b.cc', 'c++/x.hpp', 'odd(name).cc', 'a:1.cc', './../r.cc', "q'uote.cc", '%s.cc',
         'f\u00e9.cc', 'should add these.cc', 'has correct.h', 'x', 'C:\\dir\\a.cc', '{0}.cc', 'full include-list for.h']
INC = ['#include <vector>', '#include "a/b.h"', '#include "with blank.h"', '#include <a/b-c.h>', '#include "100%.h"', '#include <map>',
       "#include \"it's.h\"", '#include "http://x.h"', '#include "f\u00e9.h"', '#include <{0}.h>', '#include "a// b.h"']
FWD = ['class A;', 'struct B;', 'namespace a { class B; }', 'namespace a { namespace b { struct C; } }', 'template <typename T> class D;',
       'template <typename T, int N> struct E;', 'namespace a { template <class X> class Y; }  ', 'enum F : int;',
       'namespace { class G; }', 'template <template <typename> class T> class H;']
WHY = [None, None, 'for a', 'for vector, string', 'for operator<<, x::y', 'for A (ptr only)', 'lines like', "for it's, 100%", 'for a...']
GENERAL = ['x.cc:3:4: error: unknown type', '^~~~', '1 error generated.', 'In file included from a.cc:1:', '   indented  ',
           '#include "looks.h"', 'class Z;', '- #include "r.h"  // lines 1-1', "warning: 'x'", '%s %d {0}', 'error: no such file', '-', '(nothing)']
TAIL = [None, 'fatal', '- no lines']


@st.composite
def rec(draw):
    return dict(f=draw(st.sampled_from(FILES)),
                kind=draw(st.sampled_from(['change', 'change', 'change', 'correct', 'general'])),
                add=draw(st.lists(st.tuples(st.booleans(), st.integers(0, 10), st.integers(0, len(WHY) - 1), st.integers(1, 12)), max_size=4)),
                rm=draw(st.lists(st.tuples(st.booleans(), st.integers(0, 10), st.integers(1, 5000), st.integers(0, 3)), max_size=4)),
                full=draw(st.lists(st.tuples(st.booleans(), st.integers(0, 10), st.integers(0, len(WHY) - 1)), max_size=3)),
                gen=draw(st.lists(st.sampled_from(GENERAL), max_size=3)))


def text_of(inc, i):
    return (INC[i % len(INC)] if inc else FWD[i % len(FWD)]).rstrip()


class C12(core.Check):
    id = 'C12'
    rule = ('Cases are IWYU outputs about 1 to 4 files (odd names, any includes and declarations, comments, correct files, '
            'compiler messages in between), formatted by -o clang and -o clang-warning; non-trivial = at least two '
            'suggestions, one of them a removal.')
    quick = 6000
    thorough = 80000

    def prepare(self):
        toolrun.stand_in()

    def strategy(self):
        return st.fixed_dictionaries(dict(recs=st.lists(rec(), min_size=1, max_size=4),
                                          style=st.sampled_from(['clang', 'clang-warning']), crlf=st.booleans(),
                                          stray=st.sampled_from([None, None, None, 'removal without lines', 'cut'])))

    def execute(self, case):
        out = ''
        want = []
        level = {'clang': 'error', 'clang-warning': 'warning'}[case['style']]
        correct = []
        passed = []
        for r in case['recs']:
            f = r['f']
            if r['kind'] == 'correct':
                out += '\n(%s has correct #includes/fwd-decls)\n' % f
                correct.append(f)
            elif r['kind'] == 'general':
                out += ''.join(g + '\n' for g in r['gen'])
                passed += r['gen']
            else:
                out += '\n%s should add these lines:\n' % f
                for inc, i, w, pad in r['add']:
                    line = text_of(inc, i)
                    why = WHY[w]
                    out += line + (' ' * pad + '// ' + why if why else '') + '\n'
                    want.append((f, 1, 'add', line, why))
                out += '\n%s should remove these lines:\n' % f
                for inc, i, no, n in r['rm']:
                    line = text_of(inc, i)
                    out += '- %s  // lines %d-%d\n' % (line, no, no + n)
                    want.append((f, no, 'superfluous', line, None))
                if case['stray'] == 'removal without lines':
                    out += '- #include "no lines.h"\n'
                out += '\nThe full include-list for %s:\n' % f
                for inc, i, w in r['full']:
                    out += text_of(inc, i) + ('  // ' + WHY[w] if WHY[w] else '') + '\n'
                out += '---\n'
        if case['stray'] == 'cut':
            out = out.rstrip('-\n')[:-3] + '\n'
        if case['crlf']:
            out = out.replace('\n', '\r\n')
        data = out.encode()
        r = toolrun.run(self, [dict(directory='/', file='/f.cc', arguments=['cc', '-DREC=0'])], ['-p', '@DB@', '-o', case['style']],
                        [b'out %d\n' % len(data) + data + b'\n'])
        show = lambda: '--- IWYU\n%s\n--- formatted\n%s' % (out, r.out.decode())
        need(r.exc is None, lambda: 'the formatter raised %r\n%s' % (r.exc, show()), key='raised')
        if case['stray']:
            return ['stray'], False
        got = r.out.decode().split('\n')
        notes = Counter(l.rstrip() for l in got)
        for l in correct:
            need(any(x.startswith(l + ':1:1: note:') for x in got), lambda: 'no note about %s\n%s' % (l, show()), key='note')
        for g in passed:
            if g.strip():
                need(notes[g.rstrip()] >= 1, lambda: 'message %r lost\n%s' % (g, show()), key='message lost')
        rest = [l for l in got if l.strip()]
        for g in passed:
            if g.strip():
                rest = [x for i, x in enumerate(rest) if i != next((k for k, y in enumerate(rest) if y.rstrip() == g.rstrip()), -1)]
        diags = [l for l in rest if ': note: ' not in l]
        need(len(diags) == len(want), lambda: '%d diagnostics for %d suggestions\n%s' % (len(diags), len(want), show()), key='count')
        for d, (f, no, verb, line, why) in zip(diags, want):
            head = '%s:%d:1: %s: ' % (f, no, level)
            need(d.startswith(head), lambda: 'diagnostic %r does not start with %r\n%s' % (d, head, show()), key='head')
            msg = d[len(head):]
            need(msg.startswith(verb) and "'%s'" % line in msg, lambda: 'diagnostic %r does not carry %s %r\n%s' % (d, verb, line, show()), key='suggestion')
            left = msg.replace("'%s'" % line, '', 1)
            if why:
                need(why in left, lambda: 'diagnostic %r does not say %r' % (d, why), key='reason')
            else:
                need(left.strip() == verb, lambda: 'diagnostic %r says more than the report' % d, key='reason')
        return [case['style']] + sorted({w[2] for w in want}) + (['correct'] if correct else []), len(want) >= 2 and any(w[2] == 'superfluous' for w in want)


if __name__ == '__main__':
    core.run(C12())
