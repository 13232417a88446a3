import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, utilsrv
from vlib.core import need

SPACE = ' \t\n\v\f\r'
TOKEN = re.compile('[^%s]+' % SPACE)
# A token that starts with a quote runs to the closing one at least.
QUOTED = re.compile('(?:"[^"]*(?:"|$)|<[^>]*(?:>|$)|[^"<%s])[^%s]*' % (SPACE, SPACE))


def strip_past(s, x):
    i = s.find(x)
    return ['0', s] if i < 0 else ['1', s[i + len(x):]]


def drop_from(s, x):
    i = s.find(x)
    return ['0', s] if i < 0 else ['1', s[:i]]


def segs(l, n):
    return l[:n] if n else l


MODEL = {
    'StartsWith': lambda s, x: ['01'[s.startswith(x)]],
    'EndsWith': lambda s, x: ['01'[s.endswith(x)]],
    'StripLeft': lambda s, x: ['1', s[len(x):]] if s.startswith(x) else ['0', s],
    'StripRight': lambda s, x: ['1', s[:len(s) - len(x)]] if s.endswith(x) else ['0', s],
    'StripPast': strip_past,
    'DropFrom': drop_from,
    'Ellipsize': lambda s, n: [s if len(s) <= n else '' if n < 6 else s[:n - 3] + '...'],
    'StripWhiteSpaceLeft': lambda s: [s.lstrip(SPACE)],
    'StripWhiteSpaceRight': lambda s: [s.rstrip(SPACE)],
    'StripWhiteSpace': lambda s: [s.strip(SPACE)],
    'ReplaceAll': lambda s, x, y: [s.replace(x, y)],
    'Split': lambda s, x, n: s.split(x, n - 1 if n else -1),
    'SplitOnWhiteSpace': lambda s, n: segs(TOKEN.findall(s), n),
    'SplitOnWhiteSpacePreservingQuotes': lambda s, n: segs(QUOTED.findall(s), n),
}


class C31(core.Check):
    id = 'C31'
    rule = ('Cases are up to 12 calls of the string helpers (built with address and undefined-behaviour sanitizers) with strings over a tiny alphabet, '
            'arbitrary bytes, strings cut from each other, and lists of tokens put together. Non-trivial = some call finds, strips, cuts or splits something.')
    quick = 24000
    thorough = 1500000
    budget = {'quick': 60, 'thorough': 1500}

    def prepare(self):
        utilsrv.prepare()

    def strategy(self):
        n = st.integers(0, 12)
        # JSON-able strings of characters below 256, each a byte.
        byte = st.characters(min_codepoint=0, max_codepoint=255)
        small = st.text(alphabet='ab ', max_size=12)
        quoty = st.text(alphabet='ab <>"\t\n', max_size=16)
        any_ = st.text(alphabet=byte, max_size=20)
        s = st.one_of(small, small, quoty, quoty, any_, st.text(alphabet=SPACE + 'x\x00\xa0\x85', max_size=10))
        part = st.one_of(st.text(alphabet='ab ', max_size=3), st.text(alphabet='ab <>"', max_size=2), st.text(alphabet=byte, max_size=2))
        two = st.tuples(s, part, n, n).map(lambda t: [t[0], t[1], t[2], t[3]])
        op = st.sampled_from(sorted(MODEL))
        call = st.tuples(op, two, part).map(lambda t: [t[0]] + t[1] + [t[2]])
        join = st.tuples(st.just('join'), st.lists(st.text(alphabet='abc', max_size=3), min_size=1, max_size=6), st.sampled_from([',', ', ', '::', '.', '-']), n).map(list)
        words = st.tuples(st.just('words'), st.lists(st.tuples(st.integers(0, 2), st.text(alphabet='ab c', min_size=1, max_size=4)).map(list), max_size=6),
                          st.lists(st.text(alphabet=SPACE, min_size=1, max_size=2), min_size=8, max_size=8), n).map(list)
        return st.lists(st.one_of(call, call, join, words), min_size=1, max_size=12)

    def execute(self, case):
        nontrivial = False
        labels = set()
        for c in case:
            op = c[0]
            labels.add(op)
            if op == 'join':
                parts, div, lim = c[1:]
                got = utilsrv.call('Split', div.join(parts), div, lim)
                want = parts if lim == 0 else parts[:lim - 1] + ([div.join(parts[lim - 1:])] if len(parts) >= lim else [])
                need(got == want, lambda: 'Split(%r, %r, %d) is %r, not %r' % (div.join(parts), div, lim, got, want), key='Split')
                nontrivial |= len(parts) > 1
                continue
            if op == 'words':
                parts, gaps, lim = c[1:]
                toks = []
                for q, t in parts:
                    t = t if q else t.replace(' ', '') or 'x'
                    toks.append([t, '"%s"' % t, '<%s>' % t][q])
                text = gaps[0][:len(toks) % 2] + ''.join(t + g for t, g in zip(toks, gaps[1:]))
                got = utilsrv.call('SplitOnWhiteSpacePreservingQuotes', text, lim)
                want = toks[:lim] if lim else toks
                need(got == want, lambda: 'SplitOnWhiteSpacePreservingQuotes(%r, %d) is %r, not %r' % (text, lim, got, want), key='quotes')
                nontrivial |= len(toks) > 1
                continue
            s, part, i, j, repl = c[1:]
            # Make hits likely: the part is often a piece of the string.
            if i % 3 == 0:
                part = s[j:j + 1 + i % 4]
            elif i % 3 == 1 and op in ('EndsWith', 'StripRight'):
                part = s[len(s) - min(j, len(s)):]
            elif i % 3 == 1:
                part = s[:j]
            args = {'Ellipsize': [s, i], 'StripWhiteSpaceLeft': [s], 'StripWhiteSpaceRight': [s], 'StripWhiteSpace': [s], 'ReplaceAll': [s, part, repl],
                    'Split': [s, part, i % 5], 'SplitOnWhiteSpace': [s, i % 5], 'SplitOnWhiteSpacePreservingQuotes': [s, i % 5]}.get(op, [s, part])
            if op in ('ReplaceAll', 'Split') and not part:
                # Both take a non-empty string to look for.
                continue
            want = MODEL[op](*args)
            got = utilsrv.call(op, *args)
            need(got == want, lambda: '%s%r is %r, not %r' % (op, tuple(args), got, want), key=op)
            nontrivial |= want != [s] and want != ['0', s] and want != ['0'] and want != []
        return sorted(labels), nontrivial


if __name__ == '__main__':
    core.run(C31())
