import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, utilsrv
from vlib.core import need

ALPHA = 'ab/.<>"h-_+$^|('
SPECIAL = set('.[]()*+?{}|^$\\')
SETS = ['[ab]', '[a-h]', '[^/]', '[^a]', '[.]', '[<"]', '[>"]', '[$]', '[a|b]', '[-_]']
LOOK = ['(?!a)', '(?=a)', '(?!.*b)', '(?!<)', '(?=.*h)']


def write(node, top=False):
    """The pattern of a tree."""
    k = node[0]
    if k == 'lit':
        return ''.join('\\' + c if c in SPECIAL else c for c in node[1])
    if k == 'dot':
        return '.'
    if k == 'set':
        return SETS[node[1] % len(SETS)]
    if k == 'cat':
        return ''.join(write(x) if x[0] != 'alt' else '(%s)' % write(x) for x in node[1])
    if k == 'alt':
        return '|'.join(write(x) for x in node[1])
    if k == 'rep':
        body = write(node[1])
        if re.fullmatch(body, ''):
            # LLVM's matcher is known to err on loops of the empty string.
            return body if node[1][0] != 'alt' else '(%s)' % body
        single = node[1][0] in ('dot', 'set') or (node[1][0] == 'lit' and len(node[1][1]) == 1)
        return (body if single else '(%s)' % body) + ['*', '+', '?', '{2}', '{1,2}'][node[2] % 5]
    raise KeyError(k)


def sample(node, bits):
    """A string the pattern matches, as the bits choose."""
    k = node[0]

    def nxt(n):
        bits.append(bits.pop(0))
        return bits[-1] % n
    if k == 'lit':
        return node[1]
    if k == 'dot':
        return ALPHA[nxt(len(ALPHA))]
    if k == 'set':
        ok = [c for c in ALPHA if re.fullmatch(SETS[node[1] % len(SETS)], c)]
        return ok[nxt(len(ok))]
    if k == 'cat':
        return ''.join(sample(x, bits) for x in node[1])
    if k == 'alt':
        return sample(node[1][nxt(len(node[1]))], bits)
    if re.fullmatch(write(node[1]), ''):
        return sample(node[1], bits)
    lo, hi = [(0, 2), (1, 3), (0, 1), (2, 2), (1, 2)][node[2] % 5]
    return ''.join(sample(node[1], bits) for _ in range(lo + nxt(hi - lo + 1)))


class C33(core.Check):
    id = 'C33'
    rule = ('Cases are pattern trees of literals, dots, sets, alternations, groups and repetitions written out for both dialects, with and without anchors, '
            'lookahead for ecmascript, and names sampled from the pattern, cut, extended and changed; matching and replacing are compared with Python\'s full match. '
            'Non-trivial = the pattern matches some of the names, and not all.')
    quick = 30000
    thorough = 1500000
    budget = {'quick': 60, 'thorough': 1500}

    def prepare(self):
        utilsrv.prepare()

    def strategy(self):
        n = st.integers(0, 40)
        leaf = st.one_of(st.tuples(st.just('lit'), st.text(alphabet=ALPHA, min_size=1, max_size=3)).map(list),
                         st.tuples(st.just('lit'), st.sampled_from(['a', 'b', '<a', '.h>', '/', 'a/', '"', '$', '^a', 'a$'])).map(list),
                         st.just(['dot']), st.tuples(st.just('set'), n).map(list))
        tree = st.recursive(leaf, lambda s: st.one_of(
            st.tuples(st.just('cat'), st.lists(s, min_size=2, max_size=3)).map(list), st.tuples(st.just('alt'), st.lists(s, min_size=2, max_size=3)).map(list),
            st.tuples(st.just('rep'), s, n).map(list)), max_leaves=6)
        edit = st.tuples(st.sampled_from(['none', 'none', 'before', 'after', 'drop first', 'drop last', 'twice', 'change']), st.sampled_from(ALPHA), n).map(list)
        return st.builds(lambda t, a, l, b, e, r, c: dict(tree=t, anchor=a, look=l, bits=b, edits=e, repl=r, cap=c), tree, st.sampled_from([0, 0, 0, 1, 2, 3]),
                         st.sampled_from([None] * 5 + list(range(len(LOOK)))), st.lists(n, min_size=5, max_size=5), st.lists(edit, min_size=2, max_size=4),
                         st.text(alphabet='xyz<>"/.h', max_size=4), st.one_of(st.none(), st.lists(st.text(alphabet='ab/.', max_size=3), min_size=2, max_size=2)))

    def execute(self, case):
        pattern = write(case['tree'])
        dialects = ['llvm', 'ecmascript']
        if case['look'] is not None:
            pattern = LOOK[case['look']] + ('(%s)' % pattern if case['tree'][0] == 'alt' else pattern)
            dialects = ['ecmascript']
        if case['anchor'] & 1:
            pattern = '^' + pattern
        if case['anchor'] & 2:
            pattern = pattern + '$'
        bits = list(case['bits'])
        base = sample(case['tree'], bits)
        names = []
        for what, ch, k in case['edits']:
            s = sample(case['tree'], bits) if what in ('none', 'before', 'after') else base
            names.append({'none': s, 'before': ch + s, 'after': s + ch, 'drop first': s[1:], 'drop last': s[:-1], 'twice': s + s,
                          'change': s[:k % (len(s) + 1)] + ch + s[k % (len(s) + 1) + 1:]}[what])
        # What matches the whole name, wherever anchors stand.
        rx = re.compile(pattern)
        seen = set()
        for name in names:
            want = rx.fullmatch(name) is not None
            seen.add(want)
            for d in dialects:
                got = utilsrv.flag('RegexMatch', d, name, pattern)
                need(got == want, lambda: '%s pattern %r %s name %r' % (d, pattern, 'matches' if got else 'does not match', name), key='match ' + d)
                out = utilsrv.call('RegexReplace', d, name, pattern, case['repl'])[0]
                w = case['repl'] if want else name
                need(out == w, lambda: '%s: replacing %r by %r in %r gives %r, not %r' % (d, pattern, case['repl'], name, out, w), key='replace ' + d)
        if case['cap']:
            # One group, unambiguous: what it holds is put into the replacement.
            a, b = [write(['lit', x]) if x else '' for x in case['cap']]
            mid = base
            name = case['cap'][0] + mid + case['cap'][1]
            for d in 'llvm', 'ecmascript':
                for pat in a + '(.*)' + b, '^' + a + '(.*)' + b + '$', '<?' + a + '(.*)' + b if not name.startswith('<') else a + '(.*)' + b:
                    out = utilsrv.call('RegexReplace', d, name, pat, '[' + {'llvm': '\\1', 'ecmascript': '$1'}[d] + ']')[0]
                    need(out == '[' + mid + ']', lambda: '%s: replacing %r in %r gives %r, not [%s]' % (d, pat, name, out, mid), key='capture ' + d)
        return ['alternation' if '|' in re.sub(r'\\.|\[.*?\]', '', pattern) else 'plain', 'anchor %d' % case['anchor']] + (['look'] if case['look'] is not None else []), len(seen) == 2


if __name__ == '__main__':
    core.run(C33())
