import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter
from vlib import core, fixmodel as fm
from vlib.core import need
from hypothesis import strategies as st

FILES = ['proj/foo.cc', 'proj/foo_test.cc', 'proj/foo_unittest.cpp', 'proj/internal/foo.cc', 'foo.c', 'proj/foo.h',
         'deep/proj/bar.cc']
INCS = ['"proj/foo.h"', '"foo.h"', '"other/foo.h"', '"foo-inl.h"', '"proj/foo-inl.h"', '"proj/foo.hpp"', '<foo.h>',
        '<vector>', '<map>', '<algorithm>', '<stdio.h>', '<sys/types.h>', '<unistd.h>', '<linux/a.h>', '<linux/b.h>',
        '"proj/z.h"', '"proj/a.h"', '"a/b.h"', '"a/b-inl.h"', '"a/ba.h"', '"b.h"', '"B.h"', '"proj/public/foo.h"',
        '<a.b/c>', '"a"', '<boost/x.hpp>', '"deep/proj/bar.h"', '"bar.h"', '"deep/q.h"', '<proj/sys.h>', '<proj.h>']
TAILS = ['', '', '', '  // c', '  // IWYU pragma: keep', ' // IWYU pragma: associated', '  /* x */']
STY = ['#include %s', '#include %s', '#include %s', '#  include %s', ' #include %s']


@st.composite
def block(draw, depth=2):
    out = []
    for _ in range(draw(st.integers(2, 9) if depth == 2 else st.integers(0, 6))):
        k = draw(st.integers(0, 19))
        if k < 12:
            out.append(['inc', draw(st.integers(0, len(INCS) - 1)), draw(st.integers(0, len(TAILS) - 1)),
                        draw(st.integers(0, len(STY) - 1))])
        elif k < 14:
            out.append(['blank'])
        elif k < 16:
            out.append(['com', draw(st.integers(0, 2))])
        elif k == 16:
            out.append(['code', draw(st.integers(0, 4))])
        elif depth > 0:
            out.append([['if', 'ns', 'ifelse'][k - 17], draw(block(depth - 1)), draw(block(depth - 1)) if k == 19 else []])
    return out


CODE = ['int v@;', '#define M@', 'class F@;', '#pragma pack(@)', 'using namespace n@;']


def build(b):
    """Lines with (text, kind, key, context)."""
    out = []
    n = [0]

    def walk(items, ctx):
        for it in items:
            n[0] += 1
            u = str(n[0])
            if it[0] == 'inc':
                out.append([STY[it[3]] % INCS[it[1]] + TAILS[it[2]], 'inc', INCS[it[1]], ctx])
            elif it[0] == 'blank':
                out.append(['', 'blank', None, ctx])
            elif it[0] == 'com':
                for t in ['// c@', '/* d@ */', '/* e@\n   e2@ */'][it[1]].replace('@', u).split('\n'):
                    out.append([t, 'com', None, ctx])
            elif it[0] == 'code':
                out.append([CODE[it[1]].replace('@', u), 'fence', None, ctx])
            elif it[0] == 'ns':
                out.append(['namespace n%s {' % u, 'fence', None, ctx])
                out.append(['int k%s;' % u, 'fence', None, ctx + ['ns' + u]])
                walk(it[1], ctx + ['ns' + u])
                out.append(['}  // n%s' % u, 'fence', None, ctx])
            else:
                out.append(['#if C%s' % u, 'fence', None, ctx])
                out.append(['int i%s;' % u, 'fence', None, ctx + ['if' + u]])
                walk(it[1], ctx + ['if' + u])
                if it[0] == 'ifelse':
                    out.append(['#else  // %s' % u, 'fence', None, ctx])
                    walk(it[2], ctx + ['else' + u])
                out.append(['#endif  // %s' % u, 'fence', None, ctx])
    walk(b, [])
    return out


def units(lines):
    """[(fence number, [include units])]: each unit = (comments, line)."""
    segs = []
    cur = ['', []]
    pend = []
    seen_any = False
    for i, (text, kind, key, ctx) in enumerate(lines):
        if kind == 'com':
            pend.append(text)
            continue
        if kind == 'inc':
            if pend and len(pend) == i:      # comments at the top belong to the file
                segs.append(cur)
                cur = ['top:' + '|'.join(pend), []]
                pend = []
            unit = (tuple(pend), text, key, tuple(ctx), i)
            pend = []
            if key.startswith('<linux/'):
                segs.append(cur)
                segs.append(['barrier', [unit]])
                cur = ['after:' + key, []]
            else:
                cur[1].append(unit)
            continue
        if kind == 'blank':
            if pend:                     # free-standing comment: a fence
                segs.append(cur)
                cur = ['com:' + '|'.join(pend), []]
                pend = []
            continue
        if pend:
            pend = []
        segs.append(cur)
        cur = [text, []]
    segs.append(cur)
    return segs


class C06(core.Check):
    id = 'C06'
    rule = ('Cases are generated files rich in includes of every kind with comments, fences, conditionals, namespaces and '
            'barrier includes, sorted by --sort_only or by applying a report with --reorder; non-trivial = the order of '
            'at least two includes changed.')
    quick = 24000
    thorough = 400000

    def strategy(self):
        return st.fixed_dictionaries(dict(
            file=st.sampled_from(FILES), body=block(), opts=fm.options(), reorder=st.booleans(),
            mode=st.sampled_from(['sort', 'sort', 'report']), guard=st.sampled_from([False, False, True])))

    # -- what the documentation of the sort order says
    def kind(self, fname, key, text, first, opts):
        proj = [o.split('=')[1] for o in opts if o.startswith('--separate')]
        if key[0] == '"':
            stem = re.sub(r'(-inl\.h|\.h|\.hpp)$', '', key.strip('"'), flags=re.I)
            me = re.sub(r'_(unittest|regtest|test)$', '', os.path.splitext(fname)[0])
            if 'pragma: associated' in text:
                return 'main'
            if me in (stem, stem.replace('/public/', '/internal/')):
                return 'main'
            if first and me.split('/')[-1] == stem.split('/')[-1]:
                return 'main'
            if proj:
                root = fname.split('/')[0] if '/' in fname else None
                if proj[0] == '<tld>':
                    inc = key.strip('"')
                    if '/' in inc and root and inc.split('/')[0] == root:
                        return 'project'
                elif key.strip('"').startswith(proj[0] + '/'):
                    return 'project'
            return 'other'
        return 'c' if '.' in key else 'c++'

    def execute(self, case):
        fname = case['file']
        lines = build(case['body'])
        if case['guard']:
            lines = ([['#ifndef G_', 'fence', None, []], ['#define G_', 'fence', None, []]] + lines +
                     [['#endif  // G_', 'fence', None, []]])
        if not lines:
            raise core.Skip('empty')
        text = ''.join(l[0] + '\n' for l in lines)
        path = os.path.join(self.tmp, fname)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(text)
        opts = [o for o in case['opts'] if 'order' not in o and 'comments' not in o]
        if case['reorder']:
            opts.append('--reorder')
        if case['mode'] == 'sort':
            s, out, exc = fm.run_main(opts + ['--sort_only', fname], '', self.tmp)
        else:
            rep = ('%s should add these lines:\n#include "zz/added.h"\n\n%s should remove these lines:\n\n'
                   'The full include-list for %s:\n#include "zz/added.h"\n---\n' % (fname, fname, fname))
            s, out, exc = fm.run_main(opts, rep, self.tmp)
        with open(path) as f:
            after = f.read()
        show = lambda: '--- before (%s, %s)\n%s\n--- after\n%s' % (fname, ' '.join(opts), text, after)
        need(exc is None, lambda: 'raised %r\n%s' % (exc, show()))
        # match the output lines to kinds by their text
        known = {}
        for t, k, key, ctx in lines:
            known.setdefault(t.rstrip(), (k, key))
        out_lines = []
        added = 0
        for t in after.split('\n')[:-1]:
            if not t.strip():
                out_lines.append([t, 'blank', None, []])
            elif t == '#include "zz/added.h"' and case['mode'] == 'report':
                added += 1
                out_lines.append([t, 'inc', '"zz/added.h"', []])
            else:
                need(t.rstrip() in known, lambda: 'line %r is new\n%s' % (t, show()), key='new line')
                k, key = known[t.rstrip()]
                out_lines.append([t, k, key, []])
        need([l[0] for l in lines if l[1] == 'fence'] == [l[0] for l in out_lines if l[1] == 'fence'],
             lambda: 'other lines moved\n%s' % show(), key='fence moved')
        # comments keep their includes
        b, a = units(lines), units([l for l in out_lines])
        now = Counter()
        prevs = {}
        run = []
        for l in out_lines:
            if l[1] == 'com':
                run.append(l[0])
            else:
                if l[1] == 'inc':
                    prevs.setdefault(l[0].rstrip(), []).append(tuple(run))
                run = []
        keys_before = Counter(u[2] for _, us in b for u in us)
        keys_after = Counter(u[2] for _, us in a for u in us)
        for k in keys_before:
            need(keys_after[k] >= 1, lambda: 'include %s lost\n%s' % (k, show()), key='include lost')
        every = [u for _, us in b for u in us]
        solid = [l for l in lines if l[1] not in ('blank', 'com')]
        if len(solid) > 2 and solid[1][3] and all(l[3][:1] == solid[1][3][:1] for l in solid[1:-1]):
            every = [(c, t, key, ctx[1:] if solid[1][3][0].startswith('if') else ctx, i) for c, t, key, ctx, i in every]
        for c, t, key, ctx, i in sorted(every, key=lambda u: (not u[0], not u[3])):
            left = prevs.get(t.rstrip(), [])
            hit = next((x for x in left if x[len(x) - len(c):] == c), None)
            if hit is None:
                # only a repeated uncommented include at the top level may go
                need(not c and not ctx and keys_before[key] > keys_after[key] >= 1,
                     lambda: 'include %r lost or separated from its comments %r\n%s' % (t, c, show()), key='separated')
            else:
                left.remove(hit)
        # no include crosses a fence
        def place(ls):
            d = {}
            f = 0
            bar = 0
            for t, k, key, ctx in ls:
                if k == 'fence':
                    f += 1
                elif k == 'inc':
                    if key.startswith('<linux/'):
                        bar += 1
                        d.setdefault((key, t.rstrip()), []).append((f, bar, 'b'))
                        bar += 1
                    else:
                        d.setdefault((key, t.rstrip()), []).append((f, bar))
            return d
        pb, pa = place(lines), place([l for l in out_lines if l[0] != '#include "zz/added.h"'])
        dup_barrier = any(keys_before[k] > 1 for k in keys_before if k.startswith('<linux/'))
        for k, v in pa.items():
            left = list(pb.get(k, []))
            for x in v:
                if dup_barrier:
                    ok = [y for y in left if y[0] == x[0]]
                else:
                    ok = [y for y in left if y == x]
                need(ok, lambda: 'include %r crossed other lines: %r -> %r\n%s' % (k, pb.get(k), v, show()), key='crossed')
                left.remove(ok[0])
        # sorted within each run that fix_includes may move
        order = ['main', 'c', 'c++', 'other', 'project']
        if '--quoted_includes_first' in opts:
            order = ['main', 'other', 'project', 'c', 'c++']
        first_key = next((l for l in lines if l[1] == 'inc'), None)
        moved = False
        # which lines stay adjacent runs: the runs of the input
        for (fb, us) in b:
            keys = [(u[2], u[1].rstrip()) for u in us]
            if len(keys) < 2:
                continue
            pos = {}
            # positions in the output of this run's includes, when they can be told apart
            ok = True
            for k in keys:
                idx = [i for i, l in enumerate(out_lines) if l[1] == 'inc' and (l[2], l[0].rstrip()) == k]
                if len(idx) != 1 or sum(1 for l in lines if l[0].rstrip() == k[1]) != 1:
                    ok = False
                    continue
                pos[k] = idx[0]
            got = sorted(pos, key=pos.get)
            kind = {k: order.index(self.kind(fname, k[0], k[1], first_key is not None and k[1] == first_key[0].rstrip(), opts))
                    for k in got}
            want = [k for k in keys if k in pos]
            if '--reorder' in opts:
                def sk(k):
                    return kind[k], ('#include' + k[0]).replace('-inl.h', '_inl.h')
                want.sort(key=sk)
                if [sk(k) for k in got] == [sk(k) for k in want]:
                    got = want          # the order of copies is of no interest
            else:
                want.sort(key=lambda k: kind[k])
            if want != [k for k in keys if k in pos]:
                moved = True
            need(got == want, lambda: 'a run of includes is in the order\n%r\nand not\n%r\n%s' % (got, want, show()),
                 key='order')
        if case['mode'] == 'report':
            need(added == 1, lambda: 'the addition is there %d times\n%s' % (added, show()), key='added')
        kinds = {self.kind(fname, l[2], l[0], False, opts) for l in lines if l[1] == 'inc'}
        labels = [case['mode'], 'reorder' if '--reorder' in opts else 'by kind', 'moved' if moved else 'in order'] + sorted(kinds)
        if any(l[2] and l[2].startswith('<linux/') for l in lines):
            labels.append('barrier')
        return labels, moved

if __name__ == '__main__':
    core.run(C06())
