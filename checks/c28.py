import json
import os
import re
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, cxxgen, iwyurun, simple
from vlib.core import need

# Facades: files that exist, and names of which nothing is known.
FACADES = [('sys/pub/p0.h', '<pub/p0.h>'), ('fac/p1.h', '"fac/p1.h"'), ('sys/p2', '<p2>'), ('p3.h', '"p3.h"')]
NOWHERE = ['<fan/q0>', '"fan/q1.h"', '<q2.h>']
REGEX = [('@"h[0-2]\\.h"', None), ('@<h.*>', None), ('@"sub/.*"', None), ('@"(sub|deep)/.*"', None), ('@["<]in/.*', None), ('@.*[13]\\.h.', None), ('@"h0\\.h"|"h1\\.h"', None),
         ('@"h(.)\\.h"', '<fan/r\x011>'), ('@"sub/(.*)"', '"top_\x011"'), ('@<(.*)/h(.)\\.h>', '<\x012/\x011>'), ('@"h.*|<h.', None), ('@"nothing.*"', None), ('@[<"]p[0-9].*', None)]


def spell(s, dialect):
    return s.replace('\x01', {'llvm': '\\', 'ecmascript': '$'}[dialect])


class C28(core.Check):
    id = 'C28'
    rule = ('Cases are programs using functions and classes of up to 6 headers, with up to 10 mappings among the names of headers, facades and unknown names '
            '(chains, cycles, several targets, patterns of both dialects with and without references, symbols), spread over up to 4 mapping files and refs in several '
            'notations. Non-trivial = a used header is mapped.')
    quick = 2600
    thorough = 70000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        n = st.integers(0, 60)
        inc = st.tuples(st.just('inc'), n, n).map(list)
        rx = st.tuples(st.just('rx'), n, n).map(list)
        sym = st.tuples(st.just('sym'), n, n).map(list)
        entry = st.sampled_from([inc] * 6 + [rx, sym]).flatmap(lambda s: s)
        return st.builds(lambda s, e, v, i, u, f, d, c, y: dict(spots=s, entries=e, private=v, inc=i, uses=u, files=f, dialect=d, chain=c, style=y),
                         st.lists(st.tuples(st.integers(0, 7), n).map(list), min_size=1, max_size=6), st.lists(entry, min_size=1, max_size=10),
                         st.lists(n, min_size=0, max_size=10), st.lists(n, max_size=4),
                         st.lists(st.tuples(n, st.sampled_from('fc')).map(list), min_size=1, max_size=5), st.lists(st.tuples(n, n, n).map(list), max_size=3),
                         st.sampled_from(['llvm', 'llvm', 'ecmascript']), st.sampled_from([0, 0, 1, 2]), n)

    def execute(self, case):
        heads = [simple.Head(k, s, [['na'], []][m % 2]) for k, (s, m) in enumerate(case['spots'])]
        for h in heads:
            if h.path == 'sys/h%d' % h.num and h.num % 2:
                h.path, h.spelling = 'sys/h%d.h' % h.num, '<h%d.h>' % h.num
        real = [h.spelling for h in heads] + [q for _, q in FACADES]
        names = real + NOWHERE
        edges, marks, regex, symbols = {}, {}, {}, {}
        private = {names[k % len(names)] for k in case['private']} - set(NOWHERE[:1])
        dialect = case['dialect']
        entries = []
        aims = {}
        for e in case['entries']:
            if e[0] == 'rx':
                key, target = REGEX[e[1] % len(REGEX)]
                aims.setdefault(key, set()).add(target or names[e[2] % len(names)])
        for key in aims:
            # A pattern that matches what it maps to leaves that alone.
            private |= {x for x in real if re.fullmatch(key[1:], x) and x not in aims[key]}
        if case['chain']:
            # A chain (2: a ring) through names, with a way out.
            ring = [names[(k * 3 + case['style']) % len(names)] for k in range(min(5, len(names)))]
            for a, b in zip(ring, ring[1:] + (ring[:1] if case['chain'] == 2 else [])):
                if a != b:
                    entries.append(['inc', a, b])
                    private.add(a)
            entries.insert(case['style'] % (len(entries) + 1), ['inc', ring[case['style'] % len(ring)], NOWHERE[0]])
            private.discard(NOWHERE[0])
        for e in case['entries']:
            if e[0] == 'rx':
                key, target = REGEX[e[1] % len(REGEX)]
                entries.append(['rx', key, target or names[e[2] % len(names)]])
            elif e[0] == 'inc':
                entries.append(['inc', names[e[1] % len(names)], names[e[2] % len(names)]])
            else:
                h = heads[e[1] % len(heads)]
                entries.append(['sym', h.prefix + 'fC'[e[1] // 7 % 2] + str(h.num), names[e[2] % len(names)]])
        vis = lambda x: 'private' if x in private else 'public'
        lines = []
        for kind, a, b in entries:
            if kind == 'sym':
                lines.append(('symbol', [a, 'private', b, vis(b)]))
                symbols.setdefault(a, []).append(b)
            else:
                fv = 'private' if kind == 'rx' else vis(a)
                lines.append(('include', [a, fv, spell(b, dialect), vis(b)]))
                marks.setdefault(a, fv)
                if kind == 'rx':
                    regex.setdefault(a, []).append(b)
                else:
                    edges.setdefault(a, []).append(b)
            marks.setdefault(b, vis(b))
        for key in sorted(regex):
            for x in real:
                m = re.fullmatch(key[1:], x)
                if m and x not in regex[key]:
                    for b in regex[key]:
                        edges.setdefault(x, []).append(re.sub('\x01(.)', lambda g: m.group(int(g.group(1))), b))
                    marks.setdefault(x, 'private')
        mapfiles, opts = self.write_maps(case, lines)
        opts += ['--regex=' + dialect] if dialect != 'llvm' or case['style'] % 2 else []
        if case['style'] % 3 == 0:
            opts.append('--no_default_mappings')

        def reach(starts):
            out, todo = [], list(reversed(starts))
            while todo:
                x = todo.pop()
                if x not in out:
                    out.append(x)
                    todo += reversed(edges.get(x, []))
            return [x for x in out if marks.get(x, 'public') == 'public']

        def candidates(h, sym):
            if sym in symbols:
                c = reach(symbols[sym])
                if c:
                    return c
            c = reach(edges.get(h.spelling, []))
            if not c or marks.get(h.spelling, 'public') == 'public':
                c = [h.spelling] + [x for x in c if x != h.spelling]
            return c
        files = {h.path: h.text() for h in heads}
        for p, q in FACADES:
            files[p] = '#pragma once\n'
        files['all.h'] = '#pragma once\n' + ''.join('#include %s\n' % q for q in real)
        included = list(dict.fromkeys(real[k % len(real)] for k in case['inc']))
        body, cands = [], []
        for k, how in dict.fromkeys((k % len(heads), how) for k, how in case['uses']):
            h = heads[k]
            body.append('int u%s%d = %s;' % (how, k, {'f': '%sf%d()', 'c': 'sizeof(%sC%d)'}[how] % (h.prefix, k)))
            cands.append((candidates(h, h.prefix + {'f': 'f', 'c': 'C'}[how] + str(k)), h))
        files['m.cc'] = '#include "all.h"\n' + ''.join('#include %s\n' % q for q in included) + '\n'.join(body) + '\n'
        root = os.path.join(self.tmp, 'p')
        shutil.rmtree(root, ignore_errors=True)
        iwyurun.write_tree(root, dict(files, **mapfiles))
        r = iwyurun.run(root, ['-w'] + [x for o in opts for x in ('-Xiwyu', o)] + simple.FLAGS + ['m.cc'])
        show = lambda: 'candidates %s\n%s' % ([(h.spelling, c) for c, h in cands], simple.show(dict(files, **mapfiles), r, opts))
        # A private header for which there is nothing else draws a warning.
        quiet = {h.path for c, h in cands if c == [h.spelling] and marks.get(h.spelling) == 'private'}
        text, rest = [], []
        for line in r.text.split('\n'):
            m = re.match(r'Warning: No public header found to replace the private header (.*)$', line)
            if m and m.group(1) in quiet:
                continue
            text.append(line)
        try:
            reports, other = iwyurun.parse('\n'.join(text))
        except iwyurun.Garbled as e:
            raise core.Violation('the report is garbled (%s)\n%s' % (e, show()), key='garbled')
        if r.status != 0 or other:
            ok, why = cxxgen.compiles(root, simple.FLAGS, 'm.cc')
            if not ok:
                raise core.Skip('does not compile: ' + why.split('\n')[0][:80])
            raise core.Violation('IWYU fails (status %s) or says more than its report: %s\n%s' % (r.status, other, show()), key='fails')
        rep = reports['m.cc']
        full = set(included) if rep.correct else set(rep.full_includes())
        for c, h in cands:
            need(full & set(c), lambda: 'none of %s, for a use of %s, is in the full list\n%s' % (c, h.spelling, show()), key='use without header')
        allc = {x for c, _ in cands for x in c}
        need(full <= allc, lambda: '%s in the full list provide nothing that is used\n%s' % (sorted(full - allc), show()), key='superfluous')
        have = set(included)
        for x in full - have:
            need(any(x in c and not have & set(c) for c, _ in cands), lambda: '%s is added although headers already included provide what it does\n%s' % (x, show()), key='not preferring')
        in_order = sum('mapping_file' in o for o in opts) < 3
        if in_order and len(cands) == 1 and not have & set(cands[0][0]):
            need(full == {cands[0][0][0]}, lambda: 'expected %s\n%s' % (cands[0][0][0], show()), key='first')
        if not rep.correct:
            need({x[0] for x in rep.add} == {'#include ' + x for x in full - have}, lambda: 'additions\n' + show(), key='additions')
            need({x[0] for x in rep.remove} == {'#include ' + x for x in have - full} | {'#include "all.h"'}, lambda: 'removals\n' + show(), key='removals')
        mapped = [h for c, h in cands if c != [h.spelling]]
        return [dialect, 'chain %d' % case['chain'], 'files %d' % len(mapfiles)] + (['regex'] if regex else []) + (['symbol'] if symbols else []), bool(mapped)

    def write_maps(self, case, lines):
        """Spreads the entries over mapping files; returns (files, options)."""
        parts = [['m0.imp', []]]
        opts = ['--mapping_file=m0.imp']
        # Each further file takes a piece of an earlier one, which refers to it, or is given on the command line.
        body = {0: [('entry',) + l for l in lines]}
        where = {0: 'm0.imp'}
        for num, (src, at, how) in enumerate(case['files'], 1):
            src = sorted(body)[src % len(body)]
            b = body[src]
            at = at % (len(b) + 1)
            where[num] = ['m%d.imp' % num, 'maps/m%d.imp' % num, 'maps/deep/m%d.imp' % num][how % 3]
            piece, body[src] = b[at:], b[:at]
            body[num] = piece
            if how % 4 == 3 and src == 0:
                opts.append('--mapping_file=' + where[num])
                continue
            # By the name from the working directory, or from the file that refers.
            name = where[num]
            if how % 4 == 1:
                name = os.path.relpath(where[num], os.path.dirname(where[src]) or '.')
            elif how % 4 == 2:
                name = os.path.join(self.tmp, 'p', where[num])
            body[src].append(('ref', name))
            if how % 5 == 4:
                body[num].append(('ref', where[src]))       # round in a circle
            if how % 7 == 6:
                body[src].append(('ref', name))             # twice
        out = {}
        y = case['style']
        for num, b in body.items():
            style = (y + num) % 5
            text = []
            for e in b:
                key, val = ('ref', e[1]) if e[0] == 'ref' else (e[1], e[2])
                if style == 3:
                    text.append("  { %s: %s },%s" % (key, ("[%s]" % ', '.join("'%s'" % v for v in val)) if key != 'ref' else "'%s'" % val, ['', '  # a comment'][y % 2]))
                elif style == 4:
                    text.append('- %s: %s' % (key, json.dumps(val)))
                elif style == 2 and text and key != 'ref' and y % 2:
                    text.append('  {\n    "%s": [\n      %s\n    ]\n  },' % (key, ',\n      '.join(json.dumps(v) for v in val)))
                else:
                    text.append('  { "%s": %s },' % (key, json.dumps(val)))
            s = '\n'.join(text)
            if style != 4:
                s = '[\n' + (s.rstrip(',') if style == 0 else s) + '\n]\n'
            elif not text:
                s = '[]\n'
            else:
                s = '# block style\n' + s + '\n'
            out[where[num]] = s
        return out, opts


if __name__ == '__main__':
    core.run(C28())
