import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, corpus, cxxgen, iwyurun, simple
from vlib.core import need

FLAGS = ['-std=c++23' if f.startswith('-std') else f for f in simple.FLAGS]
# Macros with the name @ and what their expansion does with the argument; # is the number of another header.
BODIES = {
    'fun': ('@(x) ((x) + 1)', 'use'),
    'twice': ('@(x) ((x) + (x))', 'use'),
    'lines': ('@(x) \\\n  ((x) \\\n   + 1)', 'use'),
    'call': ('@(x) f#(x)', 'use'),
    'var': ('@(x) (v# + (x))', 'use'),
    'type': ('@(x) ((x) + (long)sizeof(C#))', 'use'),
    'member': ('@(x) C#::s(x)', 'use'),
    'typedef': ('@(x) ((t#)(x))', 'use'),
    'enum': ('@(x) ((x) + (long)e#)', 'use'),
    'hint': ('@(x) ((x) + (long)sizeof(C#))', 'use'),
    'mac': ('@(x) ((x) + O#)', 'use'),
    'chain': ('@(x) F#(x)', 'use'),
    'deep': ('@(x) D#(x)', 'use'),
    'alias': ('@ F#', 'use'),
    'name': ('@ f#', 'use'),
    'variadic': ('@(...) f#(__VA_ARGS__)', 'use'),
    'named variadic': ('@(x...) F#(x)', 'use'),
    'stringize': ('@(x) ((long)sizeof(#x))', 'drop'),
    'drop': ('@(x) 0', 'drop'),
    'paste': ('@(x) f##x(1)', 'paste'),
    'hidden string': ('@(x) ((x) + (long)sizeof("f# O#"))', 'use'),
    'comment': ('@(x) ((x) + 1)  /* f#(1) O# */', 'use'),
    'untaken': ('@(x) ((x) + F# 1)', 'bad'),
}
KINDS = [k for k in BODIES if k not in ('deep', 'untaken')] + ['deep', 'deep', 'call', 'hint', 'mac']
SYMBOL = {'call', 'var', 'type', 'member', 'typedef', 'enum', 'name', 'variadic'}
MACRO = {'mac': 'O', 'chain': 'F', 'alias': 'F', 'named variadic': 'F', 'deep': 'D'}
CONDS = ['#ifdef {n}\n#endif', '#ifndef {n}\n#endif', '#if defined({n})\n#endif', '#if defined {n} && 1\n#endif', '#if !defined({n})\n#endif', '#if 0\n#elif defined({n})\n#endif',
         '#ifdef NOPE_\n#elifdef {n}\n#endif', '#ifdef NOPE_\n#elifndef {n}\n#endif', '#if 0 && defined({n})\n#endif', '#  ifdef   {n}  // it\n#  endif', '# if (defined({n}))\n# else\n#endif',
         '#ifdef NOPE_\n#else\n#ifdef {n}\n#endif\n#endif', '#if 1 || \\\n  defined({n})\n#endif']
VALUE = ['#if {n} > 2\n#endif', '#if 0\n#elif {n}\n#endif', '#if defined(NOPE_) || {n} == 1\n#endif', '#if -({n} + 1) > 0 ? 1 : 2\n#endif', '#if __cplusplus > {n}\n#endif']
NOTHING = ['#if 0\nlong y_ = {f}(1);\n#endif', '#if 1\n#elif defined({n})\n#endif', '#if 1\n#elifdef {n}\n#endif', '#if 0\n#ifdef {n}\n#endif\n#endif', '// {n} {f}', '/* #ifdef {n}\n#endif */',
           'const char* const s{u} = "{n} {f}";', '#ifdef NOPE_\nlong y_ = {n};\n#endif', '#pragma unknown {n} {f}', '#undef NOPE_{n}', '#define UNUSED{u} {f}(1)']


class File:
    pass


class C18(core.Check):
    id = 'C18'
    rule = ('Cases are (1) up to 6 headers with functions, variables, types and macros of 22 kinds, whose bodies name things of other headers, glue, quote or drop their '
            'argument, used by a main file, mostly its own header and macros of these, in nested expansions and in conditional directives of 30 forms, taken and not; '
            'some headers look at macros of their includer, with --check_also reporting on all of them; and (2) edited samples about macros. '
            'Non-trivial = a macro whose body or argument names another header is expanded.')
    quick = 2200
    thorough = 60000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        n = st.integers(0, 60)
        leaf = st.tuples(st.sampled_from(['lit', 'call', 'var', 'type', 'obj', 'fun', 'enum', 'cast', 'member']), n).map(list)
        expr = st.recursive(leaf, lambda s: st.tuples(st.sampled_from(['mac', 'mac', 'mac', 'own', 'call', 'fun', 'cast', 'member']), n, n, s).map(list), max_leaves=2)
        top = st.tuples(st.sampled_from(['mac', 'mac', 'mac', 'own', 'fun']), n, n, expr).map(list)
        macro = st.tuples(st.sampled_from(KINDS), n).map(list)
        cond = st.tuples(st.sampled_from(['cond', 'value', 'nothing']), n, n).map(list)
        head = st.builds(lambda s, i, m: dict(spot=s, inc=i, macros=m), st.integers(0, 7), st.lists(n, max_size=2), st.lists(macro, max_size=3))
        unit = st.builds(lambda i, m, u, c, g, a: dict(inc=i, macros=m, uses=u, conds=c, config=g, at=a), st.lists(n, max_size=4), st.lists(macro, max_size=2),
                         st.lists(st.one_of(top, top, expr), max_size=4), st.lists(cond, max_size=3), st.lists(n, max_size=2), n)
        gen = st.builds(lambda h, m, a, c: dict(heads=h, main=m, assoc=a, also=c), st.lists(head, min_size=1, max_size=6), unit, st.one_of(unit, st.none()), st.sampled_from([0, 1, 1]))
        smp = corpus.cases(['*macro*', 'catch*', 'byteswap*', 'elif*', 'ifndef*', 'header_guard*', 'undef*', '*include_guard*', 'va_*', 'stdarg*', 'offsetof*', 'assert*'], exclude=corpus.SLOW)
        return st.sampled_from([gen] * 7 + [smp]).flatmap(lambda s: s)

    def execute(self, case):
        if 'sample' in case:
            return corpus.perform(self, case)
        n = len(case['heads'])
        files, names = [], set()
        for k, c in enumerate(case['heads']):
            h = simple.Head(k, c['spot'])
            f = File()
            f.path, f.spelling, f.num = h.path, h.spelling, k
            f.inc = list(dict.fromkeys(j % k for j in c['inc'])) if k else []
            f.spec = c['macros']
            f.units = False
            files.append(f)
        heads = list(files)
        units = []
        for name, spec in [('m.h', case['assoc']), ('m.cc', case['main'])]:
            if spec is None:
                continue
            f = File()
            f.path, f.spelling, f.num = name, '"%s"' % name, n + len(units)
            f.inc = list(dict.fromkeys(j % n for j in spec['inc']))
            f.spec, f.case, f.units = spec['macros'], spec, True
            f.config = sorted({j % n for j in spec['config']})
            f.first = spec['at'] % 2
            units.append(f)
        for f in heads + units:
            f.uses, f.fwds, f.users = set(), set(), set()
            # macros: (name, kind, number of another header)
            f.macros = []
            for m, (kind, j) in enumerate(f.spec):
                if kind == 'hint' and f.units:
                    kind = 'type'
                j = j % (f.num + 1) if f.num < n else j % n
                f.macros.append(('M%d_%d' % (f.num, m), kind, j, f))
            f.hints = sorted({j for _, kind, j, _ in f.macros if kind == 'hint' and j != f.num} - {j for _, kind, j, _ in f.macros if kind in ('type', 'member')})
            f.macros = [(a, 'type' if kind == 'hint' and j not in f.hints else kind, j, g) for a, kind, j, g in f.macros]

        # The order in which the preprocessor meets everything.
        defined, seen = set(), []
        state = {'config': {}}

        def use(f, j):
            if j != f.num and j < n:
                f.uses.add(j)

        def define(f):
            for name, kind, j, _ in f.macros:
                t = MACRO.get(kind)
                # Only what is a macro already, and called if it takes arguments.
                if t and kind != 'alias' and '%s%d' % (t, j) in defined:
                    use(f, j)
                defined.add(name)

        def visit(k):
            if k in seen:
                return
            f = files[k]
            seen.append(k)
            if k in state['config']:
                state['config'][k].users.add(k)
            for j in f.inc:
                visit(j)
            defined.update('%s%d' % (t, k) for t in 'OFD')
            define(f)
        for u in units:
            for k in u.config:
                state['config'].setdefault(k, u)
                if state['config'][k] is not u:
                    u.config = [x for x in u.config if x != k]
            for k in u.inc if not u.first else list(range(n)) + u.inc:
                visit(k)
            for k in range(n):
                visit(k)
            define(u)
            # What the text of the unit uses.
            u.lines = []
            deep = {}
            for k, f in enumerate(heads):
                # D<k> is another name for the first macro that takes an argument and does not glue.
                ok = [m for m in f.macros if BODIES[m[1]][1] != 'paste' and m[1] not in ('deep', 'alias', 'name')]
                deep[k] = ok[0] if ok else None
            self.labels = []

            def expand(m, user, arg, dead, outer):
                """The uses when the macro is expanded by user, in the outermost expansion of outer; returns text."""
                name, kind, j, f = m
                how = BODIES[kind][1]
                if dead < 2:
                    use(user, f.num) if f is not user else None
                    if kind != 'fun':
                        self.labels.append(kind)
                if how == 'paste':
                    i = arg[1] % n
                    if not dead:
                        use(outer, i)
                    return '%s(%d)' % (name, i)
                if dead < 2:
                    named(f, kind, j, outer, dead)
                # An argument of a macro that passes it on to one that drops it is expanded all the same.
                return '%s(%s)' % (name, text(arg, 2 if how == 'drop' else max(dead, self.dropped(m, deep)), outer))

            def named(f, kind, j, outer, dead):
                if kind in SYMBOL and not dead:
                    use(f, j)
                elif kind == 'hint' and not dead:
                    if j != outer.num:
                        outer.uses.add(j)
                    f.fwds.add(j)
                elif kind in MACRO:
                    use(f, j)

            def inner(m, outer, dead):
                # What D<j>, expanded in the body of a macro, does.
                j = m[2]
                d = deep[j]
                f = heads[j]
                if d is None:
                    return
                self.labels.append('deep ' + d[1])
                named(f, d[1], d[2], outer, dead)

            def text(e, dead, outer):
                kind, k = e[0], e[1] % n
                sub = (lambda: text(e[3], dead, outer)) if len(e) > 2 else (lambda: '2')
                if kind in ('mac', 'own'):
                    pool = [m for f in (heads if kind == 'mac' else units[:units.index(outer) + 1] + heads) for m in f.macros] if kind == 'mac' else \
                        [m for f in units[:units.index(outer) + 1] for m in f.macros] or [m for f in heads for m in f.macros]
                    if not pool:
                        return sub()
                    m = pool[(e[1] * 7 + e[2]) % len(pool)]
                    if dead < 2 and m[1] == 'deep':
                        inner(m, outer, dead)
                    return expand(m, outer, e[3], dead, outer)
                if dead < (2 if kind in ('obj', 'fun') else 1) and kind != 'lit':
                    use(outer, k)
                return {'lit': '3', 'call': 'f%d(%s)', 'var': 'v%d', 'type': '(long)sizeof(C%d)', 'obj': 'O%d', 'fun': 'F%d(%s)', 'enum': '(long)e%d', 'cast': '((t%d)(%s))',
                        'member': 'C%d::s(%s)'}[kind].replace('%d', str(k), 1).replace('%s', sub() if kind in ('call', 'fun', 'cast', 'member') else '')
            for num, e in enumerate(u.case['uses']):
                t = text(e, 0, u)
                u.lines.append('inline long u%d_%s() { return %s; }' % (num, u.path[-1], t) if u.path == 'm.h' or num % 2 else 'long u%d_%s = %s;' % (num, u.path[-1], t))
            pool = [('O%d' % k, k, True) for k in range(n)] + [('F%d' % k, k, False) for k in range(n)] + [(m[0], f.num, False) for f in heads for m in f.macros]
            for num, (kind, a, b) in enumerate(u.case['conds']):
                if kind == 'value':
                    k = a % n
                    form = VALUE[b % len(VALUE)]
                    name = 'O%d' % k
                    use(u, k)
                else:
                    name, k, _ = pool[a % len(pool)]
                    form = (CONDS if kind == 'cond' else NOTHING)[b % len(CONDS if kind == 'cond' else NOTHING)]
                    if kind == 'cond':
                        use(u, k)
                self.labels.append(kind)
                u.lines.append(form.replace('{n}', name).replace('{f}', 'f%d' % k).replace('{u}', '%d%s' % (num, u.path[-1])))
        texts = {}
        for f in heads:
            k = f.num
            d = None
            out = ['#ifndef G%d_' % k, '#define G%d_' % k]
            out += ['#ifdef CFG%d' % k, 'int g%d();' % k, '#endif']
            out += ['#include %s' % files[j].spelling for j in f.inc]
            out += ['struct C%d;' % j for j in f.hints]
            out += ['long f%d(long);' % k, 'extern long v%d;' % k, 'struct C%d { static long s(long); };' % k, 'enum E%d { e%d };' % (k, k), 'typedef long t%d;' % k,
                    '#define O%d %d' % (k, k), '#define F%d(x) ((x) + 1)' % k]
            ok = [m for m in f.macros if BODIES[m[1]][1] != 'paste' and m[1] not in ('deep', 'alias', 'name')]
            out += self.defines(f)
            out.append('#define D%d(x) %s(x)' % (k, ok[0][0]) if ok else '#define D%d(x) (x)' % k)
            texts[f.path] = '\n'.join(out + ['#endif']) + '\n'
        texts['all.h'] = '#pragma once\n' + ''.join('#include %s\n' % f.spelling for f in heads)
        for u in units:
            top = ['#pragma once'] if u.path == 'm.h' else ['#include "m.h"'] if case['assoc'] else []
            lines = ['#include %s' % files[k].spelling for k in u.inc]
            lines = ['#include "all.h"'] + lines if u.first else lines + ['#include "all.h"']
            texts[u.path] = '\n'.join(['#define CFG%d 1' % k for k in u.config] * 0 + top + ['#define CFG%d 1' % k for k in u.config] + lines + self.defines(u) + u.lines) + '\n'
        opts = ['--check_also=*'] if case['also'] else []
        reports, r = cxxgen.analyse(self, texts, FLAGS, 'm.cc', opts)
        show = lambda: simple.show(texts, r, opts)
        want_files = {u.path for u in units} | ({f.path for f in heads} | {'all.h'} if opts else set())
        need({os.path.normpath(x) for x in reports} == want_files, lambda: 'reports on %r\n%s' % (list(reports), show()), key='wrong files')
        adesired = set()
        for f in (heads if opts else []) + units:
            rep = [v for x, v in reports.items() if os.path.normpath(x) == f.path][0]
            want = {files[j].spelling for j in f.uses}
            have = {files[j].spelling for j in f.inc}
            if f.units:
                have.add('"all.h"')
                # Kept includes do not count for the associated file.
                desired = set(want)
                want |= {files[k].spelling for k in f.users if k in f.inc}
                if f is not units[0]:
                    have.add('"m.h"')
                    want = {x for x in want if x in have or x not in adesired} | {'"m.h"'}
                adesired = desired
            inc = lambda s: {'#include ' + x for x in s}
            fwd_have = {'struct C%d;' % j for j in f.hints} if not f.units else set()
            fwd_want = {'struct C%d;' % j for j in f.fwds if files[j].spelling not in want}
            w_add, w_rem, w_full = inc(want - have) | (fwd_want - fwd_have), inc(have - want) | (fwd_have - fwd_want), inc(want) | fwd_want
            if rep.correct:
                need(not w_add and not w_rem, lambda: '%s is called correct; should add %s, remove %s\n%s' % (f.path, sorted(w_add), sorted(w_rem), show()), key='correct')
            else:
                got = tuple({x[0] for x in l} for l in (rep.add, rep.remove, rep.full))
                for name, g, w in zip(('additions', 'removals', 'full list'), got, (w_add, w_rem, w_full)):
                    need(g == w, lambda: 'wrong %s on %s: unexpected %s, missing %s\n%s' % (name, f.path, sorted(g - w), sorted(w - g), show()), key=name)
        return ['also' if opts else 'plain', 'assoc' if case['assoc'] else 'single'] + sorted(set(self.labels)), bool(set(self.labels) - {'nothing', 'drop'})

    def dropped(self, m, deep):
        """Whether the macro's argument vanishes inside."""
        if m[1] == 'deep':
            d = deep[m[2]]
            return int(d is not None and BODIES[d[1]][1] == 'drop')
        return 0

    def defines(self, f):
        return ['#define ' + BODIES[kind][0].replace('@', name).replace('##', '\x01\x01').replace('#x', '\x01x').replace('#', str(j)).replace('\x01', '#') for name, kind, j, _ in f.macros]


if __name__ == '__main__':
    core.run(C18())
