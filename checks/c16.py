import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, corpus, cxxgen, fixmodel as fm, iwyurun
from vlib.core import need

INTENTS = ['include', 'include', 'fwd', 'fwd', 'fwd', 'both', 'hidden', 'fwd elsewhere']
PROVIDES = {'include', 'both', 'hidden', 'fwd elsewhere'}
FLAGS = ['-std=c++20', '-I.', '-fno-color-diagnostics']
SAMPLES = ['*typedef*', '*alias*', '*stricter*', '*return*', '*cast*', 'fn_*', '*provid*', 'virtual*', '*overrid*']

TYPES = {
    # definition, forward declaration, name, converting constructor
    'struct': ('struct T@ { int m; int f() const; static int s(); };', 'struct T@;', 'T@', False),
    'class': ('class T@ { public: T@(); int m; int f() const; static int s(); };', 'class T@;', 'T@', False),
    'conv': ('struct T@ { T@(); T@(int); int m; int f() const; static int s(); };', 'struct T@;', 'T@', True),
    'explicit': ('struct T@ { T@(); explicit T@(int); int m; int f() const; static int s(); };', 'struct T@;', 'T@', False),
    'ns': ('namespace n@ { struct T@ { T@(); T@(int); int m; int f() const; static int s(); }; }', 'namespace n@ { struct T@; }', 'n@::T@', True),
    'template': ('template <typename X> struct T@ { X m; int f() const { return 1; } static int s() { return 2; } };',
                 'template <typename X> struct T@;', 'T@<int>', False),
    'conv template': ('template <typename X> struct T@ { T@(X = 0) {} X m; int f() const { return 1; } static int s() { return 2; } };',
                      'template <typename X> struct T@;', 'T@<char>', True),
}
ALIASES = {
    'using': ('using A# = $;', 'A#'),
    'typedef': ('typedef $ A#;', 'A#'),
    'ns alias': ('namespace na# { using A# = $; }', 'na#::A#'),
    'member alias': ('struct H# { using A = $; };', 'H#::A'),
    'member typedef': ('struct H# { typedef $ A; };', 'H#::A'),
    'alias template': ('template <typename> using A# = $;', 'A#<int>'),
    'const alias': ('using A# = const $;', 'A#'),
}
ALIAS_USES = [
    ('pointer', '% * u#;', ''), ('reference parameter', 'void u#(%&);', ''), ('extern', 'extern % u#;', ''),
    ('pointer parameter', 'void u#(const % * p) {}', ''), ('value parameter', 'void u#(%);', ''),
    ('member', 'int u#(%& x) { return x.m; }', 'F'), ('method', 'int u#(%& x) { return x.f(); }', 'F'),
    ('static', 'int u#() { return %::s(); }', 'F'), ('sizeof', 'int u#[sizeof(%)];', 'F'), ('variable', 'void u#(%& x) { auto y = x; }', 'F'),
    ('new', 'void u#() { new %(); }', 'F'), ('delete', 'void u#(% * p) { delete p; }', 'F'), ('increment', 'void u#(% * p) { ++p; }', 'F'),
    ('arrow', 'int u#(% * p) { return p->m; }', 'F'), ('base', 'struct u# : % {};', 'F'), ('field', 'struct u# { % x; };', 'F'),
    ('static_assert', 'static_assert(sizeof(%) > 0, "");', 'F'), ('address of member', 'auto u# = &%::m;', 'F'),
]
FNS = {
    'function': ('$ r#();', 'r#()', True), 'ns function': ('namespace nr# { $ r#(); }', 'nr#::r#()', True),
    'method': ('struct H# { $ r(); };', 'static_cast<H#*>(nullptr)->r()', True), 'static method': ('struct H# { static $ r(); };', 'H#::r()', True),
    'virtual': ('struct H# { virtual $ r(); };', 'static_cast<H#*>(nullptr)->r()', True),
    'const function': ('const $ r#(int = 1);', 'r#()', True),
    'returns reference': ('$& r#();', 'r#()', False), 'returns pointer': ('const $ * r#();', '(*r#())', False),
}
# a member of the result counts as a use of its class (tests/cxx/badinc.cc)
FN_USES = [('call', 'void u#() { %; }', 'C'), ('member of result', 'int u#() { return %.m; }', 'T'), ('method of result', 'int u#() { return (%).f(); }', 'T'),
           ('auto from result', 'void u#() { const auto& x = %; }', 'C'), ('pass on', 'template <typename X> void v#(const X&);\nvoid u#() { v#(%); }', 'C')]
PARAMS = {
    'value': ('void q#($);', 'q#(1)'), 'const reference': ('void q#(const $&);', 'q#(1)'), 'second': ('int q#(int, $);', 'q#(2, 3)'),
    'method value': ('struct H# { void q($); };', 'static_cast<H#*>(nullptr)->q(1)'),
    'virtual parameter': ('struct H# { virtual void q(const $&); };', 'static_cast<H#*>(nullptr)->q(1)'),
    'static method': ('struct H# { static void q(const $&); };', 'H#::q(1)'),
}


class Thing:
    pass


class C16(core.Check):
    id = 'C16'
    rule = ('Cases are (1) up to 4 types of 7 kinds (with and without converting constructors, templates), up to 5 provider headers with '
            'aliases (chained), functions, methods, overriders and parameters of these types in 21 forms, the author including, '
            'forward-declaring, both or neither, and a main file with up to 8 uses of 26 forms; the advice on the main file and on the providers is computed from the '
            'authors\' intents, and applied; (2) edited samples about aliases and functions. Non-trivial = one used type is provided and another one is not.')
    quick = 1800
    thorough = 50000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        n = st.integers(0, 1023)
        item = st.tuples(n, n, n, n)
        gen = st.builds(lambda types, providers, uses, direct, assoc: dict(types=types, providers=providers, uses=uses, direct=direct, assoc=assoc),
                        st.lists(n, min_size=1, max_size=4), st.lists(st.tuples(n, st.lists(item, min_size=1, max_size=3)), min_size=1, max_size=5),
                        st.lists(st.tuples(n, n), min_size=3, max_size=8), st.lists(n, max_size=4), n)
        return st.sampled_from([gen] * 9 + [corpus.cases(SAMPLES, exclude=corpus.SLOW)]).flatmap(lambda s: s)

    def build(self, case):
        types = []
        for i, k in enumerate(case['types']):
            t = Thing()
            t.kind = sorted(TYPES)[k % len(TYPES)]
            d, f, n, t.conv = TYPES[t.kind]
            t.define, t.fwd, t.name = [x.replace('@', str(i)) for x in (d, f, n)]
            t.num, t.header = i, '"t%d.h"' % i
            types.append(t)
        items, providers = [], []
        for i, (intents, its) in enumerate(case['providers']):
            p = Thing()
            p.num, p.header, p.items, p.intent, p.ref, p.want = i, '"p%d.h"' % i, [], {}, set(), set()
            for what, which, how, base in its:
                x = Thing()
                x.num, x.provider, x.base = len(items), p, None
                x.type = types[which % len(types)]
                fam = ['alias', 'alias', 'fn', 'param', 'chain', 'override'][what % 6]
                earlier = [y for y in items if y.provider is not p and (
                    y.family == 'alias' and y.form not in ('alias template', 'const alias') if fam == 'chain' else getattr(y, 'virtual', None))]
                if fam in ('chain', 'override') and not earlier:
                    fam = 'alias'
                if fam == 'param' and not x.type.conv:
                    fam = 'fn'
                x.virtual = None
                name = x.type.name
                if fam == 'chain':
                    x.base = earlier[base % len(earlier)]
                    x.type = x.base.type
                    fam, name = 'alias', x.base.text
                    x.form = ['using', 'typedef', 'ns alias', 'member alias'][how % 4]
                elif fam == 'override':
                    x.base = earlier[base % len(earlier)]
                    x.type, x.family = x.base.type, x.base.family
                    x.form, name = 'override', x.type.name
                    x.virtual = x.base.virtual
                    x.decl = 'struct H%d : H%d { %s override; };' % (x.num, x.base.num, x.virtual.replace('$', name))
                    x.text = x.base.text.replace('H%d' % x.base.num, 'H%d' % x.num)
                    # whoever declared it first provides
                    x.author = x.base.author
                    x.byvalue = True
                    p.items.append(x)
                    items.append(x)
                    continue
                else:
                    table = dict(alias=ALIASES, fn=FNS, param=PARAMS)[fam]
                    x.form = sorted(table)[how % len(table)]
                x.family = fam
                row = dict(alias=ALIASES, fn=FNS, param=PARAMS)[fam][x.form]
                x.decl, x.text = row[0].replace('#', str(x.num)).replace('$', name), row[1].replace('#', str(x.num))
                x.byvalue = fam != 'fn' or row[2]
                if x.form == 'virtual':
                    x.virtual = '$ r()'
                elif x.form == 'virtual parameter':
                    x.virtual = 'void q(const $&)'
                x.author = x.base.author if x.base else (p, x.type)
                p.items.append(x)
                items.append(x)
            for t in types:
                p.intent[t.num] = INTENTS[(intents + 5 * t.num) % len(INTENTS)]
            providers.append(p)
        return types, providers, items

    def execute(self, case):
        if 'sample' in case:
            return corpus.perform(self, case)
        types, providers, items = self.build(case)
        files = {}
        for t in types:
            files['t%d.h' % t.num] = '#pragma once\n%s\n' % t.define
            files['hide%d.h' % t.num] = '#pragma once\n#include %s\n' % t.header
            files['fwd%d.h' % t.num] = '#pragma once\n%s\n' % t.fwd
        for p in providers:
            inc, fwd = [], []
            own = {x.type.num for x in p.items if not x.base or x.form == 'override'}
            for t in types:
                if t.num in own:
                    i = p.intent[t.num]
                    if i in ('include', 'both'):
                        inc.append('#include %s' % t.header)
                    elif i == 'hidden':
                        inc.append('#include "hide%d.h"' % t.num)
                    elif i == 'fwd elsewhere':
                        inc.append('#include "fwd%d.h"' % t.num)
                    if i in ('fwd', 'both'):
                        fwd.append(t.fwd)
            for x in p.items:
                if x.base:
                    l = '#include %s' % x.base.provider.header
                    if l not in inc:
                        inc.append(l)
            p.have = [l[9:] for l in inc]
            p.fwds = fwd
            files['p%d.h' % p.num] = '\n'.join(['#pragma once'] + inc + fwd + [x.decl for x in p.items]) + '\n'
        files['all.h'] = '#pragma once\n' + ''.join('#include %s\n' % y.header for y in types + providers)
        body, uses = [], []
        for k, (which, how) in enumerate(case['uses']):
            if which % 13 == 12:
                t = types[which % len(types)]
                u = [('direct size', 'int u#[sizeof(%)];', 'F'), ('direct pointer', '% * u#;', 'P')][how % 2]
                x = None
                text = t.name
            else:
                x = items[which % len(items)]
                t, text = x.type, x.text
                if x.family == 'param':
                    u = ('autocast', 'void u#() { %; }', 'C')
                else:
                    table = ALIAS_USES if x.family == 'alias' else FN_USES
                    u = table[how % len(table)]
                    if x.form == 'const alias' and u[0] in ('new', 'base', 'field', 'increment', 'variable'):
                        u = table[0]
            body.append(u[1].replace('#', str(100 + k)).replace('%', text))
            uses.append((x, t, u))
        files['m.cc'] = ''.join('#include %s\n' % h for h in dict.fromkeys((types + providers)[d % len(types + providers)].header for d in case['direct'])) + \
            '#include "all.h"\n' + '\n'.join(body) + '\n'
        reports, r = cxxgen.analyse(self, files, FLAGS, 'm.cc', extra=['--check_also=p*.h'])
        show = lambda: '%s\n== report\n%s' % ('\n'.join('== %s\n%s' % kv for kv in sorted(files.items()) if kv[0][0] in 'mpt'), r.text)
        need(set(reports) == {'m.cc'} | {'p%d.h' % p.num for p in providers}, lambda: 'reports on %r\n%s' % (sorted(reports), show()), key='wrong files')
        # the main file
        rep = reports['m.cc']
        have = [l[9:] for l in files['m.cc'].split('\n') if l.startswith('#include')]
        inc = have if rep.correct else rep.full_includes()
        want, why = {}, None
        ptr, provided, not_provided = set(), False, False
        for x, t, u in uses:
            if x is not None:
                want.setdefault(x.provider.header, u[0])
            full = False
            if u[2] and x is None:
                full = u[2] == 'F'
                if not full:
                    ptr.add(t.num)
            elif u[2] in ('F', 'T') or (u[2] == 'C' and x.byvalue):
                author, _ = x.author
                if not x.byvalue or u[2] == 'T' or author.intent[t.num] not in PROVIDES:
                    full = True
                else:
                    provided = True
            if full:
                want.setdefault(t.header, '%s of %s' % (u[0], t.name))
                not_provided = True
        self.compare('m.cc', inc, want, show)
        fwds = set() if rep.correct else {cxxgen.fwd_key(f) for f in rep.full_fwds()}
        if not rep.correct:
            wantf = {cxxgen.fwd_key(types[t].fwd) for t in ptr if types[t].header not in want}
            need(fwds == wantf, lambda: 'm.cc: forward declarations %r, expected %r\n%s' % (sorted(fwds), sorted(wantf), show()), key='forward declarations')
        # the providers
        for p in providers:
            rep = reports['p%d.h' % p.num]
            inc = p.have if rep.correct else rep.full_includes()
            want, ptr = {}, set()
            for x in p.items:
                if x.base:
                    want.setdefault(x.base.provider.header, x.form)
                if x.form == 'override':
                    continue
                if x.base:
                    continue
                if x.byvalue and p.intent[x.type.num] in PROVIDES:
                    want.setdefault(x.type.header, '%s of %s' % (x.form, x.type.name))
                else:
                    ptr.add(x.type.num)
            self.compare('p%d.h' % p.num, inc, want, show)
            fwds = {cxxgen.fwd_key(f) for f in (p.fwds if rep.correct else rep.full_fwds())}
            wantf = {cxxgen.fwd_key(types[t].fwd) for t in ptr if types[t].header not in want}
            need(fwds == wantf, lambda: 'p%d.h: forward declarations %r, expected %r\n%s' % (p.num, sorted(fwds), sorted(wantf), show()), key='forward declarations')
        self.settle(files, reports, r, show)
        labels = sorted({'%s: %s, %s' % (x.form, u[0], x.author[0].intent[t.num]) if x else u[0] for x, t, u in uses} | {t.kind for t in types})
        return labels, provided and not_provided

    def compare(self, name, inc, want, show):
        for h in want:
            need(h in inc, lambda: '%s: %s is needed (%s) but not listed\n%s' % (name, h, want[h], show()), key='missing include')
        for h in inc:
            need(h in want, lambda: '%s: %s is listed but not needed\n%s' % (name, h, show()), key='superfluous include')

    def settle(self, files, reports, r, show):
        root = os.path.join(self.tmp, 'p')
        status, out, exc = fm.run_main(['--nosafe_headers'], r.text, cwd=root)
        need(exc is None, lambda: 'fix_includes raised %r\n%s' % (exc, show()), key='fix_includes raised')
        ok, why = cxxgen.compiles(root, FLAGS, 'm.cc')
        need(ok, lambda: 'the program does not compile any more: %s\n%s' % (why[:1500], show()), key='does not compile')
        again, r2 = cxxgen.rerun(self, FLAGS, 'm.cc', extra=['--check_also=p*.h'])
        for n in again:
            need(again[n].correct, lambda: 'after applying the advice, IWYU still finds fault with %s:\n%s\n%s' % (n, r2.text, show()), key='not settled')


if __name__ == '__main__':
    core.run(C16())
