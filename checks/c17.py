import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, corpus, cxxgen, fixmodel as fm, iwyurun
from vlib.core import need

FLAGS = ['-std=c++20', '-I.', '-fno-color-diagnostics']
SAMPLES = ['*templ*', '*tpl*', 'partial_spec*', 'explicit_inst*', '*default_arg*', '*variadic*', '*instant*', '*deduct*', '*concept*']

# what an argument may be: declaration in its header, forward declaration, name
ARGS = {
    'struct': ('struct T@ { int m; int f() const; static int s(); using I = int; };', 'struct T@;', 'T@'),
    'class': ('class T@ { public: T@(); ~T@(); int m; int f() const; static int s(); using I = int; };', 'class T@;', 'T@'),
    'namespace': ('namespace n@ { struct T@ { int m; int f() const; static int s(); using I = int; }; }', 'namespace n@ { struct T@; }', 'n@::T@'),
    'derived': ('struct B@ { int m; int f() const; static int s(); using I = int; };\nstruct T@ : B@ { T@(); };', 'struct T@;', 'T@'),
}
# members of a class template: text ($ is the parameter, # a number), need of the class, and a call with the need of its body
# a need is P (names it), F (needs its definition) or O (as another template does)
CLASS = {
    'field': ('$ x#;', 'F'), 'array': ('$ x#[2];', 'F'), 'size': ('char x#[sizeof($)];', 'F'), 'assert': ('static_assert(sizeof($) > 0, "");', 'F'),
    'enumerator': ('enum { x# = sizeof($) };', 'F'), 'member type': ('typename $::I x#;', 'F'), 'pair of fields': ('struct { $ x#; } y#;', 'F'),
    'base': (': $', 'F'),
    'pointer': ('$ * x#;', 'P'), 'reference parameter': ('void x#(const $&);', 'P'), 'value parameter': ('void x#($);', 'P'), 'result': ('$ x#();', 'P'),
    'alias': ('using x# = $;', 'P'), 'pointer alias': ('typedef const $ * x#;', 'P'), 'pointer function pointer': ('$ * (*x#)($&);', 'P'), 'member pointer': ('int $::*x#;', 'P'),
    'friend': ('friend $;', 'P'), 'static pointer': ('static $ * x#;', 'P'), 'static': ('static $ x#;', 'P'), 'nothing': ('int x#;', 'P'),
    'body': ('int x#() { return sizeof($); }', 'P'), 'nested class': ('struct x# { $ y; };', 'P'), 'member template': ('template <typename Z> void x#(Z, $&) { sizeof($); }', 'P'),
    'default argument': ('void x#(int = sizeof($));', 'P'),
}
METHODS = {
    'size': ('int z() { return sizeof($); }', 'F'), 'static call': ('int z() { return $::s(); }', 'F'), 'member': ('int z($ * p = nullptr) { return p->m; }', 'F'),
    'method': ('int z() { $ * p = nullptr; return p->f(); }', 'F'), 'new': ('void z() { new $; }', 'F'), 'delete': ('void z($ * p = nullptr) { delete p; }', 'F'),
    'variable': ('void z() { $ x; }', 'F'), 'increment': ('void z($ * p = nullptr) { ++p; }', 'F'), 'lambda': ('void z() { auto l = [] { return sizeof($); }; l(); }', 'F'),
    'local class': ('void z() { struct L { $ x; } l; }', 'F'), 'member type': ('void z() { typename $::I i; }', 'F'), 'in condition': ('void z() { if (false) { $ x; } }', 'F'),
    'other method': ('void z() { zz(); }\nvoid zz() { $ x; }', 'F'), 'static variable': ('void z() { static $ x; }', 'F'),
    'pointer': ('void z() { $ * p = nullptr; }', 'P'), 'nothing': ('void z() {}', 'P'), 'parameter': ('void z($ * = nullptr) {}', 'P'), 'pass on': ('$ * z($ * p = nullptr) { return p; }', 'P'),
    'null': ('bool z() { return static_cast<$ *>(nullptr) == nullptr; }', 'P'), 'discarded': ('void z() { if constexpr (false) { $ x; } }', 'P'),
    'reference': ('void z($ * p = nullptr) { $& r = *p; }', 'P'),
}
FUNCTIONS = {
    'size': ('template <typename X> int g@() { return sizeof(X); }', 'F'), 'static call': ('template <typename X> int g@() { return X::s(); }', 'F'),
    'variable': ('template <typename X> void g@() { X x; }', 'F'), 'member': ('template <typename X> int g@(X* p = nullptr) { return p->m; }', 'F'),
    'method': ('template <typename X> int g@(X* p = nullptr) { return p->f(); }', 'F'), 'array': ('template <typename X> void g@() { X x[2]; }', 'F'),
    'size in another': ('template <typename Y> int gg@() { return sizeof(Y); }\ntemplate <typename X> int g@() { return gg@<X>(); }', 'F'),
    'abbreviated': ('int g@(const auto* p) { return p->m; }', 'F'),
    'pack size': ('template <typename... X> int g@() { return (0 + ... + sizeof(X)); }', 'F'), 'pack member': ('template <typename... X> int g@() { return (0 + ... + X::s()); }', 'F'),
    'pack passed on': ('template <typename... Y> int gg@() { return (0 + ... + sizeof(Y)); }\ntemplate <typename... X> int g@() { return gg@<int, X...>(); }', 'F'),
    'pack count': ('template <typename... X> int g@() { return sizeof...(X); }', 'P'), 'pack pointers': ('template <typename... X> int g@() { return (0 + ... + sizeof(X*)); }', 'P'),
    'variable size': ('template <typename X> inline int g@ = sizeof(X);', 'F'), 'variable object': ('template <typename X> X g@;', 'F'), 'variable trait': ('template <typename X> constexpr bool g@ = __is_empty(X);', 'F'),
    'variable of function': ('template <typename Y> int gg@() { return sizeof(Y); }\ntemplate <typename X> inline int g@ = gg@<X>();', 'F'),
    'variable of class': ('template <typename Y> struct G@ { char c[sizeof(Y)]; };\ntemplate <typename X> inline int g@ = sizeof(G@<X>);', 'F'),
    'size by variable': ('template <typename Y> inline int gv@ = sizeof(Y);\ntemplate <typename X> int g@() { return gv@<X>; }', 'F'),
    'variable pointer': ('template <typename X> X* g@ = nullptr;', 'P'), 'variable same': ('template <typename X> constexpr bool g@ = __is_same(X, int);', 'P'),
    'variable pack': ('template <typename... X> inline int g@ = (0 + ... + sizeof(X));', 'F'),
    'pointer': ('template <typename X> void g@(X* p = nullptr) {}', 'P'), 'nothing': ('template <typename X> void g@() {}', 'P'),
    'declared': ('template <typename X> X* g@();', 'P'), 'pass on': ('template <typename X> X* g@(X* p = nullptr) { return p; }', 'P'),
}
PACK = {
    'pack bases': (': X...', '', 'F'), 'pack size': ('', 'char c[(1 + ... + sizeof(X))];', 'F'), 'pack count': ('', 'char c[1 + sizeof...(X)];', 'P'),
    'pack of pointers': ('', 'char c[(1 + ... + sizeof(X*))];', 'P'), 'pack passed on': ('', 'template <typename... Z> struct I { char c[(1 + ... + sizeof(Z))]; };\n  I<char, X...> i;', 'F'),
    'pack parameters': ('', 'void y(X&...);', 'P'), 'pack enumerator': ('', 'enum { e = (1 + ... + sizeof(X)) };', 'F'),
}


class Thing:
    pack = False


class C17(core.Check):
    id = 'C17'
    rule = ('Cases are (1) up to 4 classes and up to 4 class, function and variable templates, some with packs, each in a header, with bodies of up to 3 of 65 forms (using the parameter fully, '
            'by name or through another template, in a class, a method or a function), and a main file with up to 6 instantiations of 10 forms with these classes, aliases of them and templates '
            'of them as arguments; (2) edited samples about templates. The expected includes and forward declarations follow from the bodies instantiated. '
            'Non-trivial = one argument is needed fully and another one is not.')
    quick = 1800
    thorough = 50000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        n = st.integers(0, 1023)
        tpl = st.tuples(n, st.lists(st.tuples(n, n), max_size=3), n, n)
        gen = st.builds(lambda types, tpls, uses, direct: dict(types=types, tpls=tpls, uses=uses, direct=direct),
                        st.lists(n, min_size=2, max_size=4), st.lists(tpl, min_size=1, max_size=4),
                        st.lists(st.tuples(n, n, n, n), min_size=3, max_size=6), st.lists(n, max_size=4))
        return st.sampled_from([gen] * 9 + [corpus.cases(SAMPLES, exclude=corpus.SLOW)]).flatmap(lambda s: s)

    def build(self, case):
        types, tpls = [], []
        for i, k in enumerate(case['types']):
            t = Thing()
            t.kind = sorted(ARGS)[k % len(ARGS)]
            t.define, t.fwd, t.name = [x.replace('@', str(i)) for x in ARGS[t.kind]]
            t.header = '"t%d.h"' % i
            t.alias = [None, None, 'include', 'fwd'][k // 7 % 4]
            t.alias_header, t.alias_name = '"a%d.h"' % i, 'A%d' % i
            types.append(t)
        for i, (kind, members, method, second) in enumerate(case['tpls']):
            p = Thing()
            p.num, p.header, p.includes, p.second, p.fwds = i, '"d%d.h"' % i, [], None, []
            if kind % 4 == 3:
                p.what = 'function'
                form = sorted(FUNCTIONS)[method % len(FUNCTIONS)]
                text, p.need = FUNCTIONS[form]
                p.text = text.replace('@', str(i))
                p.form = 'function: ' + form
                p.variable = form.startswith('variable')
                p.abbreviated = form == 'abbreviated'
            elif kind % 16 == 2:
                p.what, p.pack = 'class', True
                form = sorted(PACK)[method % len(PACK)]
                base, text, p.class_need = PACK[form]
                p.forms, p.mform, p.second_need = [form], ['size', 'pointer'][second % 2], 'P'
                p.method_need = {'X': 'FP'[second % 2], 'Y': 'P'}
                p.inherits = bool(base)
                method = 'int z() { return (0 + ... + sizeof(X)); }' if second % 2 == 0 else 'int z() { return (0 + ... + sizeof(X*)); }'
                p.text = 'template <typename... X> struct D%d %s {\n  %s\n  %s\n};' % (i, base, text, method)
                p.fwd = 'template <typename... X> struct D%d;' % i
            else:
                p.what = 'class'
                base, body, p.class_need, p.second_need, p.forms = '', [], 'P', 'P', []
                if second % 3 == 1:
                    # a second parameter, mostly with a default of which the author may provide the definition
                    p.second = types[second // 3 % len(types)]
                    p.default = ['include', 'include', 'fwd', 'none'][second // 16 % 4]
                    if p.default == 'include':
                        p.includes.append(p.second.header)
                    elif p.default == 'fwd':
                        p.fwds.append(p.second.fwd)
                for j, (k, o) in enumerate(members):
                    classes = [q for q in tpls if q.what == 'class' and not q.second]
                    x = 'Y' if p.second and o // 128 % 2 else 'X'
                    if k % 6 == 5 and classes:
                        q = classes[o % len(classes)]
                        p.includes.append(q.header)
                        if o // 8 % 3 == 2:
                            body.append('D%d<X>* o%d;' % (q.num, j))
                            p.forms.append('pointer to other')
                        else:
                            body.append('D%d<X> o%d;' % (q.num, j))
                            p.forms.append('other')
                            if q.class_need == 'F':
                                p.class_need = 'F'
                        continue
                    form = sorted(CLASS)[k % len(CLASS)]
                    text, nd = CLASS[form]
                    if form == 'base':
                        if base:
                            continue
                        base = text.replace('$', x)
                    else:
                        body.append(text.replace('$', x).replace('#', str(j)))
                    p.forms.append(form)
                    if nd == 'F' and x == 'X':
                        p.class_need = 'F'
                    elif nd == 'F':
                        p.second_need = 'F'
                p.mform = sorted(METHODS)[method % len(METHODS)]
                text, nd = METHODS[p.mform]
                x = 'Y' if p.second and method // 64 % 2 else 'X'
                p.method_need = {'X': 'P', 'Y': 'P', x: nd}
                body.append(text.replace('$', x))
                p.inherits = bool(base)
                params = 'typename X'
                if p.second:
                    params += ', typename Y' + (' = ' + p.second.name if p.default != 'none' else '')
                p.text = 'template <%s> struct D%d %s {\n%s\n};' % (params, i, base, '\n'.join('  ' + b for b in body))
                p.fwd = 'template <%s> struct D%d;' % (params, i)
            tpls.append(p)
        return types, tpls

    def execute(self, case):
        if 'sample' in case:
            return corpus.perform(self, case)
        types, tpls = self.build(case)
        files = {}
        for i, t in enumerate(types):
            files['t%d.h' % i] = '#pragma once\n%s\n' % t.define
            if t.alias:
                files['a%d.h' % i] = '#pragma once\n%s\nusing %s = %s;\n' % ('#include ' + t.header if t.alias == 'include' else t.fwd, t.alias_name, t.name)
        for p in tpls:
            files['d%d.h' % p.num] = '#pragma once\n' + ''.join('#include %s\n' % h for h in dict.fromkeys(p.includes)) + ''.join(f + '\n' for f in p.fwds) + p.text + '\n'
        headers = [t.header for t in types] + [t.alias_header for t in types if t.alias] + [p.header for p in tpls]
        files['all.h'] = '#pragma once\n' + ''.join('#include %s\n' % h for h in headers)
        classes = [p for p in tpls if p.what == 'class' and not p.second]
        full, named = {}, {}

        def name(arg):
            """The arguments and whether an alias is spelled."""
            if arg[0] == 'class':
                return arg[1].name
            if arg[0] == 'alias':
                return arg[1].alias_name
            return 'D%d<%s>' % (arg[1].num, name(arg[2]))

        def mention(arg, why):
            if arg[0] == 'class':
                named.setdefault(arg[1].header, arg[1].fwd)
            elif arg[0] == 'alias':
                full.setdefault(arg[1].alias_header, why)
            else:
                # templates with optional parameters are not forward-declared
                (full if arg[1].pack else named).setdefault(arg[1].header, why if arg[1].pack else arg[1].fwd)
                mention(arg[2], why)

        def define(arg, why):
            mention(arg, why)
            if arg[0] == 'class':
                full.setdefault(arg[1].header, why)
            elif arg[0] == 'alias':
                if arg[1].alias == 'fwd':
                    full.setdefault(arg[1].header, why)
            else:
                full.setdefault(arg[1].header, why)
                if arg[1].class_need == 'F':
                    define(arg[2], why)

        def provide(arg, why):
            # the author of an alias provides what it is made of, but for other aliases
            mention(arg, why)
            if arg[0] != 'alias':
                full.setdefault(arg[1].header, why)
            if arg[0] == 'template':
                provide(arg[2], why)
        body, labels, some_full, some_named = [], [], 0, 0
        for k, (which, how, arg, inner) in enumerate(case['uses']):
            p = tpls[which % len(tpls)]
            # arguments of one type cannot be told apart
            pool = [x for x in types if x is not p.second]
            if not pool:
                continue
            t = pool[arg % len(pool)]
            a = ('alias', t) if t.alias and arg // 8 % 3 == 0 else ('class', t)
            if arg // 32 % 4 == 3 and classes:
                q = classes[inner % len(classes)]
                # members of T are not members of D<T>
                if not any(f in ('member type', 'base', 'pack bases') for f in (p.forms if p.what == 'class' else [])) and 'other' not in (p.forms if p.what == 'class' else []) \
                        and not q.inherits and q.class_need != 'x' and (p.mform if p.what == 'class' else p.form.split(': ')[1]) not in ('static call', 'member', 'method', 'member type', 'abbreviated', 'pack member'):
                    a = ('template', q, a)
            n, u = name(a), 'u%d' % k
            if p.what == 'function':
                why = '%s<%s>' % (p.form, n)
                full.setdefault(p.header, why)
                if p.variable:
                    body.append('void %s() { (void)g%d<%s>; }' % (u, p.num, n))
                elif p.abbreviated:
                    body.append('int %s(%s* p) { return g%d(p); }' % (u, n, p.num))
                else:
                    body.append('void %s() { g%d<%s>(); }' % (u, p.num, n))
                nd = p.need
            else:
                d, b = 'D%d<%s>' % (p.num, n), None
                if p.second and (p.default == 'none' or inner // 16 % 2):
                    pool = [x for x in types if x is not p.second and x is not t]
                    if not pool:
                        continue
                    v = pool[inner // 32 % len(pool)]
                    b = ('alias', v) if v.alias and inner // 4 % 2 else ('class', v)
                    d = 'D%d<%s, %s>' % (p.num, n, name(b))
                table = [('variable', 'extern %s v%s;\nint %s = sizeof(v%s);' % (d, u, u, u), 'C'), ('size', 'int %s[sizeof(%s)];' % (u, d), 'C'), ('field', 'struct %s { %s x; };' % (u, d), 'C'),
                         ('method', 'void %s(%s& x) { x.z(); }' % (u, d), 'CM'), ('arrow', 'void %s(%s* x) { x->z(); }' % (u, d), 'CM'), ('explicit', 'static_assert(sizeof(%s) > 0, "");' % d, 'C'),
                         ('pointer', '%s* %s;' % (d, u), 'P'), ('reference', 'void %s(%s&);' % (u, d), 'P'), ('alias', 'using %s = %s;' % (u, d), 'A'), ('base', 'struct %s : %s {};' % (u, d), 'C')]
                label, text, what = table[how % len(table)]
                body.append(text)
                why = '%s of %s' % (label, d)
                labels.append(label)
                nd = 'P'
                if b:
                    mention(b, why)
                if what == 'P':
                    mention(a, why)
                    if p.second and p.default != 'none' or p.pack:
                        # declarations with default arguments cannot be repeated, those with packs are not
                        full.setdefault(p.header, why)
                    else:
                        named.setdefault(p.header, p.fwd)
                    continue
                full.setdefault(p.header, why)
                if what == 'A':
                    provide(a, why)
                    if b:
                        provide(b, why)
                    continue
                if p.second and (p.second_need == 'F' or 'M' in what and p.method_need['Y'] == 'F'):
                    if b:
                        define(b, why)
                    elif p.default == 'fwd':
                        full.setdefault(p.second.header, why)
                if p.class_need == 'F' or 'M' in what and p.method_need['X'] == 'F':
                    nd = 'F'
                labels += [f + ' ' + a[0] for f in p.forms] + (['method ' + p.mform + ' ' + a[0]] if 'M' in what else [])
            if nd == 'F':
                define(a, why)
                some_full += 1
            else:
                mention(a, why)
                some_named += 1
        files['m.cc'] = ''.join('#include %s\n' % h for h in dict.fromkeys(headers[d % len(headers)] for d in case['direct'])) + '#include "all.h"\n' + '\n'.join(body) + '\n'
        reports, r = cxxgen.analyse(self, files, FLAGS, 'm.cc')
        show = lambda: '%s\n== report\n%s' % ('\n'.join('== %s\n%s' % kv for kv in sorted(files.items()) if kv[0][0] in 'mpatd' and kv[0] != 'all.h'), r.text)
        need(set(reports) == {'m.cc'}, lambda: 'reports on %r\n%s' % (sorted(reports), show()), key='wrong files')
        rep = reports['m.cc']
        have = [l[9:] for l in files['m.cc'].split('\n') if l.startswith('#include')]
        inc = have if rep.correct else rep.full_includes()
        for h in full:
            need(h in inc, lambda: '%s is needed (%s) but not listed\n%s' % (h, full[h], show()), key='missing include')
        for h in inc:
            need(h in full, lambda: '%s is listed but not needed\n%s' % (h, show()), key='superfluous include')
        fwds = set() if rep.correct else {cxxgen.fwd_key(f) for f in rep.full_fwds()}
        wantf = {cxxgen.fwd_key(f) for h, f in named.items() if h not in full}
        need(fwds == wantf, lambda: 'forward declarations %r, expected %r\n%s' % (sorted(fwds), sorted(wantf), show()), key='forward declarations')
        root = os.path.join(self.tmp, 'p')
        status, out, exc = fm.run_main(['--nosafe_headers'], r.text, cwd=root)
        need(exc is None, lambda: 'fix_includes raised %r\n%s' % (exc, show()), key='fix_includes raised')
        ok, why = cxxgen.compiles(root, FLAGS, 'm.cc')
        need(ok, lambda: 'the program does not compile any more: %s\n%s' % (why[:1500], show()), key='does not compile')
        again, r2 = cxxgen.rerun(self, FLAGS, 'm.cc')
        need(again['m.cc'].correct, lambda: 'after applying the advice, IWYU still finds fault:\n%s\n%s' % (r2.text, show()), key='not settled')
        return sorted(set(labels)), bool(some_full and some_named)


if __name__ == '__main__':
    core.run(C17())
