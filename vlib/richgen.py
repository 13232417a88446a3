"""Programs made of the whole range of C++ declarations, statements and expressions.

A piece of the catalogue is a text with holes: $C stands for a complete class, $P for
any class that has been declared, $T for a class template that takes one type, $F for a
function called without arguments, $V for an int variable, $E for an enumeration, $A for
an alias, $K for a concept, $O for a complete object type, $Y for any type, $X for an
int-valued expression, $S for statements; @ is a number of its own. The classes have all
the members m, f, sf, ty and e0. What a piece declares is available to later ones.
"""
import re

from hypothesis import strategies as st

API = 'int m = 0; int f() const { return m; } static int sf() { return 1; } using ty = int; enum en { e0 };'

# name -> (what it declares, text)
DECLS = [
    ('C', 'class C@ { public: API };'),
    ('C', 'struct C@ { API $O o; };'),
    ('C', 'struct C@ : $B { int n; };'),
    ('C', 'struct C@ : virtual public $B { $P* p = nullptr; };'),
    ('C', 'struct C@ : $T<$O> { API };'),
    ('C', 'struct C@ { API friend class $Q; friend int ff@(C@* c) { return c->m; } };'),
    ('C', 'struct C@ { API C@ operator+(const C@&) const { return *this; } operator int() const { return $X; } bool operator==(const C@&) const = default; int operator()(int a) const { return a; } int operator[](int i) { return i; } C@* operator->() { return this; } };'),
    ('C', 'struct C@ { API C@($P* p = nullptr); template <typename U> C@(U*, int); ~C@(); C@(const C@&) = default; C@& operator=(const C@&) = default; };'),
    ('C', 'struct C@ { API struct N { $O o; int q; }; class Fwd; Fwd* p; N n; template <typename T> struct M { T t; }; M<int> mi; };\nclass C@::Fwd { $O o; };'),
    ('C', 'struct C@ { API union { int u1; float u2; }; int b : 3; mutable $O o; static inline int si = $X; static constexpr int k = 4; alignas(8) char buf[k]; };'),
    ('C', 'struct C@ { API template <typename U> int tm(U u) const { return sizeof(u); } template <typename U> operator U*() const { return nullptr; } int C@::*mp = &C@::m; int (C@::*mf)() const = &C@::f; };'),
    ('C', 'struct C@ { API virtual ~C@() = default; virtual $P* vf($Y* y = nullptr) { return nullptr; } virtual int g(const $O& o) const { return 1; } };'),
    ('C', 'struct C@ { API void* operator new(decltype(sizeof(0)) n); void operator delete(void*); C@() : o() {} $O o; };'),
    ('C', 'struct C@ final { API $P* p = nullptr; [[nodiscard]] int nd($P& r) const; static $O so; };'),
    ('C', 'struct C@; \nstruct C@ { API C@* next = nullptr; $T<C@>* t = nullptr; };'),
    ('C', 'struct C@ { API C@* begin() { return this; } C@* end() { return this; } C@& operator++() { return *this; } C@& operator*() { return *this; } bool operator!=(const C@&) const { return false; } };'),
    ('C', 'struct C@ { API explicit C@(int i = 0) : m2(i) {} int m2; template <typename U = $O> auto au(U* u = nullptr) -> decltype(sizeof(U)) { return sizeof(*u); } };'),
    ('C', 'typedef struct C@_ { API } C@;'),
    ('C', 'struct { API } x@a;\nusing C@ = decltype(x@a);'),
    ('P', 'class P@;\nextern P@* x@p;\nclass P@ { int z; };'),
    ('P', 'struct P@;\nextern P@* x@p;\nstruct P@ { $O o; };'),
    ('P', 'class P@ { struct Impl; Impl* i; friend $P* pf@($Y*); };'),
    ('P', 'struct P@ { virtual int pv() = 0; virtual $P* clone() const = 0; virtual ~P@(); };'),
    ('T', 'template <typename T> struct T@ { API T* p = nullptr; using vt = T; template <typename U> using reb = T@<U>; };'),
    ('T', 'template <typename T, typename U = $T<T>> class T@ { public: API U* u = nullptr; int us() { return sizeof(U); } };'),
    ('T', 'template <typename T, int N = 3> struct T@ { API int a[N]; T* at(int i) { return nullptr; } };\ntemplate <typename T> struct T@<T*, 3> { API };\ntemplate <> struct T@<$C> { API };'),
    ('T', 'template <typename... Ts> struct T@ { API static constexpr int n = sizeof...(Ts); template <typename... Us> int g(Us*... us) { return (0 + ... + int(sizeof(us))); } };'),
    ('T', 'template <typename D> struct T@ { API int impl() { return static_cast<D*>(this)->m; } };'),
    ('T', 'template <typename T> requires (sizeof(T*) > 0) struct T@ { API T* p = nullptr; };'),
    ('T', 'template <typename T, template <typename> class TT = $W> struct T@ { API TT<T>* p = nullptr; };'),
    ('T', 'template <typename T> struct T@;\ntemplate <typename T> struct T@ { API T@() = default; T@(T*, int) {} $P* pp = nullptr; };\ntemplate <typename T> T@(T*, int) -> T@<T>;'),
    ('T', 'template <typename T> using T@ = $W<T>;'),
    ('T', 'template <typename T> struct T@ { API struct I { T* t; typename $T<T>::ty q; }; I* i = nullptr; friend int tf@(T@*) { return 1; } };\nextern template struct T@<long>;'),
    ('T', 'template <typename T, typename = void> struct T@ { API };\ntemplate <typename T> struct T@<T, decltype(void(sizeof(typename T::ty)))> { API T* t = nullptr; };'),
    ('T', 'template <typename T> class T@ { public: API static T* st; template <typename U> friend class T@; int lf() const { auto l = [this](auto x) { return x + m; }; return l(1); } };\ntemplate <typename T> T* T@<T>::st = nullptr;'),
    ('W', 'template <typename T> struct W@ { API T* w = nullptr; };'),
    ('W', 'template <typename T> class W@ : public $T<T> { public: API int x() { return this->m; } };'),
    ('F', 'int F@();'),
    ('F', 'inline int F@($P* p = nullptr) { return $X; }'),
    ('F', 'constexpr int F@() { return 2; }'),
    ('F', 'template <typename T = $O> int F@(const T* t = nullptr) { return sizeof(T); }'),
    ('F', 'int F@() noexcept(noexcept($F()));'),
    ('F', 'auto F@($Y* a = nullptr) -> decltype($F());'),
    ('F', 'inline auto F@() { $S return $X; }'),
    ('F', 'extern "C" int F@();'),
    ('F', 'static int F@($A* a = nullptr, ...) { return 0; }'),
    ('F', 'template <typename... A> int F@(A&&... a) { return (1 + ... + sizeof(a)); }'),
    ('F', 'inline int F@(const $O& o = $_{}) { return $X; }'),
    ('F', 'int F@(int (*fp)($Y*) = nullptr, int $C::*mp = nullptr);'),
    ('F', 'template <typename T = $C, typename T::ty N = 1> int F@() { if constexpr (N > 0) return T::sf(); else return $X; }'),
    ('F', 'template <$K T = $C> int F@(T* t = nullptr) requires (sizeof(T) > 0) { return 1; }'),
    ('F', 'inline int F@(auto... as) { return sizeof...(as); }'),
    ('F', 'inline int F@() try { $S return $X; } catch (const $C& c) { return c.m; } catch (...) { return 1; }'),
    ('V', 'extern int V@;'),
    ('V', 'inline int V@ = $X;'),
    ('V', 'constexpr int V@ = sizeof($O);'),
    ('V', 'static int V@ = $X;'),
    ('V', 'template <typename T> inline int VT@ = sizeof(T);\ninline int& V@ = VT@<$O>;'),
    ('V', 'inline auto L@ = [](auto x) { $S return $X; };\ninline int V@ = L@(1);'),
    ('V', 'struct SB@ { int a; $O b; };\ninline SB@ sb@;\ninline int& V@ = sb@.a;'),
    ('V', 'namespace { int V@ = 1; }'),
    ('E', 'enum E@ { E@a, E@b = sizeof($O) };'),
    ('E', 'enum class E@ : long { E@a, b };\nconstexpr auto E@a = E@::E@a;'),
    ('E', 'enum E@ : int;\nenum E@ : int { E@a = 3 };'),
    ('A', 'using A@ = $Y;'),
    ('A', 'typedef $Y A@;'),
    ('A', 'using A@ = decltype($X);'),
    ('A', 'using A@ = $T<$Y*>*;'),
    ('A', 'typedef int A@($P*, $Y*);'),
    ('A', 'using A@ = typename $T<$O>::ty;'),
    ('A', 'using A@ = __typeof__($X);'),
    ('K', 'template <typename T> concept K@ = sizeof(T) > 0;'),
    ('K', 'template <typename T> concept K@ = requires(T t) { t.f(); typename T::ty; requires sizeof(t) > 0; };'),
    ('K', 'template <typename T> concept K@ = requires(T* t) { { t->m } -> $J<int>; } || true;'),
    ('J', 'template <typename T, typename U> concept J@ = true;'),
    ('J', 'template <typename T, typename U> concept J@ = sizeof(T*) == sizeof(U*);'),
    ('', 'static_assert(sizeof($O) > 0);'),
    ('', 'namespace N@ = ns0;'),
    ('', 'namespace M@ { using namespace ns0; using ns0::z0; inline namespace v1 { struct I { $O o; }; } I i(); }'),
    ('', 'struct UD@ : $B { using $_::m; using $_::f; };\nstruct UE@ : C0 { using C0::C0; };'),
    ('', 'template struct $TI<$O>;'),
    ('', 'template <typename T> void D@(T* t) { typename T::ty x = t->m; t->f(); T::sf(); $S (void)x; }\ninline void d@($C* c) { D@(c); }'),
    ('', '[[maybe_unused]] static $O g@ = {};'),
    ('', '__attribute__((aligned(16))) inline int at@[($CE)];'),
    ('', 'int operator+($E, $C*);'),
    ('', 'bool operator<(const $C&, const $Y* );'),
    ('', 'unsigned operator""_u@(unsigned long long);\ninline unsigned lit@ = 5_u@;'),
    ('', 'template <auto V> struct NT@ {};\ninline NT@<&$D::m> nt@;\ninline NT@<$E{}> nu@;\nextern NT@<($CE)> nv@;'),
    ('', 'template <int $C::*M> struct MP@ { int g($_& c) { return c.*M; } };'),
    ('', 'template <typename T, int T::*M> struct MT@ { int g(T& c) { return c.*M; } template <int (T::*G)() const> int h(T& c) { return (c.*G)(); } };\ninline int mt@($C& c) { return MT@<$D, &$D::m>().g(*($D*)&c); }'),
    ('', 'void v@(int n, $Y* y = nullptr, $O = {});'),
    ('', 'inline void s@() { $S $S $S }'),
    ('', 'template <typename T> inline void st@(T t) { $S $S int q = sizeof(t) + $X; }\ninline void su@() { $O o{}; st@(o); }'),
    ('', 'struct DT@ { int g(this const DT@& self, int i) { return i; } static int operator()(int i) { return i; } };'),
    ('', 'template <typename... Ts> struct PK@ : Ts... { using Ts::f...; };\ninline PK@<$D> pk@;'),
    ('', 'struct EX@ { explicit(sizeof($O) > 4) EX@(int) {} consteval EX@() {} };'),
    ('', 'extern int (*arr@[3])($Y*);'),
    ('', 'auto (*ft@)($P*) -> $Y*;'.replace('auto', 'extern auto')),
    ('', 'inline thread_local $O tl@;'),
    ('', 'template <typename T> struct ON@ { template <typename U> void g(); };\ntemplate <typename T> template <typename U> void ON@<T>::g() { $S }'),
    ('', 'template <typename T> void lz@() { struct L { T* t; int g() { return sizeof(T); } } l; $S l.g(); }\ninline void lc@() { lz@<$O>(); }'),
    ('', 'class $Q;\nunion UN@ { $P* a; $C* b; $T<$P>* c; };'),
]
STMTS = [
    'int i@ = $X;', '$O o@; (void)o@;', '$O o@{}; auto p@ = &o@;', 'const auto& r@ = $C(); r@.f();', '$C* c@ = new $_; c@->m = $X; delete c@;', '$C* a@ = new $_[2]; delete[] a@;',
    'if (int i@ = $X; i@ > 1) { $S } else { }', 'for (int i@ = 0; i@ < $X; ++i@) { $S }', 'while ($X > 100) { $S break; }', 'do { } while (false);', 'switch ($X) { case $CE: break; default: $S }',
    'for (auto e@ : (int[]){ $X, 2 }) (void)e@;', '$O ar@[2]; for (auto& e@ : ar@) (void)e@;', 'auto l@ = [&] { $S return $X; }; l@();', 'auto l@ = [=, z = $X]<typename Q>(Q q) mutable { return z + sizeof(q); }; l@(1);',
    'auto l@ = [](auto&&... xs) { return (0 + ... + int(sizeof(xs))); }; l@($X, $X);', 'try { throw $C(); } catch ($C& e@) { $S } catch (...) { throw; }', 'struct B@ { int a; $O b; } b@{}; auto& [x@, y@] = b@;',
    'static_assert($CE > 0);', 'typedef $Y Td@; Td@* t@ = nullptr;', 'using namespace ns0; z0 z@; (void)z@;', 'goto l@; l@: ;', '{ using U@ = $T<$Y>; U@* u@ = nullptr; (void)u@; }', 'constexpr int k@ = $CE; int ar@[k@];',
    'if constexpr (sizeof($O) > 1) { $S }', 'extern $P& ext@; (void)&ext@;', 'class Lf@; Lf@* lf@ = nullptr;', 'struct L@ : $B { int q() { return f(); } } l@; l@.q();', 'static $O s@; (void)s@;', 'asm("");',
    '[[maybe_unused]] $O* u@ = nullptr;', '$C d@[2][3]; (void)d@[1][$CE % 3].m;', '$A* al@ = nullptr; (void)al@;', 'int $C::*m@ = &$_::m; $D d@; (void)m@;', 'auto ct@ = $T<$O>{}; (void)ct@;', 'delete ($C*)nullptr;',
    '(void)static_cast<$Y*>(nullptr);', '(void)reinterpret_cast<$P*>($X);', '(void)const_cast<const $P*>(($_*)nullptr);', '(void)($Y*)nullptr;', 'decltype($C().m) dm@ = 1; (void)dm@;', '$E en@ = $E(); switch (en@) { default: break; }', 'alignas($O) char al@[sizeof($O)]; (void)al@;',
    '__typeof__($X) ty@{}; (void)ty@;', 'int se@ = ({ int q = $X; q; }); (void)se@;', '$C x@, y@; x@ = y@;', 'auto& [h@] = *(int (*)[1])nullptr;', 'int* q@ = &$V; *q@ += $X;',
]
EXPRS = [
    '1', '$V', '$F()', 'int(sizeof($O))', 'int(sizeof($X))', '$C().f()', '$C::sf()', '$C::e0', '(($C*)nullptr ? 1 : 2)', '$C().m', '($X + $X)', '($X ? $X : 3)', '(($X), 2)', 'int($E())', 'int(alignof($O))',
    'int($T<$O>::sf())', '$T<$O>().f()', '$C::ty(4)', '[] { return 1; }()', '[](auto x) { return x + 1; }($V)', '!$X', 'int(noexcept($F()))', 'int($K<$O>)', '(requires { $C().f(); })', '(requires($C c) { c.m; { c.f() }; })',
    '(new $C)->m', '(*($C*)nullptr).f()', '(($C*)nullptr)->m', 'int(__is_base_of($C, $C))', 'int(__is_class($O))', '__builtin_constant_p($X)', '$X << 1', '-$X', '(int)$V', 'static_cast<int>($X)', 'int{$CE}', 'int(__is_trivially_copyable($O))', '_Generic($V, int: 1, default: 2)', '(int[]){1, 2}[0]', '$X == 1', 'int(sizeof($C::m))', 'int(sizeof(decltype($C())))', 'int(sizeof($T<$Y>*))',
    'int(__builtin_offsetof(ns0::z0, zm))', '"abc"[1]', '2', '$F() + $C::sf()', 'int(__is_constructible($C, $C*))',
]
CONSTS = ['1', '2', 'int(sizeof($O))', '$C::e0 + 1', 'int($K<$O>) + 1', 'int(sizeof($T<$Y>*))', 'int(alignof($O))', '(requires { typename $C::ty; }) + 1', '[] { return 3; }()']
TYPES = ['int', 'char', '$C', '$C', '$P', '$P*', '$Y*', 'const $O', '$T<$Y>', '$T<$O>', '$W<$P>', '$E', 'decltype($X)', 'int*', 'ns0::z0', '$T<$P*>', '$T<$T<$O>>', 'ns0::z0*', '$T<int (*)($P*)>', '$T<$Y*>', '$W<$T<$P>>', 'decltype($V)', 'decltype(nullptr)']
OBJECTS = ['int', 'char*', '$C', '$C', '$P*', '$T<$Y>', '$T<$O>', '$E', 'ns0::z0', '$Y*', '$W<$P>', '$T<$T<$P>>', '$C::ty', '$T<$O>::ty', 'typename $W<$O>::ty']
SEEDS = {'C': ['C0', 'C0_'], 'P': ['P0', 'C0', 'C0_', 'P0_'], 'T': ['T0', 'T0_'], 'W': ['W0'], 'F': ['F0'], 'V': ['V0'], 'E': ['E0'], 'A': ['A0'], 'K': ['K0'], 'J': ['J0']}
# each in a header of its own, all of which are in h0.h
BASE = {'ns0': 'namespace ns0 { struct z0 { int zm; }; }', 'c0': 'struct C0 { API };', 'c1': 'class C0_ { public: API };', 'p0': 'class P0;\nstruct P0_ { int pm; };', 'p1': 'class P0 { int z; };',
        't0': 'template <typename T> struct T0 { API T* p = nullptr; };', 't1': 'template <typename T> class T0_ { public: API T* q = nullptr; int n() { return sizeof(T); } };',
        'w0': 'template <typename T> struct W0 { API };', 'f0': 'int F0();', 'v0': 'extern int V0;', 'e0': 'enum E0 { E0a };', 'a0': 'using A0 = int;',
        'k0': 'template <typename T> concept K0 = sizeof(T) > 0;', 'j0': 'template <typename T, typename U> concept J0 = true;'}


def layout(text):
    """One statement or declaration per line, as people write (and fix_includes expects)."""
    return re.sub(r'(?<=[;{]) (?=\S)', '\n', re.sub(r' (?=\})', '\n', re.sub(r'\} (?=[\w$*:~\[(])', '}\n', text)))


class Gen:
    """Fills the holes of the pieces from a list of numbers."""

    def __init__(self, numbers):
        self.numbers, self.pos, self.count = numbers, 0, 0
        self.names = {k: list(v) for k, v in SEEDS.items()}
        self.used = set()
        self.alone = {}

    def pick(self, choices):
        n = self.numbers[self.pos % len(self.numbers)] + self.pos // len(self.numbers) * 7 if self.numbers else 0
        self.pos += 1
        return choices[n % len(choices)]

    def name(self, kind):
        n = self.pick(self.names[kind])
        self.used.add(n)
        return n

    def fill(self, text, depth=0):
        self.count += 1
        num = str(self.count)
        text = text.replace('API', API).replace('@', num)

        last = ['int']

        def hole(m):
            k = m.group(1)
            if k == '_':
                return last[0]
            r = last[0] = value(k)
            return r

        def value(k):
            deep = depth >= 3
            if k == 'X':
                return self.fill('1' if deep else self.pick(EXPRS), depth + 1)
            if k == 'S':
                return '' if depth >= 2 else self.fill(self.pick(STMTS), depth + 1)
            if k == 'CE':
                return self.fill(self.pick(CONSTS), depth + 1)
            if k == 'Y':
                return self.fill('ns0::z0' if deep else self.pick(TYPES), depth + 1)
            if k == 'O':
                return self.fill('int' if deep else self.pick(OBJECTS), depth + 1)
            if k == 'B':
                return self.pick([n for n in self.names['C'] if n not in self.final])
            if k == 'D':
                return 'C0'
            if k == 'Q':
                return 'Q' + num
            if k == 'TI':
                return 'W0'
            return self.name(k)
        self.final = getattr(self, 'final', set())
        return re.sub(r'\$(CE|TI|[A-Z_])', hole, text)

    def declare(self, piece):
        kind, text = piece
        n = self.count + 1
        out = self.fill(text)
        if ' final ' in text:
            self.final.add('C%d' % n)
        new = [(kind, '%s%d' % (kind, n))] if kind else []
        if kind == 'C':
            new.append(('P', 'C%d' % n))
        return out, new


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    num = st.lists(st.integers(0, 999), min_size=4, max_size=40)
    return dict(headers=[dict(pieces=draw(st.lists(st.integers(0, len(DECLS) - 1), min_size=1, max_size=6)), numbers=draw(num), inc=draw(st.lists(st.integers(0, 7), max_size=2)))
                         for _ in range(n)],
                main=dict(pieces=draw(st.lists(st.integers(0, len(DECLS) - 1), min_size=1, max_size=8)), numbers=draw(num)), assoc=draw(st.booleans()))


IN = {'C0': 'c0', 'C0_': 'c1', 'P0': 'p0', 'P0_': 'p0', 'T0': 't0', 'T0_': 't1', 'W0': 'w0', 'F0': 'f0', 'V0': 'v0', 'E0': 'e0', 'E0a': 'e0', 'A0': 'a0', 'K0': 'k0', 'J0': 'j0', 'ns0': 'ns0'}


def build(case):
    """Returns {name: text}. Headers include just what their text names; the main file includes everything."""
    files = {'b_%s.h' % k: '#pragma once\n%s\n' % layout(v.replace('API', API)) for k, v in BASE.items()}
    files['h0.h'] = '#pragma once\n' + ''.join('#include "%s"\n' % k for k in sorted(files))
    home = {n: 'b_%s.h' % h for n, h in IN.items()}
    g = Gen([0])
    names = []
    hs = case['headers']
    for i, hc in enumerate(hs + [case['main']]):
        main = i == len(hs)
        name = 'm.cc' if main else 'm.h' if case.get('assoc') and i == len(hs) - 1 else 'h%d.h' % (i + 1)
        g.numbers, g.pos = hc['numbers'], 0
        g.names = {k: list(v) for k, v in SEEDS.items()}
        for kind, n in names:
            g.names[kind].append(n)
        lines = []
        for k in hc['pieces']:
            text, new = g.declare(DECLS[k % len(DECLS)])
            lines.append(layout(text))
            for kn in new:
                names.append(kn)
                g.names[kn[0]].append(kn[1])
        text = '\n'.join(lines)
        words = set(re.findall(r'\w+', text))
        for n in words:
            m = re.match(r'[A-Z]+(\d+)', n)
            if m and n not in home and int(m.group(1)) > 0:
                home[n] = name
        need = {home[n] for n in words if n in home} - {name}
        if main:
            need = {'h0.h'} | {f for f in files if f[0] in 'hm'}
        else:
            # more or less than that
            for x in hc.get('inc', []):
                need.add(sorted(f for f in files)[x % len(files)])
        order = sorted(need, key=lambda f: (f != 'm.h', f))
        files[name] = ('' if main else '#pragma once\n') + ''.join('#include "%s"\n' % f for f in order) + text + '\n'
    return files
