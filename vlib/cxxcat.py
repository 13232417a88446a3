"""The catalogue of C++ entities and of the ways to use them.

Each kind: decl (text in its header; @ = the entity's number), name, and uses:
(label, need, text).  need is 'F' (the header must be included) or 'P' (a
declaration suffices).  In texts {q} is the qualified name, {p} the namespace
prefix ('a::b::' or ''), @ the entity's number and # the number of the use.
`fwd` is how the entity is forward-declared, if it can be.
"""

CLASS_USES = [
    # a declaration suffices
    ('ptr param', 'P', 'void u#({q}* p);'),
    ('ref param', 'P', 'void u#(const {q}& p);'),
    ('rvalue ref param', 'P', 'void u#({q}&& p);'),
    ('extern ptr', 'P', 'extern {q}* u#;'),
    ('ptr var', 'P', '{q}* u# = nullptr;'),
    ('ptr return', 'P', '{q}* u#();'),
    ('ref return', 'P', '{q}& u#();'),
    ('ptr field', 'P', 'struct U# {{ {q}* f; }};'),
    ('ref field', 'P', 'struct U# {{ {q}& f; }};'),
    ('ptr ptr', 'P', 'void u#({q}** p) {{ (void)*p; }}'),
    ('ptr compare', 'P', 'bool u#({q}* p, {q}* q) {{ return p == q; }}'),
    ('ptr copy', 'P', 'void u#({q}* p) {{ {q}* l = p; (void)l; }}'),
    ('ptr to void', 'P', 'void* u#({q}* p) {{ return p; }}'),
    ('sizeof ptr', 'P', 'int u# = sizeof({q}*);'),
    ('ref pass on', 'P', 'void w#({q}& p); void u#({q}& p) {{ w#(p); }}'),
    ('fn ptr', 'P', 'void (*u#)({q}*);'),
    ('method ptr param', 'P', 'struct U# {{ void f({q}* p); {q}& g(); }};'),
    ('array of ptr', 'P', '{q}* u#[3];'),
    ('member fn template', 'P', 'template <typename T> struct U# {{ void f({q}* p); }};'),
    ('ptr static_cast', 'P', '{q}* u#(void* p) {{ return static_cast<{q}*>(p); }}'),
    ('reinterpret_cast', 'P', '{q}* u#(long p) {{ return reinterpret_cast<{q}*>(p); }}'),
    ('lambda param', 'P', 'auto u# = []({q}* p) {{ return p == nullptr; }};'),
    ('default ptr arg', 'P', 'void u#(const {q}* p = nullptr);'),
    ('address of ref', 'P', '{q}* u#({q}& p) {{ return &p; }}'),
    ('const_cast', 'P', '{q}* u#(const {q}* p) {{ return const_cast<{q}*>(p); }}'),
    ('ptr to ptr template', 'P', 'template <typename T> T* id#(T* t) {{ return t; }} void u#({q}* p) {{ id#(p); }}'),
    ('noexcept fn', 'P', 'void u#({q}* p) noexcept;'),
    # the definition is needed
    ('var', 'F', '{q} u#;'),
    ('local var', 'F', 'void u#() {{ {q} l; (void)l; }}'),
    ('static local', 'F', '{q}& u#() {{ static {q} l; return l; }}'),
    ('member', 'F', 'int u#({q}* p) {{ return p->m; }}'),
    ('member of ref', 'F', 'int u#(const {q}& p) {{ return p.m; }}'),
    ('method', 'F', 'int u#({q}* p) {{ return p->f(1); }}'),
    ('method ptr', 'F', 'auto u# = &{q}::f;'),
    ('field ptr', 'F', 'auto u# = &{q}::m;'),
    ('static method', 'F', 'int u#() {{ return {q}::sf(); }}'),
    ('static member', 'F', 'int u#() {{ return {q}::s; }}'),
    ('class constant', 'F', 'int u# = {q}::K;'),
    ('sizeof', 'F', 'int u# = sizeof({q});'),
    ('sizeof deref', 'F', 'int u#({q}* p) {{ return sizeof(*p); }}'),
    ('alignof', 'F', 'int u# = alignof({q});'),
    ('base', 'F', 'struct U# : {q} {{}};'),
    ('field', 'F', 'struct U# {{ {q} f; }};'),
    ('array', 'F', '{q} u#[2];'),
    ('new', 'F', '{q}* u#() {{ return new {q}; }}'),
    ('new array', 'F', '{q}* u#() {{ return new {q}[3]; }}'),
    ('delete', 'F', 'void u#({q}* p) {{ delete p; }}'),
    ('delete array', 'F', 'void u#({q}* p) {{ delete[] p; }}'),
    ('ptr increment', 'F', '{q}* u#({q}* p) {{ return ++p; }}'),
    ('ptr postdecrement', 'F', 'void u#({q}* p) {{ p--; }}'),
    ('ptr plus assign', 'F', 'void u#({q}* p) {{ p += 2; }}'),
    ('discarded result', 'F', '{q} w#(); void u#() {{ w#(); }}'),
    ('ptr plus', 'F', '{q}* u#({q}* p, int i) {{ return p + i; }}'),
    ('ptr difference', 'F', 'long u#({q}* p, {q}* q) {{ return p - q; }}'),
    ('ptr index', 'F', '{q}& u#({q}* p) {{ return p[1]; }}'),
    ('assign', 'F', 'void u#({q}& p, {q}& q) {{ p = q; }}'),
    ('copy', 'F', 'void u#({q}& p) {{ {q} l(p); (void)l; }}'),
    ('throw', 'F', 'void u#() {{ throw {q}(); }}'),
    ('catch', 'F', 'void u#() {{ try {{ }} catch (const {q}& e) {{ }} }}'),
    ('catch value', 'F', 'void u#() {{ try {{ }} catch ({q} e) {{ }} }}'),
    ('nested type', 'F', '{q}::N* u#;'),
    ('nested value', 'F', '{q}::N u#;'),
    ('by value def', 'F', 'int u#({q} p) {{ return 0; }}'),
    ('return value def', 'F', '{q} u#() {{ return {q}(); }}'),
    ('explicit ctor call', 'F', 'void u#() {{ {q}(); }}'),
    ('brace init', 'F', 'void u#() {{ {q}{{}}; }}'),
    ('capture by value', 'F', 'void u#({q}& p) {{ auto l = [p]() {{}}; (void)l; }}'),
    ('dtor call', 'F', 'void u#({q}* p) {{ p->~C@(); }}'),
    ('auto member', 'F', 'auto u#({q}* p) {{ return p->m; }}'),
    ('temp in condition', 'F', 'bool u#() {{ return {q}().m == 1; }}'),
    ('is_pod trait', 'F', 'bool u# = __is_trivially_copyable({q});'),
    ('own template arg value', 'F', 'template <typename T> struct H# {{ T t; }}; H#<{q}> u#;'),
    ('member in template body', 'F', 'template <typename T> int g#(T* t) {{ return t->m; }} int u#({q}* p) {{ return g#(p); }}'),
    ('using ctor', 'F', 'struct U# : {q} {{ using {q}::C@; }};'),
    ('override', 'F', 'struct U# : {q} {{ int v() override {{ return 2; }} }};'),
    ('dynamic_cast', 'F', '{q}* u#(void* v, {q}* p) {{ return v ? p : dynamic_cast<{q}*>(p->self()); }}'),
    ('upcast void dyn', 'F', 'void* u#({q}* p) {{ return dynamic_cast<void*>(p); }}'),
    ('implicit ctor', 'F', 'void w#(const {q}&); void u#() {{ w#(1); }}'),
    ('conversion op', 'F', 'double u#({q}& p) {{ return p; }}'),
    ('range for', 'F', 'void u#({q}& p) {{ for (int i : p) (void)i; }}'),
    ('member operator', 'F', 'int u#({q}& p) {{ return p[1] + p(2); }}'),
    ('arrow operator', 'F', 'int u#({q}& p) {{ return p->m; }}'),
    ('explicit instantiation arg', 'F', 'template <typename T> struct X# {{ int n = sizeof(T); }}; template struct X#<{q}>;'),
    ('out of line def', 'F', 'int {q}::o() {{ return 1; }}'),
    ('structured binding', 'F', 'int u#({q}::B b) {{ auto [x, y] = b; return x + y; }}'),
]

KINDS = {
    'class': dict(
        decl='class C@ {\n public:\n  C@();\n  C@(int);\n  virtual ~C@();\n  int m;\n  int f(int);\n  int o();\n  virtual int v();\n'
             '  C@* self();\n  static int sf();\n  static int s;\n  enum { K = 1 };\n  struct N { int x; };\n'
             '  struct B { int x; int y; };\n  operator double();\n  int* begin();\n  int* end();\n  int operator[](int);\n'
             '  int operator()(int);\n  C@* operator->();\n};',
        name='C@', fwd='class C@;', uses=CLASS_USES),
    'struct': dict(
        decl='struct S@ {\n  int a;\n  double b;\n};', name='S@', fwd='struct S@;',
        uses=[('ptr', 'P', 'void u#({q}* p);'), ('struct ptr field', 'P', 'struct U# {{ const {q}* f; }};'),
              ('aggregate', 'F', '{q} u# = {{1, 2.0}};'), ('designated', 'F', '{q} u# = {{.a = 1}};'),
              ('member', 'F', 'int u#({q}* p) {{ return p->a; }}'), ('structured', 'F', 'int u#() {{ auto [x, y] = {q}(); return x; }}'),
              ('copy', 'F', 'void u#({q}* p, {q}* q) {{ *p = *q; }}')]),
    'union': dict(
        decl='union Y@ {\n  int a;\n  float b;\n};', name='Y@', fwd='union Y@;',
        uses=[('ptr', 'P', 'void u#({q}* p);'), ('ref', 'P', '{q}& u#({q}& p) {{ return p; }}'),
              ('member', 'F', 'int u#({q}* p) {{ return p->a; }}'), ('var', 'F', '{q} u#;')]),
    'enum': dict(
        decl='enum E@ {\n  e@a,\n  e@b = 4\n};', name='E@', fwd=None,
        uses=[('var', 'F', '{q} u#;'), ('enumerator', 'F', 'int u# = {p}e@a;'), ('qualified enumerator', 'F', 'int u# = {q}::e@b;'),
              ('param', 'F', 'void u#({q} p);'), ('case', 'F', 'void u#(int i) {{ switch (i) {{ case {p}e@a: break; }} }}'),
              ('cast', 'F', 'auto u# = static_cast<{q}>(1);'), ('array size', 'F', 'int u#[{p}e@b];'),
              ('template arg', 'F', 'template <int N> struct U# {{}}; U#<{p}e@b> u#;')]),
    'enum class': dict(
        decl='enum class D@ {\n  x,\n  y\n};', name='D@', fwd=None,
        uses=[('enumerator', 'F', 'auto u# = {q}::x;'), ('compare', 'F', 'bool u#({q} p) {{ return p == {q}::y; }}'),
              ('case', 'F', 'int u#({q} p) {{ switch (p) {{ case {q}::x: return 1; default: return 0; }} }}'),
              ('default arg', 'F', 'void u#({q} p = {q}::x);')]),
    'function': dict(
        decl='int fn@(int x = 0, int y = 0);', name='fn@', fwd=None,
        uses=[('call', 'F', 'int u#() {{ return {q}(1); }}'), ('default arg call', 'F', 'int u# = {q}();'),
              ('address', 'F', 'int (*u#)(int, int) = &{q};'), ('decay', 'F', 'auto* u# = {q};'),
              ('decltype', 'F', 'decltype({q}(1)) u#;'), ('sizeof', 'F', 'int u# = sizeof({q}(1));'),
              ('in lambda', 'F', 'auto u# = [] {{ return {q}(2); }};'), ('in ctor init', 'F', 'struct U# {{ int i; U#() : i({q}()) {{}} }};'),
              ('default member init', 'F', 'struct U# {{ int i = {q}(); }};'), ('as default arg', 'F', 'void u#(int i = {q}());'),
              ('in template', 'F', 'template <typename T> int u#() {{ return {q}(sizeof(T)); }}'),
              ('noexcept operand', 'F', 'bool u# = noexcept({q}());'), ('in condition', 'F', 'void u#() {{ if (int i = {q}(3)) (void)i; }}'),
              ('using decl', 'F', None), ('template arg', 'F', 'template <int (*F)(int, int)> struct U# {{}}; U#<{q}> u#;'),
              ('return type trailing', 'F', 'auto u#() -> decltype({q}()) {{ return 1; }}'),
              ('definition', 'F', 'int {q}(int x, int y) {{ return x + y; }}')]),
    'inline function': dict(
        decl='inline int il@(int x) { return x + 1; }', name='il@', fwd=None,
        uses=[('call', 'F', 'int u# = {q}(1);'), ('nested call', 'F', 'int u#() {{ return {q}({q}(2)); }}')]),
    'constexpr function': dict(
        decl='constexpr int ce@(int x) { return x * 2; }', name='ce@', fwd=None,
        uses=[('static_assert', 'F', 'static_assert({q}(2) == 4, "");'), ('array bound', 'F', 'int u#[{q}(2)];'),
              ('template arg', 'F', 'template <int N> struct U# {{}}; U#<{q}(3)> u#;'), ('if constexpr', 'F',
               'void u#() {{ if constexpr ({q}(1) == 2) {{ }} }}'), ('enumerator', 'F', 'enum U# {{ u#a = {q}(1) }};'),
              ('alignas', 'F', 'struct alignas({q}(8)) U# {{}};'), ('case label', 'F', 'void u#(int i) {{ switch (i) {{ case {q}(4): break; }} }}'),
              ('bit field', 'F', 'struct U# {{ int b : {q}(2); }};')]),
    'overload set': dict(
        decl='int ov@(int);\nint ov@(const char*);\nint ov@(double, double = 1);', name='ov@', fwd=None,
        uses=[('int', 'F', 'int u# = {q}(1);'), ('string', 'F', 'int u# = {q}("x");'), ('address', 'F', 'int (*u#)(const char*) = {q};'),
              ('using decl', 'F', None)]),
    'variable': dict(
        decl='extern int var@;', name='var@', fwd=None,
        uses=[('read', 'F', 'int u#() {{ return {q}; }}'), ('address', 'F', 'int* u# = &{q};'), ('write', 'F', 'void u#() {{ {q} = 2; }}'),
              ('ref', 'F', 'int& u# = {q};'), ('sizeof', 'F', 'int u# = sizeof({q});'), ('decltype', 'F', 'decltype({q}) u#;'),
              ('template arg', 'F', 'template <int* P> struct U# {{}}; U#<&{q}> u#;'), ('increment', 'F', 'void u#() {{ {q}++; }}'),
              ('in lambda', 'F', 'auto u# = [] {{ return {q}; }};'), ('using decl', 'F', None),
              ('definition', 'F', 'int {q} = 5;')]),
    'constant': dict(
        decl='const int kon@ = @;', name='kon@', fwd=None,
        uses=[('array bound', 'F', 'int u#[{q} + 1];'), ('init', 'F', 'int u# = {q};'), ('case', 'F', 'void u#(int i) {{ switch (i) {{ case {q}: break; }} }}'),
              ('template arg', 'F', 'template <int N> struct U# {{}}; U#<{q}> u#;')]),
    'inline variable': dict(
        decl='inline constexpr double iv@ = 1.5;', name='iv@', fwd=None, uses=[('init', 'F', 'double u# = {q};'), ('static_assert', 'F', 'static_assert({q} > 1);')]),
    'alias': dict(
        decl='using al@ = int;', name='al@', fwd=None,
        uses=[('var', 'F', '{q} u#;'), ('param', 'F', 'void u#({q} p);'), ('cast', 'F', 'int u# = static_cast<{q}>(2.5);'), ('ptr', 'F', '{q}* u#;'),
              ('sizeof', 'F', 'int u# = sizeof({q});'), ('template arg', 'F', 'template <typename T> struct U# {{}}; U#<{q}> u#;'),
              ('realias', 'F', 'using U# = {q};'), ('return', 'F', '{q} u#();'), ('functional cast', 'F', 'auto u# = {q}(1);')]),
    'typedef': dict(
        decl='typedef unsigned long td@;', name='td@', fwd=None,
        uses=[('var', 'F', '{q} u#;'), ('field', 'F', 'struct U# {{ {q} f; }};'), ('typedef', 'F', 'typedef {q} U#;'), ('array', 'F', '{q} u#[2];'),
              ('using decl', 'F', None)]),
    'function typedef': dict(
        decl='typedef int ft@(int);', name='ft@', fwd=None, uses=[('ptr', 'F', '{q}* u#;'), ('decl', 'F', '{q} u#;')]),
    'class template': dict(
        decl='template <typename T>\nclass T@ {\n public:\n  T* t;\n  T get();\n  static int s;\n  using type = T;\n};', name='T@',
        fwd='template <typename T> class T@;',
        uses=[('ptr', 'P', 'void u#({q}<int>* p);'), ('ref', 'P', 'extern {q}<char>& u#;'), ('field ptr', 'P', 'struct U# {{ {q}<int>* f; }};'),
              ('dependent ptr', 'P', 'template <typename A> void u#({q}<A>* p);'), 
              ('var', 'F', '{q}<int> u#;'), ('base', 'F', 'struct U# : {q}<int> {{}};'), ('member', 'F', 'int* u#({q}<int>* p) {{ return p->t; }}'),
              ('nested', 'F', '{q}<int>::type u#;'),
              ('typename', 'F', 'template <typename A> typename {q}<A>::type u#();'), ('sizeof', 'F', 'int u# = sizeof({q}<char>);'),
              ('explicit instantiation', 'F', 'template class {p}T@<short>;'), ('specialization', 'F', None),
              ('field', 'F', 'struct U# {{ {q}<int> f; }};'), ('new', 'F', 'auto* u# = new {q}<int>;')]),
    'constrained template': dict(
        decl='template <typename T>\n  requires requires(T t) { t.x; } || (sizeof(T) > 0 ? true : false)\nclass Rq@ {\n public:\n  T* t;\n  T get();\n};',
        name='Rq@', fwd='template <typename T> requires requires (T t) { t.x; } || (sizeof(T) > 0 ? true : false) class Rq@;',
        uses=[('ptr', 'P', 'void u#({q}<int>* p);'), ('ref', 'P', 'extern {q}<char>& u#;'), ('field ptr', 'P', 'struct U# {{ {q}<int>* f; }};'),
              ('var', 'F', '{q}<int> u#;'), ('base', 'F', 'struct U# : {q}<int> {{}};'), ('member', 'F', 'int* u#({q}<int>* p) {{ return p->t; }}'),
              ('sizeof', 'F', 'int u# = sizeof({q}<char>);')]),
    'function template': dict(
        decl='template <typename T>\nT tf@(T t) { return t; }', name='tf@', fwd=None,
        uses=[('deduced', 'F', 'int u# = {q}(1);'), ('explicit', 'F', 'int u# = {q}<int>(1);'), ('address', 'F', 'int (*u#)(int) = {q};'),
              ('dependent', 'F', 'template <typename A> A u#(A a) {{ return {q}<A>(a); }}'), ('using decl', 'F', None)]),
    'variable template': dict(
        decl='template <typename T>\nconstexpr T tv@ = T(1);', name='tv@', fwd=None,
        uses=[('value', 'F', 'int u# = {q}<int>;'), ('static_assert', 'F', 'static_assert({q}<int> == 1, "");')]),
    'alias template': dict(
        decl='template <typename T>\nusing ta@ = T*;', name='ta@', fwd=None,
        uses=[('var', 'F', '{q}<int> u#;'), ('param', 'F', 'void u#({q}<char> p);'), ('dependent', 'F', 'template <typename A> {q}<A> u#();')]),
    'concept': dict(
        decl='template <typename T>\nconcept Cp@ = sizeof(T) > 0;', name='Cp@', fwd=None,
        uses=[('constraint', 'F', 'template <{q} A> void u#(A a);'), ('requires', 'F', 'template <typename A> requires {q}<A> void u#(A a);'),
              ('bool', 'F', 'bool u# = {q}<int>;'), ('auto', 'F', '{q} auto u# = 1;'), ('auto return', 'F', '{q} auto u#();'),
              ('requirement', 'F', 'template <typename A> bool u# = requires(A a) {{ {{ a }} -> {q}; }};'),
              ('pack', 'F', 'template <{q}... A> void u#(A...);'), ('abbreviated', 'F', 'void u#({q} auto p);')]),
    'operator': dict(
        decl='struct O@ { int v; };\nO@ operator+(O@, O@);\nbool operator==(const O@&, const O@&);\nextern O@ ob@;', name='ob@', fwd=None,
        uses=[('plus', 'F', 'auto u# = {q} + {q};'), ('equal', 'F', 'bool u# = {q} == {q};')]),
    'literal operator': dict(
        decl='unsigned operator""_l@(unsigned long long);', name=None, global_only=True, fwd=None,
        uses=[('literal', 'F', 'unsigned u# = 5_l@;')]),
    'object macro': dict(
        decl='#define MAC@ 3', name=None, fwd=None, macro=True,
        uses=[('value', 'F', 'int u# = MAC@;'), ('if', 'F', '#if MAC@ > 2\nint u#;\n#endif'), ('ifdef', 'F', '#ifdef MAC@\nint u#;\n#endif'),
              ('ifndef', 'F', '#ifndef MAC@\nint u#;\n#endif'), ('defined', 'F', '#if defined(MAC@)\nint u#;\n#endif'),
              ('array', 'F', 'int u#[MAC@];'), ('in macro', 'F', '#define U# MAC@\nint u# = U#;'), ('elif', 'F', '#if 0\n#elif MAC@ == 3\nint u#;\n#endif')]),
    'function macro': dict(
        decl='#define FM@(x) ((x) + 1)', name=None, fwd=None, macro=True,
        uses=[('call', 'F', 'int u# = FM@(2);'), ('nested', 'F', 'int u# = FM@(FM@(1));'), ('in macro', 'F', '#define U#(y) FM@(y)\nint u# = U#(1);')]),
}
