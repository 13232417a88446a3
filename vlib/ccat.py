"""The catalogue of C entities and of the ways to use them (see cxxcat).

need is 'F' (the header must be included), 'P' (a forward declaration must stand
before: struct names in parameter lists) or 'N' (nothing: naming the struct
declares it).
"""

TAG_USES = [
    ('ptr param', 'P', 'int u#({q}* p);'),
    ('const ptr param', 'P', 'void u#(const {q}* p, int n);'),
    ('ptr ptr param', 'P', 'void u#({q}** p);'),
    ('fn ptr', 'P', 'int (*u#)({q}*);'),
    ('fn ptr field', 'P', 'struct U# {{ int (*f)({q}*); }};'),
    ('def ptr param', 'P', 'int u#({q}* p, {q}* q) {{ return p == q; }}'),
    ('param to void', 'P', 'void* u#({q}* p) {{ return p; }}'),
    ('ptr compare null', 'P', 'int u#({q}* p) {{ return p ? 1 : 0; }}'),
    ('array of ptr param', 'P', 'void u#({q}* p[]);'),
    ('ptr var', 'N', '{q}* u#;'),
    ('ptr var init', 'N', '{q}* u# = 0;'),
    ('static ptr', 'N', 'static {q}* u#; void** w#(void) {{ return (void**)&u#; }}'),
    ('extern ptr', 'N', 'extern {q}* u#;'),
    ('ptr return', 'N', '{q}* u#(void);'),
    ('ptr field', 'N', 'struct U# {{ {q}* f; int n; }};'),
    ('ptr union field', 'N', 'union U# {{ {q}* f; int n; }};'),
    ('ptr array', 'N', '{q}* u#[3];'),
    ('local ptr', 'N', 'int u#(void) {{ {q}* l = 0; return l == 0; }}'),
    ('cast', 'N', 'int u#(void* v) {{ return ({q}*)v == 0; }}'),
    ('sizeof ptr', 'N', 'int u#[sizeof({q}*)];'),
    ('ptr null default', 'N', 'void* u#(int i) {{ {q}* l = 0; return i ? l : 0; }}'),
    ('extern array', 'N', None),
    ('var', 'F', '{q} u#;'),
    ('local var', 'F', 'void u#(void) {{ {q} l; (void)l; }}'),
    ('static var', 'F', 'static {q} u#; int w#(void) {{ return u#.a; }}'),
    ('compound literal', 'F', 'int u#(void) {{ return (({q}){{1}}).a; }}'),
    ('designated', 'F', '{q} u# = {{.a = 1}};'),
    ('init list', 'F', '{q} u# = {{1}};'),
    ('arrow', 'F', 'int u#({q}* p) {{ return p->a; }}'),
    ('arrow of var', 'F', 'extern {q}* u#; int w#(void) {{ return u#->a; }}'),
    ('deref member', 'F', 'int u#({q}* p) {{ return (*p).a; }}'),
    ('write', 'F', 'void u#({q}* p) {{ p->a = 3; }}'),
    ('address of member', 'F', 'int* u#({q}* p) {{ return &p->a; }}'),
    ('copy', 'F', 'void u#({q}* p, {q}* q) {{ *p = *q; }}'),
    ('pass by value', 'F', 'int w#({q}); int u#({q}* p) {{ return w#(*p); }}'),
    ('pass element', 'F', 'int w#({q}); int u#({q}* p, int i) {{ return w#(p[i]); }}'),
    ('copy element', 'F', 'void u#({q}* p, {q}* q) {{ p[0] = q[1]; }}'),
    ('conditional copy', 'F', 'void u#({q}* p, {q}* q, int i) {{ *(i ? p : q) = *q; }}'),
    ('discarded call', 'F', '{q} w#(void); void u#(void) {{ w#(); }}'),
    ('nested designated', 'F', 'struct U# {{ {q} f; }} u# = {{ .f.a = 1 }};'),
    ('memcpy', 'F', 'void u#(void* v, {q}* p) {{ __builtin_memcpy(v, p, sizeof *p); }}'),
    ('array of array', 'F', '{q} u#[2][3];'),
    ('vla', 'F', 'int u#(int n) {{ {q} l[n]; l[0].a = 1; return l[0].a; }}'),
    ('member array decay', 'F', 'char* u#({q}* p) {{ return (char*)&p->a + sizeof(p->a); }}'),
    ('sizeof', 'F', 'int u#[sizeof({q})];'),
    ('sizeof in fn', 'F', 'unsigned long u#(void) {{ return sizeof({q}); }}'),
    ('sizeof deref', 'F', 'unsigned long u#({q}* p) {{ return sizeof(*p); }}'),
    ('sizeof sub', 'F', 'unsigned long u#({q}* p) {{ return sizeof(p[0]); }}'),
    ('alignof', 'F', 'unsigned long u#(void) {{ return _Alignof({q}); }}'),
    ('alignas', 'F', 'struct U# {{ _Alignas({q}) char c; }};'),
    ('offsetof', 'F', 'unsigned long u#(void) {{ return __builtin_offsetof({q}, a); }}'),
    ('field', 'F', 'struct U# {{ {q} f; }};'),
    ('array field', 'F', 'struct U# {{ {q} f[2]; }};'),
    ('union field', 'F', 'union U# {{ {q} f; int i; }};'),
    ('array', 'F', '{q} u#[2];'),
    ('array init', 'F', '{q} u#[] = {{ {{1}}, {{2}} }};'),
    ('designated array', 'F', '{q} u#[4] = {{ [2].a = 5 }};'),
    ('ptr increment', 'F', '{q}* u#({q}* p) {{ return ++p; }}'),
    ('ptr plus', 'F', '{q}* u#({q}* p, int i) {{ return p + i; }}'),
    ('ptr difference', 'F', 'long u#({q}* p, {q}* q) {{ return p - q; }}'),
    ('index', 'F', 'int u#({q}* p) {{ return p[1].a; }}'),
    ('by value param', 'F', 'int u#({q} p) {{ return p.a; }}'),
    ('by value unused param', 'F', 'int u#({q} p) {{ return 0; }}'),
    ('return value', 'F', '{q} u#({q}* p) {{ return *p; }}'),
    ('static assert', 'F', '_Static_assert(sizeof({q}) > 0, "");'),
    ('generic', 'F', 'int u#({q}* p) {{ return _Generic(p->a, int: 1, default: 2); }}'),
    ('typeof member', 'F', 'int u#({q}* p) {{ __typeof__(p->a) l = 1; return (int)l; }}'),
    ('for loop', 'F', 'int u#({q}* p, int n) {{ int s = 0; for (int i = 0; i < n; ++i) s += p[i].a; return s; }}'),
    ('va_arg', 'F', 'int u#(__builtin_va_list l) {{ {q} s = __builtin_va_arg(l, {q}); return s.a; }}'),
    ('statement expr', 'F', 'int u#({q}* p) {{ return ({{ int x = p->a; x; }}); }}'),
    ('ternary member', 'F', 'int u#({q}* p, {q}* q) {{ return (p ? p : q)->a; }}'),
    ('cast then member', 'F', 'int u#(void* v) {{ return (({q}*)v)->a; }}'),
]

VALUE_ALIAS_USES = [
    ('var', 'F', '{q} u#;'), ('ptr param', 'F', 'void u#({q}* p);'), ('ptr var', 'F', '{q}* u#;'), ('field', 'F', 'struct U# {{ {q}* f; }};'),
    ('cast', 'F', 'void* u#(void* v) {{ return ({q}*)v; }}'), ('sizeof', 'F', 'int u#[sizeof({q})];'), ('typedef', 'F', 'typedef {q} U#;'),
    ('return', 'F', '{q}* u#(void);'), ('array', 'F', '{q} u#[2];'), ('local', 'F', 'void u#(void) {{ {q}* l = 0; (void)l; }}'),
]

STRUCT_BODY = ' {\n  int a;\n  double b;\n  char name[8];\n}'

KINDS = {
    'struct': dict(decl='struct S@' + STRUCT_BODY + ';', name='struct S@', fwd='struct S@;', uses=[u for u in TAG_USES if u[2]]),
    'union': dict(decl='union Y@ {\n  int a;\n  float b;\n};', name='union Y@', fwd='union Y@;', uses=[u for u in TAG_USES if u[2]]),
    'typedef struct': dict(decl='typedef struct' + STRUCT_BODY + ' A@;', name='A@', fwd=None,
                           uses=VALUE_ALIAS_USES + [('member', 'F', 'int u#({q}* p) {{ return p->a; }}'),
                                                    ('compound', 'F', '{q} u# = {{.b = 2}};')]),
    'typedef struct tag': dict(decl='typedef struct J@_' + STRUCT_BODY + ' J@;', name='J@', fwd=None,
                               uses=VALUE_ALIAS_USES + [('member', 'F', 'int u#({q}* p) {{ return p->a; }}')]),
    'flexible struct': dict(decl='struct F@ {\n  unsigned n : 3;\n  unsigned m : 5;\n  int a[];\n};', name='struct F@', fwd='struct F@;',
                            uses=[('bit field', 'F', 'int u#({q}* p) {{ return p->n; }}'), ('flexible', 'F', 'int u#({q}* p) {{ return p->a[1]; }}'),
                                  ('sizeof', 'F', 'int u#[sizeof({q})];'), ('ptr', 'P', 'void u#({q}* p);'), ('ptr var', 'N', '{q}* u#;')]),
    'nested struct': dict(decl='struct N@ {\n  struct {\n    int i;\n  } in;\n  union {\n    int j;\n    float f;\n  };\n  struct N@* next;\n};',
                          name='struct N@', fwd='struct N@;',
                          uses=[('inner', 'F', 'int u#({q}* p) {{ return p->in.i; }}'), ('anonymous', 'F', 'int u#({q}* p) {{ return p->j; }}'),
                                ('chain', 'F', 'int u#({q}* p) {{ return p->next->next->j; }}'), ('designated', 'F', '{q} u# = {{.in.i = 1}};'),
                                ('ptr', 'P', 'int u#({q}* p);'), ('ptr return', 'N', '{q}* u#(int i);')]),
    'enum': dict(decl='enum E@ {\n  e@a,\n  e@b = 4\n};', name='enum E@', fwd=None,
                 uses=[('var', 'F', '{q} u#;'), ('enumerator', 'F', 'int u# = e@a;'), ('param', 'F', 'void u#({q} p);'),
                       ('case', 'F', 'void u#(int i) {{ switch (i) {{ case e@a: break; }} }}'), ('cast', 'F', 'int u#(void) {{ return ({q})1; }}'),
                       ('array size', 'F', 'int u#[e@b];'), ('designator', 'F', 'int u#[] = {{ [e@b] = 1 }};'), ('bit field', 'F', 'struct U# {{ int f : e@b; }};'),
                       ('ptr', 'F', '{q}* u#;'), ('field', 'F', 'struct U# {{ {q} f; }};'), ('enum init', 'F', 'enum U# {{ u#_a = e@b }};'),
                       ('static assert', 'F', '_Static_assert(e@b == 4, "");'), ('return', 'F', '{q} u#(void);')]),
    'anonymous enum': dict(decl='enum { k@a = 2, k@b };', name='k@a', fwd=None,
                           uses=[('value', 'F', 'int u# = {q};'), ('other value', 'F', 'int u#(void) {{ return k@b; }}'), ('array', 'F', 'char u#[k@a];')]),
    'typedef enum': dict(decl='typedef enum { g@a, g@b = 3 } G@;', name='G@', fwd=None,
                         uses=[('var', 'F', '{q} u# = g@a;'), ('param', 'F', 'void u#({q} p);'), ('compare', 'F', 'int u#(int i) {{ return i == g@b; }}')]),
    'function': dict(decl='int fn@(int x, int y);', name='fn@', fwd=None,
                     uses=[('call', 'F', 'int u#(void) {{ return {q}(1, 2); }}'), ('address', 'F', 'int (*u#)(int, int) = &{q};'),
                           ('decay', 'F', 'int (*u#)(int, int) = {q};'), ('sizeof', 'F', 'int u#[sizeof({q}(1, 2))];'),
                           ('typeof', 'F', '__typeof__({q}(1, 2)) u#;'), ('in table', 'F', 'int (*u#[])(int, int) = {{ {q}, 0 }};'),
                           ('in struct init', 'F', 'struct U# {{ int (*f)(int, int); }}; struct U# w# = {{ .f = {q} }};'),
                           ('nested call', 'F', 'int u#(void) {{ return {q}({q}(1, 2), 3); }}'), ('void call', 'F', 'void u#(void) {{ (void){q}(0, 0); }}'),
                           ('paren call', 'F', 'int u#(void) {{ return ({q})(1, 2); }}'), ('condition', 'F', 'int u#(void) {{ while ({q}(1, 1)) {{ }} return 0; }}'),
                           ('argument', 'F', 'void w#(int (*f)(int, int)); void u#(void) {{ w#({q}); }}'), ('compare', 'F', 'int u#(void) {{ return {q} != 0; }}'),
                           ('generic', 'F', 'int u#(void) {{ return _Generic({q}(1, 2), int: 1, default: 0); }}'),
                           ('definition', 'F', 'int {q}(int x, int y) {{ return x + y; }}')]),
    'variadic': dict(decl='int vf@(const char* f, ...) __attribute__((format(printf, 1, 2)));', name='vf@', fwd=None,
                     uses=[('call', 'F', 'int u#(void) {{ return {q}("%d", 1); }}'), ('address', 'F', 'void* u#(void) {{ return (void*)&{q}; }}')]),
    'struct function': dict(decl='struct P@ {\n  int a;\n};\nstruct P@ mk@(void);\nstruct P@* pt@(struct P@*);', name='mk@', fwd=None,
                            uses=[('member of result', 'F', 'int u#(void) {{ return {q}().a; }}'), ('arrow of result', 'F', 'int u#(void) {{ return pt@(0)->a; }}'),
                                  ('discard', 'F', 'void u#(void) {{ {q}(); }}'), ('chain', 'F', 'void u#(void) {{ pt@(pt@(0)); }}'),
                                  ('auto type', 'F', 'int u#(void) {{ __auto_type x = {q}(); return x.a; }}')]),
    'inline function': dict(decl='static inline int il@(int x) { return x + 1; }', name='il@', fwd=None,
                            uses=[('call', 'F', 'int u#(void) {{ return {q}(1); }}'), ('address', 'F', 'int (*u#)(int) = {q};')]),
    'cleanup function': dict(decl='void cl@(int* p);', name='cl@', fwd=None,
                             uses=[('cleanup', 'F', 'void u#(void) {{ __attribute__((cleanup({q}))) int x = 0; (void)x; }}'),
                                   ('call', 'F', 'void u#(int* p) {{ {q}(p); }}')]),
    'variable': dict(decl='extern int var@;', name='var@', fwd=None,
                     uses=[('read', 'F', 'int u#(void) {{ return {q}; }}'), ('address', 'F', 'int* u# = &{q};'), ('write', 'F', 'void u#(void) {{ {q} = 2; }}'),
                           ('sizeof', 'F', 'int u#[sizeof({q})];'), ('typeof', 'F', '__typeof__({q}) u#;'), ('increment', 'F', 'void u#(void) {{ {q}++; }}'),
                           ('compound assign', 'F', 'void u#(int i) {{ {q} |= i; }}'), ('definition', 'F', 'int {q} = 5;'), ('tentative', 'F', 'int {q};'),
                           ('asm', 'F', 'void u#(void) {{ __asm__("" : : "r"({q})); }}'), ('comma', 'F', 'int u#(void) {{ return (0, {q}); }}')]),
    'array variable': dict(decl='extern const char arr@[];\nextern int sized@[4];', name='arr@', fwd=None,
                           uses=[('index', 'F', 'int u#(void) {{ return {q}[1]; }}'), ('decay', 'F', 'const char* u#(void) {{ return {q}; }}'),
                                 ('sizeof sized', 'F', 'int u#[sizeof(sized@) / sizeof(sized@[0])];'), ('reverse index', 'F', 'int u#(void) {{ return 1[sized@]; }}')]),
    'constant': dict(decl='static const int kon@ = 3;', name='kon@', fwd=None,
                     uses=[('read', 'F', 'int u#(void) {{ return {q}; }}'), ('address', 'F', 'const int* u# = &{q};')]),
    'typedef': dict(decl='typedef unsigned long td@;', name='td@', fwd=None, uses=VALUE_ALIAS_USES + [
        ('cast value', 'F', 'int u#(int i) {{ return (int)({q})i; }}'), ('bit field', 'F', 'struct U# {{ {q} f : 3; }};'),
        ('va_arg', 'F', 'long u#(__builtin_va_list l) {{ return (long)__builtin_va_arg(l, {q}); }}')]),
    'array typedef': dict(decl='typedef int at@[3];', name='at@', fwd=None, uses=[
        ('var', 'F', '{q} u#;'), ('param', 'F', 'int u#({q} p) {{ return p[0]; }}'), ('sizeof', 'F', 'int u#[sizeof({q})];'), ('ptr', 'F', '{q}* u#;')]),
    'function typedef': dict(decl='typedef int ft@(int);', name='ft@', fwd=None, uses=[
        ('ptr', 'F', '{q}* u#;'), ('decl', 'F', '{q} u#;'), ('param', 'F', 'void u#({q}* f);'), ('field', 'F', 'struct U# {{ {q}* f; }};')]),
    'function pointer typedef': dict(decl='typedef void (*cb@)(int, void*);', name='cb@', fwd=None, uses=[
        ('var', 'F', '{q} u# = 0;'), ('call', 'F', 'void u#({q} c) {{ c(1, 0); }}'), ('cast', 'F', 'void u#(void* p) {{ (({q})p)(1, 0); }}')]),
    'opaque': dict(decl='typedef struct Op@_* Op@;\nOp@ open@(void);\nint close@(Op@);', name='Op@', fwd=None, uses=[
        ('handle', 'F', '{q} u#;'), ('open', 'F', 'int u#(void) {{ return close@(open@()); }}'), ('field', 'F', 'struct U# {{ {q} h; }};')]),
    'object macro': dict(
        decl='#define MAC@ 3', name=None, fwd=None, macro=True,
        uses=[('value', 'F', 'int u# = MAC@;'), ('if', 'F', '#if MAC@ > 2\nint u#;\n#endif'), ('ifdef', 'F', '#ifdef MAC@\nint u#;\n#endif'),
              ('ifndef', 'F', '#ifndef MAC@\nint u#;\n#endif'), ('defined', 'F', '#if defined(MAC@)\nint u#;\n#endif'),
              ('array', 'F', 'int u#[MAC@];'), ('in macro', 'F', '#define U# MAC@\nint u# = U#;'), ('elif', 'F', '#if 0\n#elif MAC@ == 3\nint u#;\n#endif'),
              ('not defined', 'F', '#if !defined MAC@\n#else\nint u#;\n#endif'), ('case', 'F', 'void u#(int i) { switch (i) { case MAC@: break; } }')]),
    'function macro': dict(
        decl='#define FM@(x) ((x) + 1)', name=None, fwd=None, macro=True,
        uses=[('call', 'F', 'int u# = FM@(2);'), ('nested', 'F', 'int u# = FM@(FM@(1));'), ('in macro', 'F', '#define U#(y) FM@(y)\nint u# = U#(1);'),
              ('in if', 'F', '#if FM@(1) == 2\nint u#;\n#endif')]),
    'declaring macro': dict(
        decl='#define DM@(n) int n##_get(void)', name=None, fwd=None, macro=True,
        uses=[('declare', 'F', 'DM@(u#);'), ('define', 'F', 'DM@(u#) { return 1; }')]),
    'attribute macro': dict(
        decl='#define AM@ __attribute__((unused))', name=None, fwd=None, macro=True,
        uses=[('function', 'F', 'AM@ static int u#(void) { return 1; }'), ('param', 'F', 'int u#(int x AM@) { return 0; }'),
              ('struct', 'F', 'struct U# { int a; } AM@;')]),
}
