"""Generator and independent model of fix_includes inputs.

A case describes one source file as a tree of items plus what the report about
it says.  render() turns the tree into lines, each with its role, the stack of
conditionals governing it and the namespaces around it, so that oracles can be
stated over roles rather than over fix_includes' own classification.
"""
import contextlib
import importlib.util
import io
import os
import re
import sys

from hypothesis import strategies as st

REPO = os.environ.get('VERIF_REPO', '/repo')
_mods = {}


def load(name='fix_includes'):
    if name not in _mods:
        sys.dont_write_bytecode = True
        spec = importlib.util.spec_from_file_location('repo_' + name, os.path.join(REPO, name + '.py'))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _mods[name] = m
    return _mods[name]


# ------------------------------------------------------------------ generator
NS = ['alpha', 'beta', 'gamma', 'mystd']
CONDS = ['ifdef FEATURE_A', 'if defined(FEATURE_B)', 'ifndef NO_C', 'if VERSION > 3', 'if 0', 'if 1']


@st.composite
def inc(draw):
    return dict(t='inc', angled=draw(st.booleans()), name=draw(st.integers(0, 5)),
                style=draw(st.integers(0, 5)), note=draw(st.integers(0, 3)),
                rm=draw(st.booleans()))


@st.composite
def fwd(draw, ns=False):
    return dict(t='fwd', kw=draw(st.sampled_from(['class', 'struct', 'template', 'template2'])),
                ns=draw(st.lists(st.sampled_from(NS), max_size=2, unique=True)) if ns else [],
                note=draw(st.integers(0, 1)), rm=draw(st.booleans()))


@st.composite
def code(draw):
    return dict(t='code', v=draw(st.integers(0, 11)))


@st.composite
def comment(draw):
    return dict(t='com', v=draw(st.integers(0, 3)))


blank = st.just(dict(t='blank'))


def simple():
    return st.one_of(inc(), inc(), inc(), fwd(True), code(), comment(), blank)


def items(depth, allow_ns=True):
    base = simple()
    if depth > 0:
        sub = st.deferred(lambda: items(depth - 1, allow_ns))
        base = st.one_of(inc(), fwd(True), code(), comment(), blank, cond(sub),
                         *( [nsblock(depth)] if allow_ns else []))
    return st.lists(base, max_size=6)


@st.composite
def cond(draw, sub):
    d = dict(t='if', c=draw(st.integers(0, len(CONDS) - 1)), body=draw(sub), note=draw(st.booleans()))
    if draw(st.integers(0, 3)) == 0:
        d['els'] = draw(sub)
        d['elif'] = draw(st.booleans())
    return d


@st.composite
def nsblock(draw, depth):
    inner = st.one_of(fwd(), fwd(), code(), comment(), blank)
    if depth > 1:
        inner = st.one_of(fwd(), fwd(), code(), comment(), blank, st.deferred(lambda: nsblock(depth - 1)))
    return dict(t='ns', names=draw(st.lists(st.sampled_from(NS), min_size=1, max_size=2, unique=True)),
                style=draw(st.integers(0, 3)), body=draw(st.lists(inner, max_size=4)),
                note=draw(st.booleans()))


@st.composite
def tree(draw, guard=True):
    d = dict(lead=draw(st.lists(st.one_of(comment(), blank), max_size=2)),
             guard=draw(st.sampled_from([None, None, 'ifndef', 'once', 'ifndef', 'wholeif'])) if guard else None,
             top=draw(items(0)), rest=draw(items(2)))
    return d


@st.composite
def adds(draw):
    out = []
    for i in range(draw(st.integers(0, 3))):
        if draw(st.booleans()):
            out.append(dict(t='inc', angled=draw(st.booleans()), name=draw(st.integers(0, 5)),
                            why=draw(st.booleans())))
        else:
            out.append(dict(t='fwd', kw=draw(st.sampled_from(['class', 'struct', 'template', 'template2'])),
                            ns=draw(st.lists(st.sampled_from(NS), max_size=3, unique=True)),
                            cxx17=draw(st.integers(0, 3)) == 0))
    return out


@st.composite
def options(draw):
    o = []
    for a, b in [('--comments', '--nocomments'), ('--reorder', '--noreorder'),
                 ('--blank_lines', '--noblank_lines'), ('--safe_headers', '--nosafe_headers'),
                 ('--update_comments', None), ('--keep_iwyu_namespace_format', None),
                 ('--quoted_includes_first', None)]:
        k = draw(st.integers(0, 2))
        if k == 1:
            o.append(a)
        elif k == 2 and b:
            o.append(b)
    k = draw(st.integers(0, 5))
    if k == 0:
        o.append('--separate_project_includes=<tld>')
    elif k == 1:
        o.append('--separate_project_includes=proj')
    return o


@st.composite
def storage(draw):
    return dict(eol=draw(st.sampled_from(['\n', '\n', '\r\n', 'mixed', 'mixed2'])),
                enc=draw(st.sampled_from(['ascii', 'ascii', 'utf-8', 'bom', 'latin1', 'cp1250', 'sjis'])),
                final=draw(st.sampled_from([True, True, True, False])),
                ctl=draw(st.sampled_from(['', '', '', '\f', '\x0b', '\x1c', '\x85', '\u2028'])))


# --------------------------------------------------------------------- render
class L:
    __slots__ = ('text', 'role', 'conds', 'ns', 'item', 'blocks', 'no', 'key')

    def __init__(self, text, role, conds, ns, item, blocks):
        self.text, self.role, self.conds, self.ns = text, role, conds, ns
        self.item, self.blocks = item, blocks
        self.no = None
        self.key = None


INC_STYLES = ['#include %s', '#include %s', '#  include %s', '  #include %s', '#include  %s', '# include\t%s']


class Renderer:
    def __init__(self):
        self.n = 0
        self.lines = []
        self.blocks = []      # block id -> dict(kind, lines, body roles)

    def uid(self):
        self.n += 1
        return self.n

    def emit(self, text, role, item, c, n, b):
        l = L(text, role, tuple(c), tuple(n), item, tuple(b))
        self.lines.append(l)
        return l

    def inc_name(self, it, u):
        base = ['n%d.h', 'proj/n%d.h', 'other/sub/n%d.h', 'n%d-inl.h', 'n%d', 'n%d.hpp'][it['name']] % u
        return '<%s>' % base if it['angled'] else '"%s"' % base

    def fwd_text(self, it, u):
        return {'class': 'class K%d;', 'struct': 'struct K%d;',
                'template': 'template <typename T> class K%d;',
                'template2': 'template <typename T, int N>\nstruct K%d;'}[it['kw']] % u

    def walk(self, items, c, n, b):
        for it in items:
            t = it['t']
            u = self.uid()
            if t == 'inc':
                key = self.inc_name(it, it.get('u', u))
                text = INC_STYLES[it['style']] % key
                text += ['', '  // for X%d' % u, '  // IWYU pragma: keep', '  /* note %d */' % u][it['note']]
                self.emit(text, 'inc', it, c, n, b).key = key
            elif t == 'fwd':
                text = self.fwd_text(it, u)
                if it['ns']:
                    text = text.replace('\n', ' ')
                    text = ''.join('namespace %s { ' % x for x in it['ns']) + text + ' }' * len(it['ns'])
                if it['note']:
                    text += '  // note %d' % u
                for part in text.split('\n'):
                    self.emit(part, 'fwd', it, c, n, b).key = 'K%d' % u
            elif t == 'code':
                for part in CODE[it['v']].replace('@', str(u)).split('\n'):
                    self.emit(part, 'code', it, c, n, b)
            elif t == 'com':
                for part in COMMENTS[it['v']].replace('@', str(u)).split('\n'):
                    self.emit(part, 'com', it, c, n, b)
            elif t == 'blank':
                self.emit('', 'blank', it, c, n, b)
            elif t == 'if':
                bid = len(self.blocks)
                self.blocks.append(dict(kind='if', item=it))
                bb = list(b) + [bid]
                self.emit('#%s  // c%d' % (CONDS[it['c']], u), 'if', it, c, n, bb)
                self.walk(it['body'], list(c) + ['%d+' % bid], n, bb)
                if 'els' in it:
                    self.emit(('#elif E%d' if it['elif'] else '#else  // e%d') % u, 'else', it, c, n, bb)
                    self.walk(it['els'], list(c) + ['%d-' % bid], n, bb)
                self.emit('#endif  // x%d' % u, 'endif', it, c, n, bb)
            elif t == 'ns':
                bid = len(self.blocks)
                self.blocks.append(dict(kind='ns', item=it))
                bb = list(b) + [bid]
                note = '  // ns%d' % u if it['note'] else ''
                if it['style'] == 0:       # one per line
                    for x in it['names']:
                        self.emit('namespace %s {%s' % (x, note), 'nso', it, c, n, bb)
                elif it['style'] == 1:     # all on one line
                    self.emit(' '.join('namespace %s {' % x for x in it['names']) + note, 'nso', it, c, n, bb)
                elif it['style'] == 2:     # Allman
                    for x in it['names']:
                        self.emit('namespace %s%s' % (x, note), 'nso', it, c, n, bb)
                        self.emit('{', 'nso', it, c, n, bb)
                else:                      # C++17 nested
                    self.emit('namespace %s {%s' % ('::'.join(it['names']), note), 'nso', it, c, n, bb)
                self.walk(it['body'], c, list(n) + it['names'], bb)
                if it['style'] == 1:
                    self.emit('}' * len(it['names']) + '  // e%d' % u, 'nsc', it, c, n, bb)
                elif it['style'] == 3:
                    self.emit('}  // e%d' % u, 'nsc', it, c, n, bb)
                else:
                    for x in reversed(it['names']):
                        self.emit('}  // e%d %s' % (u, x), 'nsc', it, c, n, bb)


CODE = ['int v@ = @;', 'void f@() {\n  g@();\n}', '#define M@ @', 'const char* s@ = "#include <x@>";',
        'class D@ {\n public:\n  int m@;\n};', 'using T@ = int;', 'extern int e@; // class Z;',
        '#pragma pack(push, @)', '#undef U@', 'static int t@[] = {\n  1, 2,\n  @\n};',
        '/* c@ */ int y@;', '/* class@ */ static int w@; // class W@;']
COMMENTS = ['// comment @', '/* comment @ */', '/* comment @\n   #include "c@.h"\n */', '// a@\n// b@']


def render(tr):
    r = Renderer()
    r.walk(tr['lead'], [], [], [])
    g = tr['guard']
    c = []
    if g == 'ifndef':
        r.emit('#ifndef GUARD_H_', 'guard', None, [], [], [])
        r.emit('#define GUARD_H_', 'guard', None, ['G'], [], [])
        c = ['G']
    elif g == 'once':
        r.emit('#pragma once', 'guard', None, [], [], [])
    if g == 'wholeif':
        r.walk([dict(t='if', c=3, body=tr['top'] + tr['rest'], note=False)], c, [], [])
    else:
        r.walk(tr['top'], c, [], [])
        r.walk(tr['rest'], c, [], [])
    if g == 'ifndef':
        r.emit('#endif  // GUARD_H_', 'guard', None, [], [], [])
    if not r.lines:        # IWYU has nothing to say about an empty file
        r.emit('int z0 = 0;', 'code', None, [], [], [])
    for i, l in enumerate(r.lines):
        l.no = i + 1
    return r


def add_line(a, u):
    """Returns (key, the line as the report gives it)."""
    if a['t'] == 'inc':
        base = ['a%d.h', 'proj/a%d.h', 'other/sub/a%d.h', 'a%d-inl.h', 'a%d', 'a%d.hpp'][a['name']] % u
        key = '<%s>' % base if a['angled'] else '"%s"' % base
        return key, '#include %s' % key
    name = 'A%d' % u
    text = {'class': 'class %s;', 'struct': 'struct %s;', 'template': 'template <typename T> class %s;',
            'template2': 'template <typename T, int N> struct %s;'}[a['kw']] % name
    if a.get('cxx17') and a['ns']:
        return name, 'namespace %s { %s }' % ('::'.join(a['ns']), text)
    text = ''.join('namespace %s { ' % x for x in a['ns']) + text + ' }' * len(a['ns'])
    return name, text


def spans(r, role):
    """Groups of consecutive line objects of the same item with this role."""
    out = []
    for l in r.lines:
        if l.role != role:
            continue
        if out and out[-1][0].item is l.item and out[-1][-1].no == l.no - 1 and out[-1][0].key == l.key:
            out[-1].append(l)
        else:
            out.append([l])
    return out


def report(fname, r, addlist, comments=True, remove=lambda sp: sp[0].item['rm'],
           order=None, line_delta=0):
    """An IWYU-style report; returns (text, removed spans, kept spans, added (key, line))."""
    incs, fwds = spans(r, 'inc'), spans(r, 'fwd')
    removed = [s for s in incs + fwds if remove(s)]
    rem = {id(s) for s in removed}
    kept = [s for s in incs + fwds if id(s) not in rem]
    added = [add_line(a, 100 + i) for i, a in enumerate(addlist) if a]
    addlist = [a for a in addlist if a]
    out = []
    if not removed and not added:
        out.append('(%s has correct #includes/fwd-decls)' % fname)
        return '\n'.join(out) + '\n', removed, kept, added
    out.append('%s should add these lines:' % fname)
    for (k, line), a in zip(added, addlist):
        why = '  // for W%s' % k.strip('<>"') if comments and a.get('why') else ''
        out.append(line + why)
    out += ['', '%s should remove these lines:' % fname]

    def oneline(sp):
        l = sp[0]
        if l.role == 'inc':
            return '#include ' + l.key
        text = fwd_report(sp)
        return text

    for s in removed:
        out.append('- %s  // lines %d-%d' % (oneline(s), s[0].no + line_delta, s[-1].no + line_delta))
    out += ['', 'The full include-list for %s:' % fname]
    full = []
    once = set()
    for s in kept:
        if s[0].role == 'inc' and s[0].key not in once:
            once.add(s[0].key)
            full.append('#include %s%s' % (s[0].key, '  // for Y%d' % s[0].no if comments and s[0].no % 2 else ''))
    for (k, line), a in zip(added, addlist):
        if a['t'] == 'inc':
            full.append(line + ('  // for W%s' % k.strip('<>"') if comments and a.get('why') else ''))
    for s in kept:
        if s[0].role == 'fwd':
            full.append('%s  // lines %d-%d' % (oneline(s), s[0].no + line_delta, s[-1].no + line_delta))
    for (k, line), a in zip(added, addlist):
        if a['t'] == 'fwd':
            full.append(line)
    out += full + ['---', '']
    return '\n'.join(out) + '\n', removed, kept, added


def fwd_report(sp):
    """How IWYU prints an existing forward declaration."""
    it = sp[0].item
    name = sp[0].key
    text = {'class': 'class %s;', 'struct': 'struct %s;', 'template': 'template <typename T> class %s;',
            'template2': 'template <typename T, int N> struct %s;'}[it['kw']] % name
    ns = list(sp[0].ns) + list(it['ns'])
    return ''.join('namespace %s { ' % x for x in ns) + text + ' }' * len(ns)


# -------------------------------------------------------------------- storage
def encode(r, s):
    """Returns (bytes, codec, per-line eol)."""
    codec, extra = {'ascii': ('ascii', ''), 'utf-8': ('utf-8', '\u00e9\u4e2d'), 'bom': ('utf-8', '\u00f8'),
                    'latin1': ('latin-1', '\u00e9'), 'cp1250': ('cp1250', '\u0161\u010d'),
                    'sjis': ('latin-1', '\x81\x8d\x90')}[s['enc']]
    out = []
    eols = []
    mark = True
    lines = r.lines
    for i, l in enumerate(lines):
        eol = s['eol']
        if eol == 'mixed':
            eol = '\r\n' if i % 3 == 0 else '\n'
        elif eol == 'mixed2':
            eol = '\r\n' if i % 4 else '\n'
        if i == len(lines) - 1 and not s['final']:
            eol = ''
        text = l.text
        if l.role == 'com' and text.startswith('//') and (extra or s['ctl']):
            ctl = s['ctl']
            if codec == 'ascii' and ctl and ord(ctl) > 127:
                ctl = ''
            if codec == 'cp1250' and ctl and ord(ctl) > 127:
                ctl = ''
            if codec == 'latin-1' and ctl and ord(ctl) > 255:
                ctl = ''
            text = text + extra + ctl + 'z'
            l.text = text
        eols.append(eol)
        out.append(text.encode(codec) + eol.encode())
    data = b''.join(out)
    if s['enc'] == 'bom':
        data = b'\xef\xbb\xbf' + data
    return data, codec, eols


# ------------------------------------------------------------------------ run
class RunResult:
    pass


def run_main(argv, stdin_text, cwd=None):
    """Run fix_includes.main in process. Returns (status, stdout, exception)."""
    m = load()
    out = io.StringIO()
    old = sys.stdin
    oldcwd = os.getcwd()
    sys.stdin = io.StringIO(stdin_text)
    exc = None
    status = None
    try:
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            status = m.main(['fix_includes.py'] + list(argv))
    except SystemExit as e:
        status = e.code if e.code is not None else 0
        if not isinstance(status, int):
            status = 1
    except Exception as e:      # the caller decides what an exception means
        exc = e
    finally:
        sys.stdin = old
        os.chdir(oldcwd)
    return status, out.getvalue(), exc


def split_lines(data, codec):
    """Lines of data without their ends, as a compiler counts them."""
    text = data.decode(codec)
    return io.StringIO(text, newline='').read().replace('\r\n', '\n').replace('\r', '\n').split('\n')


# ----------------------------------------------------------- oracles over text
def removable(it, removed_items):
    t = it['t']
    if t in ('blank', 'com'):
        return True
    if t in ('inc', 'fwd'):
        return id(it) in removed_items
    if t == 'if':
        return all(removable(x, removed_items) for x in it['body'] + it.get('els', []))
    if t == 'ns':
        return all(removable(x, removed_items) for x in it['body'])
    return False


def touched(it, removed_items):
    """Does this block contain something that was removed?"""
    if it['t'] in ('inc', 'fwd'):
        return id(it) in removed_items
    return any(touched(x, removed_items) for x in it.get('body', []) + it.get('els', []))


def roles(r, removed):
    """Splits lines into: must stay in order; may vanish; attached; movable."""
    removed_items = {id(s[0].item) for s in removed}
    gone_blocks = {i for i, b in enumerate(r.blocks) if removable(b['item'], removed_items)}
    status = {}
    lines = r.lines
    for l in lines:
        if l.role == 'blank':
            status[l.no] = 'blank'
        elif any(b in gone_blocks for b in l.blocks):
            # the outermost vanishing block decides; its lines may all go
            status[l.no] = 'optional'
            if l.role in ('inc', 'fwd'):
                status[l.no] = 'removed' if id(l.item) in removed_items else 'kept'
        elif l.role in ('inc', 'fwd'):
            status[l.no] = 'removed' if id(l.item) in removed_items else 'kept'
        else:
            status[l.no] = 'protected'
    # comments attached to what follows
    i = len(lines) - 1
    while i >= 0:
        l = lines[i]
        if l.role == 'com' and status[l.no] == 'protected':
            j = i
            while j < len(lines) and lines[j].role == 'com':
                j += 1
            nxt = lines[j] if j < len(lines) else None
            if nxt is not None:
                st_ = status[nxt.no]
                if nxt.role in ('inc', 'fwd'):
                    status[l.no] = 'optional' if st_ == 'removed' else 'attached'
                elif st_ == 'optional':
                    status[l.no] = 'optional'
        i -= 1
    # top-of-file comments belong to the file
    k = 0
    while k < len(lines) and lines[k].role == 'com':
        k += 1
    for l in lines[:k]:
        if k < len(lines) and lines[k].role in ('inc', 'fwd'):
            status[l.no] = 'protected'
    return status, gone_blocks


# ------------------------------------------------------------- applying a case
class Applied:
    pass


def applying(check, case, fname=None):
    """Render, write, run; returns an Applied with everything an oracle needs."""
    a = Applied()
    a.r = render(case['tree'])
    a.data, a.codec, a.eols = encode(a.r, case['store'])
    a.fname = fname or os.path.join(check.tmp, 'file' + case['ext'])
    a.report, a.removed, a.kept, a.added = report(a.fname, a.r, case['adds'])
    a.safe = is_header(case['ext']) and '--nosafe_headers' not in case['opts']
    with open(a.fname, 'wb') as f:
        f.write(a.data)
    a.status, a.out, a.exc = run_main(case['opts'], a.report)
    with open(a.fname, 'rb') as f:
        a.new = f.read()
    a.before = text_of(a.data, a.codec)
    a.after = text_of(a.new, a.codec)
    a.show = '--- before\n%s\n--- report\n%s\n--- after\n%s' % (a.before, a.report, a.after)
    return a


def is_header(ext):
    return ext in ('.h', '.hpp', '.hh', '.inc', '')


def text_of(data, codec):
    if data.startswith(b'\xef\xbb\xbf'):
        data = data[3:]
    return data.decode(codec).replace('\r\n', '\n').replace('\r', '\n')


def fwd_ns(sp):
    out = []
    for x in list(sp[0].ns) + list(sp[0].item['ns']):
        out += x.split('::')
    return tuple(out)


def case_strategy(**kw):
    d = dict(tree=tree(), adds=adds(), opts=options(), store=storage(),
             ext=st.sampled_from(['.cc', '.cc', '.cc', '.h', '.c', '.hpp']))
    d.update(kw)
    return st.fixed_dictionaries(d)


def rereport(fname, text, names, remove=(), comment=lambda k: ''):
    """A report on an edited file that IWYU would find correct but for `remove`.

    names: key -> one-line form of each declaration the file may hold."""
    from vlib import cpplex
    toks = cpplex.tokens(text)
    lines = text.split('\n')
    full, rm = [], []
    for k, t in cpplex.includes(toks):
        if k in remove:
            rm.append('- #include %s  // lines %d-%d' % (k, t.line, t.line))
        else:
            full.append('#include %s%s' % (k, comment(k)))
    for k, t, nxt in cpplex.idents(toks, r'[KA]\d+'):
        s = t.line
        if s >= 2 and re.match(r'template <[^;]*>$', lines[s - 2].strip()):
            s -= 1
        l = '%s  // lines %d-%d' % (names[k], s, t.line)
        if k in remove:
            rm.append('- ' + l)
        else:
            full.append(l)
    return ('%s should add these lines:\n\n%s should remove these lines:\n%s\n\n'
            'The full include-list for %s:\n%s\n---\n' % (fname, fname, '\n'.join(rm), fname, '\n'.join(full)))
