"""A small C++ lexer, independent of fix_includes, for judging edited files.

tokens(text) gives every token with its line number, the conditionals governing
it, the namespaces around it and the depth of other braces."""
import collections
import re

Tok = collections.namedtuple('Tok', 'kind text line conds ns depth comment')
_TOK = re.compile(r'''
    (?P<com>/\*.*?\*/|//[^\n]*)
  | (?P<str>"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*')
  | (?P<id>[A-Za-z_]\w*)
  | (?P<num>\d[\w.]*)
  | (?P<nl>\n)
  | (?P<ws>[^\S\n]+)
  | (?P<p>::|.)
''', re.X | re.S)
_DIR = re.compile(r'[^\S\n]*#[^\S\n]*([a-z]*)((?:[^\n/]|/(?![/*]))*)((?://[^\n]*|/\*[^\n]*?\*/[^\S\n]*)?)')


class Bad(Exception):
    pass


def tokens(text):
    """Raises Bad if conditionals, braces or comments do not balance."""
    out = []
    line = 1
    conds, braces = [], []
    bol = True
    pend = None           # namespace name being read
    i = 0
    n = len(text)
    while i < n:
        if bol:
            m = _DIR.match(text, i)
            if m:
                word, rest, com = m.group(1), m.group(2), m.group(3)
                # strings may hold // in an include; _DIR stops there only for real comments
                full = m.group(0).strip()
                if word in ('elif', 'else'):
                    if not conds:
                        raise Bad('#%s without #if at line %d' % (word, line))
                    conds[-1] = conds[-1] + ' | ' + full
                    out.append(Tok('dir', full, line, tuple(conds[:-1]), _ns(braces), _depth(braces), com))
                elif word == 'endif':
                    if not conds:
                        raise Bad('#endif without #if at line %d' % line)
                    conds.pop()
                    out.append(Tok('dir', full, line, tuple(conds), _ns(braces), _depth(braces), com))
                else:
                    out.append(Tok('dir', full, line, tuple(conds), _ns(braces), _depth(braces), com))
                    if word in ('if', 'ifdef', 'ifndef'):
                        conds.append(full)
                i = m.end()
                bol = False
                continue
        m = _TOK.match(text, i)
        k = m.lastgroup
        t = m.group(0)
        i = m.end()
        if k == 'nl':
            line += 1
            bol = True
            continue
        if k == 'ws':
            continue
        if k == 'com':
            if t.startswith('/*') and not t.endswith('*/'):
                raise Bad('unterminated comment')
            out.append(Tok('com', t, line, tuple(conds), _ns(braces), _depth(braces), ''))
            line += t.count('\n')
            continue
        if t == '/' and text[i:i + 1] == '*':
            raise Bad('unterminated comment at line %d' % line)
        bol = False
        if k == 'p' and t == '}':
            if not braces:
                raise Bad('} without { at line %d' % line)
            braces.pop()
        out.append(Tok(k, t, line, tuple(conds), _ns(braces), _depth(braces), ''))
        if k == 'id' and t == 'namespace':
            pend = ''
        elif pend is not None and (k == 'id' or t == '::'):
            pend += t
        elif k == 'p' and t == '{':
            braces.append(pend)
            pend = None
        elif k == 'p' and t in ';=':
            pend = None
    if conds:
        raise Bad('#if without #endif')
    if braces:
        raise Bad('{ without }')
    return out


def _ns(braces):
    return tuple(x for b in braces if b for x in b.split('::'))


def _depth(braces):
    return sum(1 for b in braces if b is None)


def includes(toks):
    """(key, token) of every include directive."""
    for t in toks:
        if t.kind == 'dir':
            m = re.match(r'#\s*include\s*([<"][^>"]*[>"])', t.text)
            if m:
                yield m.group(1), t


def idents(toks, pattern):
    rx = re.compile(pattern)
    for i, t in enumerate(toks):
        if t.kind == 'id' and rx.fullmatch(t.text):
            yield t.text, t, toks[i + 1] if i + 1 < len(toks) else None
