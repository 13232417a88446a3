"""The project's own sample programs (tests/c, tests/cxx) with the advice their
authors documented in them, and edits of them that do not change their meaning.

A case names a program and edits; perform() runs IWYU on the edited program and
compares the advice with the documented one.
"""
import fnmatch
import glob
import os
import re
import shlex
import shutil

from hypothesis import strategies as st

from vlib import core, iwyurun

REPO = os.environ.get('VERIF_REPO', '/repo')
ARGS_RE = re.compile(r'^// IWYU_ARGS:\s(.*)$')


class Sample:
    pass


# samples that take more than half a second a run
SLOW = ['badinc', 'precomputed_tpl_args', 'expl_inst_macro', 'no_char_traits', 'iterator', 'scope_crash', 'precomputed_tpl_args_cpp14', 'libbuiltins', 'stl_container_provides_allocator', 'no_deque', 'overloaded_class', 'badinc-extradef']
if os.environ.get('VERIF_TIER', 'quick') != 'quick':
    SLOW = []
_samples = None


def launch_args(text):
    lines = text.split('\n')
    for k, l in enumerate(lines):
        m = ARGS_RE.match(l)
        if m:
            a = m.group(1)
            while a.endswith('\\'):
                k += 1
                a = a[:-1] + ' ' + lines[k][3:].strip()
            return shlex.split(a)
    return []


def summary(text):
    m = re.search(r'^/\*\*\*\* IWYU_SUMMARY(?:\(.*\))?\n(.*?)^\*\*\*\*\* IWYU_SUMMARY \*/', text, re.S | re.M)
    if not m:
        return None
    lines = [l for l in m.group(1).split('\n') if not re.match(r'\s*//', l)]
    return '\n'.join(lines)


def norm(rep):
    """A report without line numbers and without the order of names."""
    def comment(c):
        if c is None:
            return None
        if c.startswith('for '):
            return 'for ' + ', '.join(sorted(c[4:].split(', ')))
        return re.sub(r'\d+-\d+', 'N', re.sub(r'XX-XX(\+\d+)?', 'N', c))
    return (rep.correct, sorted(t for t, c in rep.add), sorted(x[0] for x in rep.remove),
            [(t, comment(c)) for t, c in rep.full])


def parse_expected(text):
    return iwyurun.parse(re.sub(r'lines XX-XX(\+\d+)?', 'lines 1-1', text), strict=False)[0]


def samples():
    global _samples
    if _samples is not None:
        return _samples
    out = []
    for d in ('c', 'cxx'):
        for f in sorted(glob.glob(os.path.join(REPO, 'tests', d, '**', '*.c*'), recursive=True)):
            if not f.endswith(('.c', '.cc')):
                continue
            s = Sample()
            s.main = os.path.relpath(f, REPO)
            text = open(f, encoding='utf-8').read()
            if 'IWYU_XFAIL' in text or 'IWYU_REQUIRES' in text or 'IWYU_UNSUPPORTED' in text:
                continue
            s.args = launch_args(text)
            stem, ext = os.path.splitext(s.main)
            dn, bn = os.path.split(stem)
            rel = []
            for pat in ('%s-*' % stem, '%s/*/%s-*' % (dn, bn), '%s.h' % stem, '%s/*/%s.h' % (dn, bn)):
                rel += [os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, pat))]
            s.files = [s.main] + sorted(x for x in rel if not x.endswith((ext, '.imp')))
            s.expected = {}
            for x in s.files:
                e = summary(open(os.path.join(REPO, x), encoding='utf-8').read())
                if e is not None:
                    s.expected.update(parse_expected(e))
            if s.expected and os.path.exists(os.path.join(REPO, s.main)):
                s.name = bn
                out.append(s)
    _samples = out
    return out


def select(patterns, exclude=()):
    """Indexes of the samples whose name matches."""
    return [k for k, s in enumerate(samples()) if any(fnmatch.fnmatch(s.name, p) for p in patterns)
            and not any(fnmatch.fnmatch(s.name, p) for p in exclude)]


def safe_lines(text):
    """Line indexes before which a line may be inserted without effect."""
    out = [0]
    lines = text.split('\n')
    i, n = 0, len(text)
    line = 0
    state = None
    while i < n:
        c = text[i]
        if c == '\n':
            line += 1
            if state == '//':
                if i and text[i - 1] == '\\':
                    pass
                else:
                    state = None
            if state is None and not (i and text[i - 1] == '\\'):
                out.append(line)
            i += 1
            continue
        if state is None:
            if text.startswith('//', i):
                state = '//'
            elif text.startswith('/*', i):
                state = '/*'
                i += 1
            elif text.startswith('R"', i):
                m = re.compile(r'R"([^(\n]*)\(').match(text, i)
                if m:
                    end = text.find(')' + m.group(1) + '"', m.end())
                    if end > 0:
                        line += text.count('\n', i, end)
                        i = end
            elif c in '"\'' and not (c == "'" and i and text[i - 1].isalnum()):
                j = i + 1
                while j < n and text[j] not in (c, '\n'):
                    j += 2 if text[j] == '\\' else 1
                i = j if j < n and text[j] == c else i
        elif state == '/*' and text.startswith('*/', i):
            state = None
            i += 1
        i += 1
    return [k for k in out if k < len(lines)]


FILLS = ['', '', '  ', '// plain comment', '/* block */', '// #include "nothing.h"', '/* class Nothing; */', '\t',
         '// See vector and string.', '/* two\n   lines */', '// IWYU prgama: keep', '/**/ // class X;']
TAILS = ['int verif_tail_@;', 'typedef char verif_tail_@[3];', 'namespace verif_tail_@ { int x; }', '#define VERIF_TAIL_@ 1',
         'namespace verif_tail_@ {\nstruct T { int x; };\nint f(T t) { return t.x; }\n}']
C_TAILS = ['int verif_tail_@;', '#define VERIF_TAIL_@ 1', 'struct verif_tail_@ { int x; };\nint verif_f_@(struct verif_tail_@ t) { return t.x; }']


def edit(text, ops, c_file):
    """Applies the edits; they leave the meaning of the text alone."""
    m = re.search(r'^/\*\*\*\* IWYU_SUMMARY', text, re.M)
    body, rest = (text[:m.start()], text[m.start():]) if m else (text, '')
    for k, op in enumerate(ops):
        what, a, b = op
        if what == 'fill':
            lines = body.split('\n')
            pos = safe_lines(body)
            at = pos[a % len(pos)]
            lines[at:at] = [FILLS[b % len(FILLS)]]
            body = '\n'.join(lines)
        elif what == 'trail':
            lines = body.split('\n')
            pos = [p - 1 for p in safe_lines(body) if p and not re.search(r'IWYU|pragma', lines[p - 1])]
            if pos:
                at = pos[a % len(pos)]
                lines[at] += [' ', '  /* end */', '\t', '  // end'][b % 4]
            body = '\n'.join(lines)
        elif what == 'hash':
            lines = body.split('\n')
            pos = [p for p in safe_lines(body) if re.match(r'#(include|if|define|endif|else|undef)\b', lines[p])]
            if pos:
                at = pos[a % len(pos)]
                lines[at] = ['  #', '# ', '#   ', ' # '][b % 4] + lines[at][1:]
            body = '\n'.join(lines)
        elif what == 'incspace':
            lines = body.split('\n')
            pos = [p for p in safe_lines(body) if re.match(r'#include ["<]', lines[p])]
            if pos:
                at = pos[a % len(pos)]
                lines[at] = '#include' + ['', '   ', '\t', ' /* of */ '][b % 4] + lines[at][9:]
            body = '\n'.join(lines)
        elif what == 'nonotes':
            body = re.sub(r'^[ \t]*// IWYU: .*$', '', body, flags=re.M)
        elif what == 'tail':
            if not body.endswith('\n'):
                body += '\n'
            t = C_TAILS if c_file else TAILS
            if not re.search(r'^#\s*endif', body[-400:], re.M):
                body += t[b % len(t)].replace('@', '%d' % (k + 1)) + '\n'
    if any(o[0] == 'nosummary' for o in ops):
        rest = re.sub(r'^/\*.*?\*/', '', rest, flags=re.S)
    out = body + rest
    if any(o[0] == 'crlf' for o in ops):
        out = out.replace('\n', '\r\n')
    return out


def ops_strategy(max_ops=6):
    n = st.integers(0, 5000)
    op = st.one_of(st.tuples(st.sampled_from(['fill', 'fill', 'fill', 'trail', 'hash', 'incspace']), n, st.integers(0, 11)),
                   st.tuples(st.sampled_from(['tail', 'nonotes', 'crlf', 'nosummary']), st.just(0), st.integers(0, 11))).map(list)
    return st.lists(st.tuples(st.integers(0, 9), op).map(list), max_size=max_ops)


def cases(patterns, exclude=(), max_ops=6):
    names = [samples()[k].main for k in select(patterns, exclude)]
    return st.builds(lambda n, o: dict(sample=n, ops=o), st.sampled_from(names), ops_strategy(max_ops))


def find(main):
    for s in samples():
        if s.main == main:
            return s
    raise core.Skip('no such sample any more')


_root = {}


def root(check):
    """A copy of the sample tree, one for each worker."""
    r = os.path.join(check.tmp, 'corpus')
    if not os.path.isdir(r):
        shutil.copytree(os.path.join(REPO, 'tests'), os.path.join(r, 'tests'), symlinks=True)
    return r


def edited(s, ops, texts=None):
    if texts is None:
        texts = {f: open(os.path.join(REPO, f), encoding='utf-8', newline='').read() for f in s.files}
    per = {}
    for which, op in ops:
        if op[0] == 'crlf':
            for f in s.files:
                per.setdefault(f, []).append(op)
        else:
            f = s.files[0] if op[0] == 'tail' else s.files[which % len(s.files)]
            per.setdefault(f, []).append(op)
    return {f: edit(texts[f], o, s.main.endswith('.c')) for f, o in per.items()}


class Edited:
    """Puts edited files in place and the originals back afterwards."""

    def __init__(self, check, s, files):
        self.root, self.s, self.files = root(check), s, files

    def __enter__(self):
        for f, t in self.files.items():
            with open(os.path.join(self.root, f), 'w', encoding='utf-8', newline='') as h:
                h.write(t)
        return self.root

    def __exit__(self, *a):
        for f in self.files:
            shutil.copyfile(os.path.join(REPO, f), os.path.join(self.root, f))


def perform(check, case, extra=()):
    """Runs the case; returns (labels, non-trivial)."""
    s = find(case['sample'])
    files = edited(s, case['ops'])
    with Edited(check, s, files) as r:
        res = iwyurun.run(r, ['-w', '-Xiwyu', '--verbose=3'] + list(extra) + s.args + [s.main])
    show = lambda: '%s %s\n%s\n== report\n%s' % (s.main, ' '.join(s.args), '\n'.join('== %s\n%s' % kv for kv in sorted(files.items())), res.text)
    try:
        reports, other = iwyurun.parse(res.stderr)
    except iwyurun.Garbled as e:
        raise core.Violation('the report is garbled (%s)\n%s' % (e, show()), key='garbled report')
    for f, want in s.expected.items():
        core.need(f in reports, lambda: 'no report on %s, on which the sample documents one\n%s' % (f, show()), key='missing report')
        got, exp = norm(reports[f]), norm(want)
        core.need(got == exp, lambda: 'the advice on %s is not the documented one.\nwanted %s\ngot    %s\n%s' % (f, exp, got, show()),
                  key='differs from the documented advice')
    return ['sample ' + s.name] + sorted({'edit ' + o[1][0] for o in case['ops']}), bool(case['ops']) and not all(
        w.correct for w in s.expected.values())
