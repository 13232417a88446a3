import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, corpus, cxxgen, iwyurun
from vlib.core import need

NUM = [None, None, 0, 1, 2, 5, 13, 20, 24, 30, 40, 60, 79, 80, 81, 120, 400, 100000]


def option_sets():
    return st.lists(st.builds(lambda l, s, u, v, q, e: (
        (['--max_line_length=%d' % l] if l is not None else []) + s + u + (['--verbose=%d' % v] if v is not None else []) + q + e),
        st.sampled_from(NUM), st.sampled_from([[], [], ['--comment_style=none'], ['--comment_style=short'], ['--comment_style=long'],
                                               ['--comment_style=long'], ['--no_comments']]),
        st.sampled_from([[], [], ['--update_comments']]), st.sampled_from([None, None, None, 0, 1, 2, 3, 3, 4, 6]),
        st.sampled_from([[], [], ['--quoted_includes_first']]), st.sampled_from([[], [], ['--error'], ['--error=3'], ['--error_always=7']])),
        min_size=1, max_size=3)


def value(opts, name):
    for o in reversed(opts):
        if o.startswith(name + '='):
            return o.split('=')[1]


def strip(report):
    return re.sub(r'\s*//.*$', '', report)


def symbols(comment):
    """Names in a comment; "operator," and template commas are left whole."""
    if not comment or not comment.startswith('for '):
        return []
    out, depth, cur = [], 0, ''
    text = comment[4:]
    i = 0
    while i < len(text):
        if text.startswith('operator', i):
            m = re.compile(r'operator\s*(\(\)|\[\]|,|[-+*/%^&|~!=<>]+|"" ?\w+|[\w ]*)').match(text, i)
            cur += m.group(0)
            i = m.end()
            continue
        c = text[i]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        if text.startswith(', ', i) and depth == 0:
            out.append(cur)
            cur = ''
            i += 2
            continue
        cur += c
        i += 1
    return out + [cur]


def parse(text, level):
    if level == 0:
        # only the full list is printed
        files, cur = {}, None
        for l in text.split('\n'):
            m = re.match(r'\((.*) has correct #includes/fwd-decls\)$', l)
            n = re.match(r'The full include-list for (.*):$', l)
            if m:
                files[m.group(1)] = iwyurun.FileReport()
                files[m.group(1)].correct = True
            elif n:
                cur = files[n.group(1)] = iwyurun.FileReport()
            elif l == '---':
                cur = None
            elif cur and l:
                cur.full.append(iwyurun.split_comment(l))
            elif re.search(r'should (add|remove) these lines', l):
                raise core.Violation('unexpected line at --verbose=0: %r' % l, key='verbose 0')
        return files
    return iwyurun.parse(text)[0]


def split_for(line):
    m = re.match(r'(.*?\S)(\s{2,}// for )(.*)$', line)
    return m and (m.group(1), m.group(3))


class C21(core.Check):
    id = 'C21'
    rule = ('A case is a generated program or one of the 190 samples with edits, and up to three sets of presentation options; each '
            'is run and compared with a run that has none of them, one of the runs is repeated. Non-trivial = some report has suggestions.')
    quick = 1200
    thorough = 30000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        gen = st.one_of(cxxgen.cases(max_uses=8), cxxgen.cases(max_uses=6, assoc=True))
        smp = corpus.cases(['*'], max_ops=2, exclude=['no_comments', 'comment_style*', 'max_line_length*', 'verbos*', 'update_comments', 'error*', 'quoted_includes_first'] + corpus.SLOW)
        return st.builds(lambda c, o: dict(c, opts=o), st.one_of(gen, gen, smp), option_sets())

    def run(self, root, args, opts):
        return iwyurun.run(root, ['-w'] + args[:-1] + [x for o in opts for x in ('-Xiwyu', o)] + args[-1:])

    def execute(self, case):
        if 'sample' in case:
            s = corpus.find(case['sample'])
            files = corpus.edited(s, case['ops'])
            with corpus.Edited(self, s, files) as root:
                return self.compare(root, s.args + [s.main], case, None)
        p = cxxgen.build(case)
        root = os.path.join(self.tmp, 'p')
        cxxgen.analyse(self, p.files(), p.args, p.main.name)
        return self.compare(root, p.args + [p.main.name], case, p)

    def compare(self, root, args, case, prog):
        show = lambda: 'args %s\n%s' % (args, prog.show() if prog else case['sample'])
        base = self.run(root, args, [])
        try:
            ref, other = iwyurun.parse(base.stderr)
            full = {c: iwyurun.parse(self.run(root, args, ['--verbose=3', '--comment_style=' + c]).stderr)[0] for c in ('short', 'long')}
        except iwyurun.Garbled as e:
            raise core.Violation('the report is garbled (%s)\n%s' % (e, show()), key='garbled report')
        if base.status:
            raise core.Skip('does not compile')
        if prog:
            self.names(prog, full['long'], show)
        for k, opts in enumerate(case['opts']):
            r = self.run(root, args, opts)
            both = lambda: 'options %s\n%s\n== without\n%s\n== with\n%s' % (opts, show(), base.text, r.text)
            if k == 0:
                again = self.run(root, args, opts)
                need(re.sub(r'0x[0-9a-f]+', '', r.text) == re.sub(r'0x[0-9a-f]+', '', again.text) and r.status == again.status,
                     lambda: 'another run gives another output\n%s\n== again\n%s' % (both(), again.text), key='not repeatable')
            need(r.status >= 0 and 'Assertion' not in r.stderr, lambda: 'crash\n' + both(), key='crash')
            level = int(value(opts, '--verbose') or 1)
            try:
                got = parse(r.stderr, level)
            except iwyurun.Garbled as e:
                if any('no_comments' in o or '=none' in o for o in opts):
                    got = None
                else:
                    raise core.Violation('the report is garbled (%s)\n%s' % (e, both()), key='garbled report')
            if got is None:
                got = iwyurun.parse(r.stderr, strict=True)[0]
            need(set(got) == set(ref), lambda: 'reports on other files\n' + both(), key='files')
            order = '--quoted_includes_first' in opts
            for f, a in ref.items():
                b = got[f]
                clean = a.correct
                srt = sorted if order else list
                if clean and '--update_comments' not in opts:
                    need(b.correct, lambda: '%s is not correct any more\n%s' % (f, both()), key='verdict')
                    continue
                if not clean:
                    need(not b.correct, lambda: '%s is correct now\n%s' % (f, both()), key='verdict')
                if level > 0:
                    need(srt(t for t, c in a.add) == srt(t for t, c in b.add), lambda: '%s: other additions\n%s' % (f, both()), key='additions')
                    same = lambda x: srt((q[0],) if any(z[1] == 0 for z in b.remove) else q for q in x.remove)
                    need(same(a) == same(b), lambda: '%s: other removals\n%s' % (f, both()), key='removals')
                if not clean:
                    need(srt(t for t, c in a.full) == srt(t for t, c in b.full), lambda: '%s: another full list\n%s' % (f, both()), key='full list')
                self.comments(f, opts, level, b, full, clean, both)
            if level <= 1:
                self.layout(opts, r, both)
            else:
                self.layout(opts + ['nofit'] if level >= 3 else opts, r, both)
        return ['sample' if not prog else 'generated'] + sorted({o for l in case['opts'] for o in l}), any(not x.correct for x in ref.values())

    def comments(self, f, opts, level, b, full, clean, both):
        """Comments are the long or short names, cut to the line length."""
        style = 'short'
        none = False
        for o in opts:
            if o.startswith('--comment_style='):
                if o.endswith('=none'):
                    none = True
                else:
                    style = o.split('=')[1]
            if o == '--no_comments':
                none = True
        if clean:
            return
        want = {}
        for t, c in full[style][f].full + full[style][f].add:
            want.setdefault(t, symbols(c))
        for t, c in b.full + b.add:
            if none:
                need(c is None, lambda: '%s: a comment in spite of the options: %s // %s\n%s' % (f, t, c, both()), key='comment')
                continue
            have = symbols(c)
            w = want.get(t, [])
            if level >= 3:
                need(have == w, lambda: '%s: comment on %s is %r, not %r\n%s' % (f, t, have, w, both()), key='comment')
                continue
            need(len(have) <= len(w) and ''.join(have).count('...') <= 1 or 'operator' in ''.join(w) or '...' in ''.join(w),
                 lambda: '%s: comment on %s is %r, more than %r\n%s' % (f, t, have, w, both()), key='comment')
            joined, cut = ', '.join(w), (c or '')[4:] if (c or '').startswith('for ') else ''
            ok = joined.startswith(cut[:-3] if cut.endswith('...') else cut)
            need(ok, lambda: '%s: comment on %s is not a beginning of %r\n%s' % (f, t, joined, both()), key='comment')
            if int(value(opts, '--max_line_length') or 80) >= 400 and len(joined) < 300:
                need(cut == joined, lambda: '%s: comment on %s is cut needlessly\n%s' % (f, t, both()), key='comment')
        ls, ss = full['long'][f], full['short'][f]
        for (t, cl), (t2, cs) in zip(ls.full, ss.full):
            a, s = ([x.replace(' (ptr only)', '') for x in symbols(y)] for y in (cl, cs))
            need(t == t2, lambda: 'styles change the list\n' + both(), key='full list')
            need(all(any(x.endswith(y) for x in a) for y in s) and all(any(x.endswith(y) for y in s) for x in a),
                 lambda: '%s: long names %r are not the short names %r\n%s' % (f, a, s, both()), key='styles')

    def layout(self, opts, r, both):
        """Lines fit and comments are aligned."""
        limit = int(value(opts, '--max_line_length') or 80)
        block = []
        for l in r.stderr.split('\n') + ['']:
            m = split_for(l) if re.match(r'(- )?(#include|class|struct|union|enum|template|namespace)\b', l) else None
            if m:
                if 'nofit' not in opts:
                    need(len(l.encode()) < limit, lambda: 'a line with %d characters: %r\n%s' % (len(l), l, both()), key='too long')
                block.append(l.index('  // for ') + 2 if False else l.rindex('// for '))
            if l == '---':
                need(len(set(block)) <= 1, lambda: 'comments are not aligned: %r\n%s' % (block, both()), key='alignment')
                block = []

    def names(self, p, full, show):
        """Each named symbol belongs to the header it is named for."""
        units = {u.name: u for u in (p.main, p.assoc) if u}
        by_spelling = {h.spelling: h for h in p.headers}
        for f, rep in full.items():
            text = p.files()[f]
            for t, c in rep.full:
                h = by_spelling.get(t[9:]) if t.startswith('#') else None
                if not h:
                    continue
                for s in symbols(c):
                    s = s.replace(' (ptr only)', '')
                    nums = {int(x) for x in re.findall(r'[A-Za-z_](\d+)', s)}
                    if nums:
                        need(nums & {e.num for e in h.entities}, lambda: '%s: %s is not in %s\n%s' % (f, s, t, show()), key='wrong symbol')
                        # "E1" may stand for its enumerator e1a, so only the number counts
                        need(any(re.search(r'[A-Za-z_]%d(?!\d)' % x, text) for x in nums), lambda: '%s: %s (for %s) does not occur in the file\n%s' % (
                            f, s, t, show()), key='symbol not in file')


if __name__ == '__main__':
    core.run(C21())
