import os
import random
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, corpus, cxxgen, iwyurun
from vlib.core import need

BASE = 200
HOW = ['comments', 'duplicate include', 'permute includes', 'permute uses', 'rename entities', 'rename headers', 'rename files', 'crlf',
       'guard style', 'spacing', 'split file']


def canon(reports, name):
    """The advice in terms of the original names."""
    out = {}
    for f, r in reports.items():
        def t(s):
            s = re.sub(r'(?<=[A-Za-z_])(\d+)', lambda m: str(int(m.group(1)) - BASE) if int(m.group(1)) > BASE else m.group(1), s)
            s = re.sub(r'\bgg(?=\d)', 'h', s)
            return s.replace('"%s.h"' % name, '"m.h"')
        key = f.replace(name + '.', 'm.')
        out[key] = (r.correct, sorted(t(x) for x, c in r.add), sorted(t(x[0]) for x in r.remove), sorted(t(x) for x, c in r.full))
    return out


class C23(core.Check):
    id = 'C23'
    rule = ('Cases are (1) generated programs analysed before and after up to 4 meaning-preserving edits of 10 kinds, and (2) the 190 '
            'sample programs of the project under up to 6 edits of blank lines, comments, spacing, line ends and unrelated code, '
            'whose advice must stay the one documented in them. Non-trivial = there is advice and at least one edit.')
    quick = 2600
    thorough = 60000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        gen = st.builds(lambda c, h, s: dict(c, how=sorted(set(h)), shuffle=s), st.one_of(cxxgen.cases(max_uses=6), cxxgen.cases(max_uses=6, assoc=True)),
                        st.lists(st.sampled_from(HOW[:10]), min_size=1, max_size=4), st.integers(0, 1 << 16))
        return st.one_of(corpus.cases(['*'], exclude=corpus.SLOW), corpus.cases(['*'], exclude=corpus.SLOW), gen)

    def execute(self, case):
        if 'sample' in case:
            return corpus.perform(self, case)
        how = case['how']
        rnd = random.Random(case['shuffle'])
        p = cxxgen.build(case)
        if p.assoc and 'permute includes' in how:
            pass
        reports, r = cxxgen.analyse(self, p.files(), p.args, p.main.name)
        before = canon(reports, 'm')
        name = 'renamed-file' if 'rename files' in how else 'm'
        q = cxxgen.build(case, base=BASE if 'rename entities' in how else 0, stem='gg' if 'rename headers' in how else 'h', name=name,
                         flip='guard style' in how)
        units = [u for u in (q.main, q.assoc) if u]
        for u in units:
            if 'permute includes' in how:
                rnd.shuffle(u.includes)
            if 'permute uses' in how:
                rnd.shuffle(u.uses)
        files = q.files()
        dup = {}
        for u in units:
            if 'duplicate include' in how and u.includes:
                k = rnd.randrange(len(u.includes))
                h = u.includes[k]
                lines = files[u.name].split('\n')
                at = max(i for i, l in enumerate(lines) if l == '#include ' + h.spelling)
                lines.insert(at + 1, lines[at])
                files[u.name] = '\n'.join(lines)
                dup[u.name.replace(name + '.', 'm.')] = '#include ' + re.sub(r'\bgg(?=\d)', 'h', h.spelling)
        for f in sorted(files):
            ops = []
            if 'comments' in how:
                ops += [['fill', rnd.randrange(5000), rnd.randrange(12)] for _ in range(rnd.randrange(4))]
            if 'spacing' in how:
                ops += [[rnd.choice(['trail', 'hash', 'incspace']), rnd.randrange(5000), rnd.randrange(12)] for _ in range(rnd.randrange(4))]
            if 'crlf' in how:
                ops.append(['crlf', 0, 0])
            if 'GUARD' in files[f].split('\n', 1)[0]:
                ops = [o for o in ops if o[0] != 'tail']
            files[f] = corpus.edit(files[f], ops, False)
        reports2, r2 = cxxgen.analyse(self, files, q.args, q.main.name)
        after = canon(reports2, name)
        show = lambda: '%s: %s\n%s\n== report\n%s\n==== edited\n%s\n== report\n%s' % (
            ', '.join(how), name, p.show(), r.text, '\n'.join('== %s\n%s' % kv for kv in sorted(files.items())), r2.text)
        need(set(before) == set(after), lambda: 'reports on different files\n' + show(), key='different files')
        for f in before:
            b, a = before[f], after[f]
            if f in dup:
                d = dup[f]
                kept = d not in b[2]
                have = sorted(b[2] + [d])
                want = (False, b[1], have, a[3] if b[0] else b[3])
                need(not b[0] or sorted(set(a[3])) == a[3], lambda: 'the full list names something twice\n' + show(), key='changed')
                b = want
            need(a == b, lambda: 'the advice on %s changes\nwas %r\nis  %r\n%s' % (f, b, a, show()), key='changed')
        return how, any(not x[0] for x in before.values())


if __name__ == '__main__':
    core.run(C23())
