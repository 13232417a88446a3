import json
import os
import re
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, cxxgen, iwyurun, simple
from vlib.core import need

GOOD = ['{ "include": ["<zz/a.h>", "private", "<zz/b.h>", "public"] }', '{ "symbol": ["zz::f", "private", "<zz/b.h>", "public"] }',
        '{ "include": ["@<zz/.*_impl\\\\.h>", "private", "<zz/b.h>", "public"] }', '{ "include": ["\\"h1.h\\"", "private", "<pub/h1.h>", "public"] }',
        '{ "include": ["<zz/b.h>", "public", "<zz/c.h>", "public"] }', '{ "ref": "ok.imp" }']
# (entry, whether it has to draw a diagnostic)
BAD = [('{ "include": ["\\"h2.h\\"", "private", "<pub/h2.h>"] }', 1), ('{ "include": ["\\"h2.h\\"", "private", "<pub/h2.h>", "public", "x"] }', 1),
       ('{ "include": [] }', 1), ('{ "include": "\\"h2.h\\"" }', 1), ('{ "include": {"a": "b"} }', 1), ('{ "include": null }', 1), ('{ "include" }', 1), ('{ "include": }', 1),
       ('{ "include": ["\\"h2.h\\"", "Private", "<pub/h2.h>", "public"] }', 1), ('{ "include": ["\\"h2.h\\"", "private", "<pub/h2.h>", ""] }', 1),
       ('{ "include": ["h2.h", "private", "<pub/h2.h>", "public"] }', 1), ('{ "include": ["\\"h2.h\\"", "private", "pub/h2.h", "public"] }', 1),
       ('{ "include": ["", "private", "", "public"] }', 1), ('{ "include": ["\\"", "private", "\\"", "public"] }', 1), ('{ "include": ["<\\"", "private", "\\">", "public"] }', 1),
       ('{ "include": [["a"], {}, null, 3] }', 1), ('{ "include": [1, 2, 3, 4] }', 1), ('{ "symbol": ["f2", "private", "<pub/h2.h>"] }', 1),
       ('{ "symbol": ["f2", "private", "pub/h2.h", "public"] }', 1), ('{ "symbol": ["f2", "private", "<pub/h2.h>", "open"] }', 1), ('{ "symbol": "f2" }', 1),
       ('{ "symbol": [null, null, null, null] }', 1), ('{ "ref": "missing.imp" }', 1), ('{ "ref": "" }', 1), ('{ "ref": ["ok.imp"] }', 1), ('{ "ref": null }', 1), ('{ "ref": "." }', 1),
       ('{ "ref": "/dev/null" }', 0), ('{ "ref": "bad.imp" }', 0), ('{ "ref": "/" }', 1), ('{ "ref": "bin.imp" }', 0),
       ('{ "Include": ["\\"h2.h\\"", "private", "<pub/h2.h>", "public"] }', 1), ('{ "": 0 }', 1), ('{ [1]: 2 }', 1), ('{ {"a": 1}: 2 }', 1),
       ('"include"', 1), ('[]', 1), ('["include", "a"]', 1), ('7', 1), ('null', 1), ('{}', 0), ('*alias', 1), ('&a { "symbol": ["a", "private", "<b>", "public"] }', 0),
       ('!!map { "ref": "ok.imp" }', 0), ('? { "ref": "ok.imp" }', 0), ('- x', 0), ('{ "ref": "ok.imp", "ref": "ok.imp" }', 0),
       # Names that get both visibilities.
       ('{ "include": ["\\"s0.h\\"", "public", "<pub/s0.h>", "public"] }', 0), ('{ "include": ["<pub/s0.h>", "private", "<zz/c.h>", "private"] }', 0),
       ('{ "include": ["<vector>", "private", "<string>", "private"] }', 0), ('{ "symbol": ["zz::g", "private", "<vector>", "private"] }', 0),
       ('{ "include": ["\\"h3.h\\"", "public", "<pub/h3.h>", "public"] }', 0), ('{ "include": ["@\\"h[23].h\\"", "public", "<pub/h3.h>", "public"] }', 0),
       ('{ "include": ["@\\"h.*", "private", "<pub/h3.h>", "public"] }', 0), ('{ "include": ["\\"internal/h4.h\\"", "public", "<pub/h3.h>", "public"] }', 0),
       # Patterns and replacements that make little sense.
       ('{ "include": ["@(", "private", "<pub/h2.h>", "public"] }', 2), ('{ "include": ["@[", "private", "<pub/h2.h>", "public"] }', 2), ('{ "include": ["@*", "private", "<pub/h2.h>", "public"] }', 2),
       ('{ "include": ["@", "private", "<pub/h2.h>", "public"] }', 0), ('{ "include": ["@\\"h2.h\\"", "private", "<pub/\\\\7>", "public"] }', 0),
       ('{ "include": ["@\\"h2.h\\"", "private", "<pub/$7\\\\>", "public"] }', 0), ('{ "include": ["@\\"(h)2.h\\"", "private", "\\"\\\\1\\"", "public"] }', 0),
       ('{ "include": ["@a{1", "private", "<pub/h2.h>", "public"] }', 2), ('{ "include": ["@a{2,1}", "private", "<pub/h2.h>", "public"] }', 2), ('{ "include": ["@\\\\", "private", "<pub/h2.h>", "public"] }', 2),
       ('{ "include": ["@[z-a]", "private", "<pub/h2.h>", "public"] }', 2), ('{ "include": ["@[[:foo:]]", "private", "<pub/h2.h>", "public"] }', 2),
       # Rings.
       ('{ "include": ["\\"h2.h\\"", "public", "\\"h2.h\\"", "public"] }', 0), ('{ "ref": "m.imp" }', 0), ('{ "ref": "./sub/../m.imp" }', 0), ('{ "ref": "link.imp" }', 0), ('{ "ref": "sub/back.imp" }', 0)]
WHOLE = ['', ' ', '\n\n', '{}', 'null', '"x"', '[', ']', '[]', '[,]', '[[]]', '# only a comment\n', '---\n', '---\n[]\n---\n[]\n', '--- {', '%YAML 1.2\n---\n[]', '%TAG\n', '{ "ref": "ok.imp" }',
         '\ufeff[]', '[\n', '- ', '-', '? ', ': ', '&', '*', '!', '|', '>', '@', '`', '"', "'", '"\\', '[{', '[{"include": [', '[{"include', '[ {"ref": ', '[{"a":1},', '\x00', '[\x00]', '...', '- - -', '!!', '&a *a', '[*a]',
         '- {', '- "', '- |\n  x\n', '[}', '{]', '[{]}', '\t[]', '[\t{ }]', 'a: b: c', '"a" "b"', '[a: b]', '[? a]', '{?}', '[!]', '[&a]', '[: ]', '{"a": [}', '-\n-\n', '[|]', '[>]', '[%]', '[@]', "['", '["\\x"]', '["\\u12"]', '[\r\n]', '\udcff']
JUNK = '{}[]",:#&*!|>%@`\'-?\\\n\t \x00\x01é\ufeff'


class C29(core.Check):
    id = 'C29'
    rule = ('Cases are mapping files of valid entries with (1) one of 80 faulty entries (wrong shapes, names, visibilities, patterns, refs, conflicts with other entries, '
            'built-in mappings and pragmas, rings), (2) one of 70 malformed documents, (3) up to 4 random edits of the text, (4) a missing file or directory; given directly or '
            'by ref. Non-trivial = a diagnostic is printed, or the text was edited.')
    quick = 2600
    thorough = 80000

    def prepare(self):
        iwyurun.prepare()

    def fixed(self):
        return ([dict(kind='bad', n=k, pre=[0], post=[3], ref=0, dialect=d) for k in range(len(BAD)) for d in (0, 1)]
                + [dict(kind='whole', n=k, ref=k % 2, dialect=0) for k in range(len(WHOLE))])

    def strategy(self):
        n = st.integers(0, 200)
        pre = st.lists(st.integers(0, len(GOOD) - 1), max_size=4)
        d = st.sampled_from([0, 0, 1])
        bad = st.builds(lambda k, a, b, r, d: dict(kind='bad', n=k, pre=a, post=b, ref=r, dialect=d), st.integers(0, len(BAD) - 1), pre, pre, st.integers(0, 2), d)
        edit = st.tuples(st.sampled_from(['del', 'ins', 'ins', 'cut', 'dup', 'swap']), st.integers(0, 600), st.integers(0, 40), st.text(alphabet=JUNK, min_size=1, max_size=3)).map(list)
        text = st.builds(lambda a, e, r, y: dict(kind='text', pre=a, edits=e, ref=r, style=y, dialect=0), pre, st.lists(edit, min_size=1, max_size=4), st.integers(0, 2), n)
        gone = st.builds(lambda a, w, r: dict(kind='gone', pre=a, what=w, ref=r, dialect=0), pre, st.integers(0, 5), st.integers(0, 2))
        soup = st.builds(lambda t, r: dict(kind='soup', text=t, ref=r, dialect=0), st.text(alphabet=JUNK + 'ab"[]{}:,include<>', max_size=40), st.integers(0, 2))
        return st.sampled_from([bad] * 5 + [text] * 5 + [gone, soup, soup]).flatmap(lambda s: s)

    def execute(self, case):
        first = '{ "include": ["\\"s0.h\\"", "private", "<pub/s0.h>", "public"] }'
        files = {'s0.h': '#pragma once\nint s0();\n', 'h1.h': '#pragma once\nint f1();\n', 'h2.h': '#pragma once\nint f2();\n',
                 'h3.h': '#pragma once\n// IWYU pragma: private, include "pub/p3.h"\nint f3();\n', 'internal/h4.h': '#pragma once\nint f4();\n',
                 'all.h': '#pragma once\n#include "s0.h"\n#include "h1.h"\n#include "h2.h"\n#include "h3.h"\n#include "internal/h4.h"\n',
                 'm.cc': '#include "all.h"\nint u = s0() + f1();\n',
                 'ok.imp': '[ { "symbol": ["zz::ok", "private", "<zz/ok.h>", "public"] } ]\n', 'bad.imp': '[ { "include": 7 } ]\n', 'bin.imp': '\x7fELF\x02\x00\x01[{"',
                 'sub/back.imp': '[ { "ref": "../m.imp" }, { "ref": "back.imp" } ]\n'}
        kind = case['kind']
        # What has to hold whatever comes after the first entry; None when the file never had one.
        sentinel, must_warn = True, False
        entries = [first] + [GOOD[k] for k in case.get('pre', [])]
        if kind == 'bad':
            bad, must_warn = BAD[case['n']]
            if must_warn == 2:
                must_warn = 0
            text = '[\n' + ',\n'.join(entries + [bad] + [GOOD[k] for k in case['post']]) + '\n]\n'
        elif kind == 'whole':
            text, sentinel = WHOLE[case['n']], None
        elif kind == 'soup':
            text, sentinel = case['text'], None
        elif kind == 'gone':
            text = '[\n' + ',\n'.join(entries) + '\n]\n'
        else:
            text = '[\n' + ',\n'.join(entries + [GOOD[0], GOOD[1]]) + '\n]\n'
            safe = text.index('\n', text.index(GOOD[0] if len(entries) < 2 else entries[1])) + 1
            for what, at, n, junk in case['edits']:
                at = safe + at % max(1, len(text) - safe)
                if what == 'del':
                    text = text[:at] + text[at + 1 + n % 4:]
                elif what == 'ins':
                    text = text[:at] + junk + text[at:]
                elif what == 'cut':
                    text = text[:at]
                elif what == 'dup':
                    text = text[:at] + text[max(0, at - n):at] + text[at:]
                else:
                    text = text[:at] + text[at:at + 2][::-1] + text[at + 2:]
        files['m.imp'] = text
        opts = ['--mapping_file=m.imp']
        if case['ref'] == 1:
            files['top.imp'] = '[ { "ref": "m.imp" } ]\n'
            opts = ['--mapping_file=top.imp']
        elif case['ref'] == 2:
            opts = ['--mapping_file=ok.imp', '--mapping_file=m.imp', '--mapping_file=sub/back.imp']
        if kind == 'gone':
            what = ['gone.imp', 'sub', 'm.cc', '/dev/null', '', 'gone/x.imp'][case['what']]
            must_warn = case['what'] != 3
            at = case['ref'] % 2
            opts[at:at] = ['--mapping_file=' + what]
        if case['dialect']:
            opts.append('--regex=ecmascript')
        root = os.path.join(self.tmp, 'p')
        shutil.rmtree(root, ignore_errors=True)
        for name, t in files.items():
            p = os.path.join(root, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(t.encode('utf-8', 'surrogateescape'))
        os.symlink('m.imp', os.path.join(root, 'link.imp'))
        show = lambda: '%s\n== m.imp\n%r\n== output\n%s' % (opts, text, r.text[-3000:])
        r = iwyurun.run(root, [x for o in opts for x in ('-Xiwyu', o)] + ['-std=c++20', '-I.', '-fno-color-diagnostics', 'm.cc'], timeout=30)
        invalid = kind == 'bad' and BAD[case['n']][1] == 2 and case['dialect'] and r.status == -6 and ("throwing an instance of 'std::regex_error'" in r.text or not r.text)
        need(r.status == 0, lambda: 'IWYU ends with status %d\n%s' % (r.status, show()), key='invalid ecmascript pattern aborts' if invalid else 'crash')
        # The report is whole, whatever comes before it.
        m = re.search(r'^(\nm\.cc should add these lines:$|\(m\.cc has correct)', r.text, re.M)
        need(m, lambda: 'no report\n' + show(), key='no report')
        try:
            reports, other = iwyurun.parse(r.text[m.start():])
        except iwyurun.Garbled as e:
            if kind == 'text' and '\n#include <pub/s0.h>' in r.text:
                # An edited name can be one that no include line can hold.
                return [kind, 'odd name'], True
            raise core.Violation('the report is garbled (%s)\n%s' % (e, show()), key='garbled')
        said = r.text[:m.start()].strip()
        need(set(reports) == {'m.cc'} and not other, lambda: 'reports %s, %s\n%s' % (sorted(reports), other, show()), key='report')
        full = set(reports['m.cc'].full_includes())
        if sentinel:
            need('<pub/s0.h>' in full and '"s0.h"' not in full, lambda: 'the first mapping is not honoured\n' + show(), key='valid mapping lost')
        elif kind in ('whole', 'soup'):
            need(len(full) == 2, lambda: 'full list %s\n%s' % (sorted(full), show()), key='full list')
        if must_warn:
            need(said, lambda: 'nothing is said about the fault\n' + show(), key='silent')
        return [kind, 'said' if said else 'silent'], bool(said) or kind == 'text'


if __name__ == '__main__':
    core.run(C29())
