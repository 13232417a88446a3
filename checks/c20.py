import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, corpus, cxxgen, iwyurun
from vlib.core import need

INC = re.compile(r'\s*(?:/\*.*?\*/\s*)*#\s*(?:include|import|include_next)\b\s*(?:/\*.*?\*/\s*)*([<"][^>"]*[>"])')
OPTS = [[], ['--quoted_includes_first'], ['--comment_style=long'], ['--max_line_length=30'], ['--update_comments'], ['--cxx17ns'], ['--no_fwd_decls'],
        ['--transitive_includes_only'], ['--verbose=2'], ['--verbose=3']]


def kind(spelling, assoc, quoted_first):
    if spelling in assoc:
        return 2 if spelling.endswith('-inl.h"') else 1
    if quoted_first and spelling.endswith('"'):
        return 3
    if spelling.endswith('.h>'):
        return 4
    if spelling.endswith('>'):
        return 5
    return 6


def same_decl(text, quoted):
    """Whether source text can be the quoted forward declaration."""
    name = re.findall(r'\w+', quoted.split(' : ')[0].rstrip('; }'))[-1]
    return re.search(r'\b%s\b' % re.escape(name), text) is not None


def check_file(name, text, rep, assoc, quoted_first, update, show):
    """Everything one report has to satisfy by itself and against the file."""
    lines = text.replace('\r\n', '\n').split('\n')
    have, sure, depth = {}, set(), []
    safe = set(corpus.safe_lines('\n'.join(lines)))
    for i, l in enumerate(lines, 1):
        if i - 1 not in safe:
            continue
        m = INC.match(l)
        if m:
            have.setdefault(m.group(1), []).append(i)
            if not any(depth):
                sure.add(m.group(1))
        m = re.match(r'\s*#\s*(if|endif)', l)
        if m:
            if m.group(1) == 'if':
                depth.append(not re.match(r'\s*#\s*ifndef\s+\w*_(H|HH|HPP|INL)?_?\b', l))
            elif depth:
                depth.pop()
    fail = lambda cond, msg, key: need(cond, lambda: '%s: %s\n%s' % (name, msg, show()), key=key)
    if rep.correct:
        fail(rep.seen == ['correct'], 'reported as correct and more: %r' % rep.seen, 'correct and not')
        return
    fail(rep.seen == ['add', 'remove', 'full'], 'sections %r' % rep.seen, 'sections')
    fail(update or rep.add or rep.remove, 'nothing to do, yet not reported as correct', 'empty report')
    add = [t for t, c in rep.add]
    full = [t for t, c in rep.full]
    rem = [x[0] for x in rep.remove]
    fail(len(set(add)) == len(add), 'an addition is listed twice', 'twice')
    fail(len(set(full)) == len(full) or any(full.count(t) > 1 and len(have.get(t[9:], [])) > 1 for t in full), 'the full list names something twice', 'twice')
    fail(len(set(rep.remove)) == len(rep.remove), 'a removal is listed twice', 'twice')
    fail(not set(add) & set(rem), 'both added and removed: %s' % (set(add) & set(rem)), 'added and removed')
    for t in add:
        fail(t in full, 'the addition %s is not in the full list' % t, 'addition not in full list')
        if t.startswith('#'):
            fail(t[9:] not in sure, 'the addition %s is in the file already' % t, 'addition is there')
    # removals quote lines of the file
    for t, a, b in rep.remove:
        fail(1 <= a <= b <= len(lines), 'line numbers %d-%d are not in the file' % (a, b), 'line numbers')
        if t.startswith('#'):
            fail(a == b and a in have.get(t[9:], []), 'line %d is not %s' % (a, t), 'quoted line')
        else:
            fail(same_decl('\n'.join(lines[a - 1:b]), t), 'lines %d-%d do not declare %s' % (a, b, t), 'quoted declaration')
    # present - removals + additions == full list, for the includes
    for sp, at in have.items():
        gone = [a for t, a, b in rep.remove if t == '#include ' + sp]
        stays = len(at) - len(gone)
        if stays > 0:
            pass
        else:
            fail('#include ' + sp not in full or '#include ' + sp in add, '%s is removed everywhere, but in the full list' % sp, 'full list')
    for t in full:
        if t.startswith('#') and t not in add:
            sp = t[9:]
            fail(sp in have, '%s is in the full list, but neither in the file nor added' % sp, 'full list')
    for t, c in rep.full:
        if not t.startswith('#') and t not in add:
            m = re.match(r'lines (\d+)-(\d+)$', c or '')
            if m:
                a, b = int(m.group(1)), int(m.group(2))
                fail(1 <= a <= b <= len(lines) and same_decl('\n'.join(lines[a - 1:b]), t), 'lines %d-%d do not declare %s' % (a, b, t), 'quoted declaration')
    # order
    for what, ls in (('addition', add), ('full', full), ('removal', rem)):
        keys = [((kind(t[9:], assoc, quoted_first), t) if t.startswith('#') else (9, t)) for t in ls]
        fail(keys == sorted(keys), 'the %s list is out of order: %r' % (what, ls), 'order')


class C20(core.Check):
    id = 'C20'
    rule = ('Cases are (1) generated programs (main file and mostly an associated header) with comments, duplicates and odd spacing '
            'under 10 option sets, and (2) the 190 sample programs with up to 6 edits and up to 3 include lines taken out or doubled. '
            'Each report is checked against the text of its file. Non-trivial = a report has an addition and a removal.')
    quick = 2200
    thorough = 60000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        gen = st.builds(lambda c, o, e, d: dict(c, opts=o, edits=e, dup=d), st.one_of(cxxgen.cases(max_uses=6), cxxgen.cases(max_uses=6, assoc=True)),
                        st.sampled_from(OPTS[:8]), corpus.ops_strategy(4), st.lists(st.integers(0, 9), max_size=2))
        smp = st.builds(lambda c, t, o: dict(c, tamper=t, opts=o), corpus.cases(['*'], exclude=['pch_in_code', 'computed_include', 'badinc', 'associated_skipped', 'forward_declare_in_macro', 'no_comments', 'comment_style*none'] + corpus.SLOW),
                        st.lists(st.tuples(st.integers(0, 9), st.integers(0, 60), st.sampled_from(['drop', 'double'])).map(list), max_size=3),
                        st.sampled_from(OPTS))
        ung = st.builds(lambda d, n, a: dict(unguarded=d, times=n, assoc=a), st.lists(st.tuples(
            st.sampled_from(['class', 'struct', 'union']), st.booleans(), st.booleans()).map(list), min_size=1, max_size=4),
            st.integers(1, 3), st.booleans())
        return st.sampled_from([gen] * 8 + [smp] * 4 + [ung]).flatmap(lambda s: s)

    def unguarded(self, case):
        """A header without include guard, included several times."""
        name = 'm.h' if case['assoc'] else 'k.h'
        text, want, gone, full = '', [], [], []
        for k, (kind, ns, used) in enumerate(case['unguarded']):
            at = text.count('\n') + 1
            decl = '%s T%d;' % (kind, k)
            if ns:
                decl = 'namespace n { %s }' % decl
            text += decl + '\n'
            if used:
                text += 'extern %sT%d* p%d;\n' % ('n::' if ns else '', k, k)
                full.append(decl)
            else:
                gone.append((decl, at, at))
        files = {name: text, 'm.cc': ('#include "%s"\n' % name) * case['times'] + ('int x = sizeof(p0);\n' if case['unguarded'][0][2] else '')}
        reports, r = cxxgen.analyse(self, files, [], 'm.cc', ['--check_also=*/k.h', '--check_also=k.h'])
        show = lambda: '== %s\n%s\n%s' % (name, text, r.text)
        need(name in reports, lambda: 'no report on %s\n%s' % (name, show()), key='wrong files')
        rep = reports[name]
        need(sorted(rep.remove) == sorted(gone), lambda: 'removals %r, not %r\n%s' % (rep.remove, gone, show()), key='unguarded')
        need(rep.correct == (not gone) and (rep.correct or sorted(t for t, c in rep.full) == sorted(full)),
             lambda: 'wrong full list, not %r\n%s' % (full, show()), key='unguarded')
        return ['unguarded'], bool(gone and full)

    def sample(self, case):
        s = corpus.find(case['sample'])
        files = {}
        texts = {f: open(os.path.join(corpus.REPO, f), encoding='utf-8', newline='').read() for f in s.files}
        for which, at, how in case['tamper']:
            f = s.files[which % len(s.files)]
            lines = texts[f].split('\n')
            incs = [k for k, l in enumerate(lines) if INC.match(l)]
            if incs:
                k = incs[at % len(incs)]
                lines[k:k + 1] = [] if how == 'drop' else [lines[k]] * 2
                texts[f] = '\n'.join(lines)
                files[f] = texts[f]
        files.update(corpus.edited(s, case['ops'], texts))
        with corpus.Edited(self, s, files) as r:
            res = iwyurun.run(r, ['-w'] + s.args + [x for o in case['opts'] for x in ('-Xiwyu', o)] + [s.main])
            all_text = {}
            try:
                reports, other = iwyurun.parse(res.stderr)
            except iwyurun.Garbled as e:
                raise core.Violation('the report is garbled (%s)\n%s\n%s' % (e, s.main, res.text), key='garbled report')
            for f in reports:
                all_text[f] = open(os.path.join(r, f), encoding='utf-8', newline='').read()
        if res.status:
            raise core.Skip('sample does not compile any more')
        quoted = any('quoted_includes_first' in a for a in s.args + case['opts'])
        update = any('update_comments' in a for a in s.args + case['opts'])
        for f, rep in reports.items():
            stem = os.path.splitext(os.path.basename(s.main))[0]
            assoc = set()
            for t, c in rep.full + rep.add + [(x[0], None) for x in rep.remove]:
                if re.search(r'[</"]%s(-inl)?\.h[>"]$' % re.escape(stem), t) and f == s.main:
                    assoc.add(t[9:])
            if re.search(r'pragma:? +associated|_associated|pch', all_text[f] + ' '.join(s.args)):
                continue
            check_file(f, all_text[f], rep, assoc, quoted, update, lambda: '%s %s\n== %s\n%s\n== report\n%s' % (
                s.main, ' '.join(s.args + case['opts']), f, all_text[f], res.text))
        return ['sample'], any(r.add and r.remove for r in reports.values())

    def execute(self, case):
        if 'sample' in case:
            return self.sample(case)
        if 'unguarded' in case:
            return self.unguarded(case)
        p = cxxgen.build(case)
        files = p.files()
        units = [u for u in (p.main, p.assoc) if u]
        for u in units:
            lines = files[u.name].split('\n')
            for d in case['dup']:
                k = [i for i, l in enumerate(lines) if l.startswith('#include')]
                if k:
                    j = k[d % len(k)]
                    lines.insert(j, lines[j])
            files[u.name] = '\n'.join(lines)
            files[u.name] = corpus.edit(files[u.name], [o for w, o in case['edits']], False)
        reports, r = cxxgen.analyse(self, files, p.args, p.main.name, case['opts'])
        show = lambda: '%s\n== report\n%s' % ('\n'.join('== %s\n%s' % kv for kv in sorted(files.items())), r.text)
        need(set(reports) == {u.name for u in units}, lambda: 'reports on %r\n%s' % (list(reports), show()), key='wrong files')
        assoc = {'"m.h"'} if p.assoc else set()
        for f, rep in reports.items():
            check_file(f, files[f], rep, assoc if f == p.main.name else set(), '--quoted_includes_first' in case['opts'],
                       '--update_comments' in case['opts'], show)
            if not rep.correct:
                # the present lines are known here
                text = files[f].replace('\r\n', '\n').split('\n')
                inc = sorted('#include ' + INC.match(l).group(1) for l in text if INC.match(l))
                got = sorted([t for t, c in rep.full if t.startswith('#')] + [x[0] for x in rep.remove if x[0].startswith('#')])
                want = sorted(inc + [t for t, c in rep.add if t.startswith('#')])
                need(got == want, lambda: '%s: lines present and added are %r, but kept and removed are %r\n%s' % (f, want, got, show()), key='accounts')
        return ['generated'] + case['opts'], any(x.add and x.remove for x in reports.values())


if __name__ == '__main__':
    core.run(C20())
