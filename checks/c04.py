import os
import re
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, fixmodel as fm
from vlib.core import need
from hypothesis import strategies as st

NAMES = ['a/x.cc', 'a/x.h', 'b/y.cc', 'b/deep/x.cc', 'z.c', 'b/y.hpp', 'a/x.cc.inc', 'q.CPP']
RES = [r'\.h', r'^a/', r'x', r'b/', r'\.cc$', r'deep|z', r'[yq]\.', r'nomatch']


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    files = []
    for nm in names:
        files.append(dict(name=nm, tree=draw(fm.tree()), adds=draw(fm.adds()),
                          correct=draw(st.integers(0, 5)) == 5))
    d = dict(files=files, opts=draw(fm.options()), dry=draw(st.integers(0, 3)) == 3,
             ignore=draw(st.sampled_from([None, None] + RES)), only=draw(st.sampled_from([None, None] + RES)),
             listed=draw(st.none() | st.lists(st.sampled_from(names + NAMES[:2]), min_size=1, max_size=3, unique=True)),
             naming=draw(st.sampled_from(['rel', 'rel', 'abs', 'base-abs', 'base-rel'])),
             listabs=draw(st.booleans()), sort=draw(st.integers(0, 9)) == 9,
             store=draw(fm.storage()))
    return d


class C04(core.Check):
    id = 'C04'
    rule = ('Cases are directories of one to four generated files with a report on each, and every combination of '
            '--dry_run, --ignore_re, --only_re, listed files, --basedir and relative or absolute names; non-trivial = at '
            'least one file was changed or would be, and at least one was excluded by a rule.')
    quick = 6000
    thorough = 150000

    def strategy(self):
        return cases()

    def execute(self, case):
        root = os.path.join(self.tmp, 'tree')
        shutil.rmtree(root, ignore_errors=True)
        src = os.path.join(root, 'src')
        os.makedirs(src)
        naming = case['naming']
        cwd = root if naming == 'base-rel' else src
        reports = []
        datas = {}
        models = {}
        args = list(case['opts'])
        for f in case['files']:
            p = os.path.join(src, f['name'])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            r = fm.render(f['tree'])
            data, codec, _ = fm.encode(r, case['store'])
            with open(p, 'wb') as fh:
                fh.write(data)
            datas[f['name']] = data
            shown = p if naming == 'abs' else f['name']
            rep, removed, kept, added = fm.report(shown, r, f['adds'])
            if f['correct']:
                rep, removed, added = '(%s has correct #includes/fwd-decls)\n' % shown, [], []
            reports.append('some compiler chatter\n' + rep)
            models[f['name']] = (rep, removed, added, shown)
        # an innocent bystander
        by = os.path.join(src, 'a', 'bystander.h')
        os.makedirs(os.path.dirname(by), exist_ok=True)
        with open(by, 'w') as fh:
            fh.write('#include "n1.h"\n')
        if naming == 'base-abs':
            args += ['--basedir', src]
            cwd = root
        elif naming == 'base-rel':
            args += ['-p', 'src']
        # reference: each file on its own, without restrictions
        expect = {}
        for f in case['files']:
            rep, removed, added, shown = models[f['name']]
            final = {'rel': f['name'], 'abs': os.path.join(src, f['name']), 'base-abs': os.path.join(src, f['name']),
                     'base-rel': os.path.join('src', f['name'])}[naming]
            ok = True
            reason = ''
            ign, only = case['ignore'], case['only']
            if case['sort']:
                ok = case['listed'] is not None and f['name'] in case['listed']
                reason = 'not listed'
            else:
                if not removed and not added and '--update_comments' not in args:
                    ok, reason = False, 'correct'
                if case['listed'] is not None and f['name'] not in case['listed']:
                    ok, reason = False, 'not listed'
                if ign and re.search(ign, final):
                    ok, reason = False, 'ignored'
                if only and not re.search(only, final):
                    ok, reason = False, 'not in only_re'
            expect[f['name']] = (ok, reason)
        want = {}
        p0 = os.path.join(src, 'ref')
        for f in case['files']:
            ok, reason = expect[f['name']]
            if not ok:
                want[f['name']] = datas[f['name']]
                continue
            # same name and place, alone
            alone = os.path.join(src, f['name'])
            if case['sort']:
                st_, out, exc = fm.run_main(args + ['--sort_only', self.listname(case, f['name'], src, cwd, naming)], '', cwd)
            else:
                st_, out, exc = fm.run_main(args, models[f['name']][0], cwd)
            need(exc is None, lambda: 'raised %r' % (exc,))
            with open(alone, 'rb') as fh:
                want[f['name']] = fh.read()
            with open(alone, 'wb') as fh:
                fh.write(datas[f['name']])
        if case['dry']:
            args.append(['--dry_run', '-n'][len(case['files']) % 2])
        if case['ignore']:
            args.append('--ignore_re=' + case['ignore'])
        if case['only']:
            args.append('--only_re=' + case['only'])
        if case['sort']:
            if case['listed'] is None:
                status, out, exc = fm.run_main(args + ['-s'], '', cwd)
                need(status not in (0, None) and exc is None, 'sorting without files exits %r' % (status,))
                self.untouched(case, src, datas, by)
                return ['sort without files'], False
            args.append('--sort_only')
        if case['listed'] is not None:
            args += [self.listname(case, n, src, cwd, naming) for n in case['listed']]
        status, out, exc = fm.run_main(args, '' if case['sort'] else ''.join(reports), cwd)
        need(exc is None, lambda: 'fix_includes raised %r' % (exc,))
        need(status == 0, lambda: 'exit status %r\n%s' % (status, out))
        changed = [f['name'] for f in case['files'] if want[f['name']] != datas[f['name']]]
        for f in case['files']:
            with open(os.path.join(src, f['name']), 'rb') as fh:
                got = fh.read()
            if case['dry']:
                need(got == datas[f['name']], lambda: '--dry_run modified %s' % f['name'], key='dry run modifies')
                continue
            ok, reason = expect[f['name']]
            if not ok:
                need(got == datas[f['name']], lambda: '%s was modified although it is %s\n%s' % (f['name'], reason, out),
                     key='modified although ' + reason)
            else:
                need(got == want[f['name']], lambda: '%s differs from what it becomes alone\n%s' % (f['name'], out),
                     key='differs from being alone')
        m = re.search(r'IWYU edited (\d+) files', out)
        need(m and int(m.group(1)) == len(changed), lambda: 'count is wrong: %s\n%s' % (changed, out), key='count')
        found = set()
        for d, _, fs in os.walk(root):
            for n in fs:
                found.add(os.path.relpath(os.path.join(d, n), src))
        need(found == set(datas) | {'a/bystander.h'}, lambda: 'files created or lost: %r' % (found ^ set(datas),), key='files created')
        with open(by) as fh:
            need(fh.read() == '#include "n1.h"\n', 'a file not in the report was modified')
        if case['dry']:
            # a dry run shows each change
            for n in changed:
                need(re.search(r"^>>> Fixing #includes in '.*%s'" % re.escape(n), out, re.M), 'dry run is silent about ' + n)
        labels = [naming, 'dry' if case['dry'] else 'wet'] + sorted({r for ok, r in expect.values() if not ok})
        return labels, bool(changed) and (case['dry'] or any(not ok for ok, r in expect.values()))

    @staticmethod
    def listname(case, name, src, cwd, naming):
        if case['listabs']:
            return os.path.join(src, name)
        if case['sort'] and naming in ('base-abs', 'base-rel'):
            return name          # relative to the base directory
        return os.path.relpath(os.path.join(src, name), cwd)

    @staticmethod
    def untouched(case, src, datas, by):
        for n, d in datas.items():
            with open(os.path.join(src, n), 'rb') as fh:
                need(fh.read() == d, 'file %s modified' % n)


if __name__ == '__main__':
    core.run(C04())
