import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, corpus, cxxgen, iwyurun
from vlib.core import need

ADVICE = re.compile(r'should (add|remove) these lines|has correct #includes|The full include-list')
BREAK = [None] * 8 + ['syntax', 'undeclared', 'missing', 'redefinition', 'type', 'broken header', '#error']
FLAGS = [[], [], ['--error'], ['--error'], ['--error=@'], ['--error=@'], ['--error_always'], ['--error_always=@'], ['--error=@', '--error_always=@'],
         ['--error_always=@', '--error=@'], ['--error=@', '--error=@'], ['--error', '--error_always']]
OTHER = [[], [], ['--verbose=0'], ['--verbose=2'], ['--verbose=3'], ['--no_comments'], ['--update_comments'], ['--quoted_includes_first'],
         ['--no_fwd_decls'], ['--transitive_includes_only'], ['--cxx17ns'], ['--max_line_length=20']]
# (IWYU options, other options, sources)
USAGE = [
    (['--error=x'], [], 1), (['--error=1x'], [], 1), (['--error='], [], 1), (['--error_always=zz'], [], 1), (['--nonsense'], [], 1),
    (['--comment_style=loud'], [], 1), (['--regex=perl'], [], 1), (['--prefix_header_includes=maybe'], [], 1), (['--verbose'], [], 1),
    (['--check_also'], [], 1), (['--mapping_file'], [], 1), ([], [], 0), ([], ['no_such_file.cc'], 0),
    (['--max_line_length=-1'], [], 1), ([], ['-include', 'no_such.h'], 1),
    (['--no_comments=1'], [], 1), (['--keep'], [], 1), (['--cxx17ns=yes'], [], 1), (['-z'], [], 1)]


class C22(core.Check):
    id = 'C22'
    rule = ('Cases are (1) generated programs or samples, clean, with violations or broken in one of 7 ways, under combinations of --error and '
            '--error_always (values 0-255) with other options, and (2) 18 kinds of wrong usage on a generated program. '
            'Non-trivial = the expected status is not 0.')
    quick = 2000
    thorough = 40000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        n = st.sampled_from([0, 1, 2, 3, 7, 42, 126, 200, 255])
        gen = st.builds(lambda c, cl: dict(c, clean=cl), st.one_of(cxxgen.cases(max_uses=3), cxxgen.cases(max_uses=3, assoc=True)), st.booleans())
        prog = st.one_of(gen, gen, gen, corpus.cases(['*'], max_ops=1, exclude=['error*', '*verbos*', 'no_comments', 'comment_style*'] + corpus.SLOW))
        run = st.builds(lambda c, f, v, o, b, w: dict(c, flags=[x.replace('@', str(v[k])) for k, x in enumerate(f)], other=o, bad=b, where=w),
                        prog, st.sampled_from(FLAGS), st.tuples(n, n), st.sampled_from(OTHER), st.sampled_from(BREAK), st.integers(0, 50))
        use = st.builds(lambda c, u, p, w: dict(c, usage=u, extra=p, where=w), cxxgen.cases(max_uses=2), st.integers(0, len(USAGE) - 1),
                        st.sampled_from(OTHER), st.integers(0, 50))
        return st.sampled_from([run] * 6 + [use]).flatmap(lambda s: s)

    def execute(self, case):
        if 'usage' in case:
            return self.usage(case)
        if 'sample' in case:
            s = corpus.find(case['sample'])
            files = corpus.edited(s, case['ops'])
            if case['bad']:
                files[s.main] = self.spoil(files.get(s.main) or open(os.path.join(corpus.REPO, s.main), encoding='utf-8', newline='').read(), case['bad'])
            with corpus.Edited(self, s, files) as root:
                return self.judge(root, s.args, s.main, case, s.main)
        p = cxxgen.build(case)
        files = p.files()
        if case['clean']:
            # take the advice, so that nothing is left to do
            from vlib import fixmodel as fm
            reports, r = cxxgen.analyse(self, files, p.args, p.main.name, [o for o in case['other'] if 'fwd' in o or 'transitive' in o])
            root = os.path.join(self.tmp, 'p')
            fm.run_main(['--nosafe_headers'], r.text, cwd=root)
            files = {f: open(os.path.join(root, f), encoding='utf-8').read() for f in files}
        left = [h for h in p.main.includes if '#include ' + h.spelling in files[p.main.name]]
        if case['bad'] == 'broken header' and left:
            h = left[case['where'] % len(left)]
            files[h.path] += 'class {\n'
        elif case['bad']:
            files[p.main.name] = self.spoil(files[p.main.name], case['bad'])
        import shutil
        root = os.path.join(self.tmp, 'p')
        shutil.rmtree(root, ignore_errors=True)
        iwyurun.write_tree(root, files)
        return self.judge(root, p.args, p.main.name, case, '\n'.join('== %s\n%s' % kv for kv in sorted(files.items())))

    def spoil(self, text, how):
        return text + {'syntax': '\nint verif_broken(;\n', 'undeclared': '\nint verif_x = verif_not_declared;\n', 'missing': '\n#include "verif_missing.h"\n',
                       'redefinition': '\nstruct verif_r {};\nstruct verif_r {};\n', 'type': '\nint verif_i = "text";\n',
                       'broken header': '\nint verif_broken(;\n', '#error': '\n#error no\n'}[how]

    def judge(self, root, args, main, case, text):
        opts = case['flags'] + case['other']
        if case['where'] % 2:
            opts = case['other'] + case['flags']
        r = iwyurun.run(root, ['-w'] + args + [x for o in opts for x in ('-Xiwyu', o)] + [main])
        show = lambda: '%s %s\nstatus %d\n%s\n== output\n%s' % (args, opts, r.status, text, r.text)
        if case['bad']:
            need(r.status > 0, lambda: 'status %d for code that does not compile (%s)\n%s' % (r.status, case['bad'], show()), key='errors, yet status 0')
            need(' error: ' in r.stderr, lambda: 'no diagnostic\n' + show(), key='no diagnostic')
            need(not ADVICE.search(r.text), lambda: 'advice on code that does not compile\n' + show(), key='advice on broken code')
            return ['broken: ' + case['bad']], True
        if ' error: ' in r.stderr:
            raise core.Skip('does not compile')
        # the verdict comes from a plain run
        plain = iwyurun.run(root, ['-w'] + args + [x for o in case['other'] if 'verbose' not in o and 'comment' not in o for x in ('-Xiwyu', o)] + [main])
        reports, other = iwyurun.parse(plain.stderr)
        found = any(x.add or x.remove for x in reports.values())
        need(plain.status == 0, lambda: 'status %d without --error\n%s' % (plain.status, show()), key='default status')
        error = always = 0
        for o in opts:
            m = re.match(r'--error(_always)?(?:=(\d+))?$', o)
            if m:
                v = int(m.group(2) or 1)
                if m.group(1):
                    always = v
                else:
                    error = v
        want = always or (error if found else 0)
        need(r.status == want, lambda: 'status %d, not %d, with%s suggestions\n%s' % (r.status, want, '' if found else 'out', show()),
             key='status %s' % ('with' if found else 'without'))
        need(ADVICE.search(r.stderr), lambda: 'no report\n' + show(), key='no report')
        return ['suggestions' if found else 'clean'] + [o.split('=')[0] for o in case['flags']], want != 0

    def usage(self, case):
        iw, cl, n = USAGE[case['usage']]
        p = cxxgen.build(case)
        cxxgen.analyse(self, p.files(), p.args, p.main.name)
        root = os.path.join(self.tmp, 'p')
        src = [p.main.name][:n]
        bits = [['-w'], [x for o in case['extra'] for x in ('-Xiwyu', o)], [x for o in iw for x in ('-Xiwyu', o)], p.args, cl, src]
        k = case['where'] % 6
        bits = bits[k:] + bits[:k]
        if iw and not iw[0].count('=') and iw[0] in ('--verbose', '--check_also', '--mapping_file', '--keep'):
            # has to come last of the options, to lack its value
            b = [x for o in iw for x in ('-Xiwyu', o)]
            bits.remove(b)
            bits.append(b)
        args = [x for b in bits for x in b]
        r = iwyurun.run(root, args)
        show = lambda: '%s\nstatus %d\n%s\n%s' % (args, r.status, p.show(), r.text)
        need(r.status != 0, lambda: 'status 0 on wrong usage\n' + show(), key='usage accepted: %s %s %d' % (iw, cl, n))
        need(r.text.strip(), lambda: 'wrong usage without a diagnostic\n' + show(), key='no diagnostic: %s %s %d' % (iw, cl, n))
        need(not ADVICE.search(r.text), lambda: 'advice in spite of wrong usage\n' + show(), key='advice: %s %s %d' % (iw, cl, n))
        return ['usage'], True


if __name__ == '__main__':
    core.run(C22())
