import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, cxxgen, iwyurun, richgen, fixmodel as fm
from vlib.core import need


class C13(core.Check):
    id = 'C13'
    rule = ('Cases are compilable programs of up to 6 headers, a main file and (mostly) an associated header, both with includes, '
            'forward declarations and uses of 170 forms, or programs of C36\'s grammar; the advice is applied with fix_includes. Non-trivial = the '
            'advice added at least one line and removed at least one.')
    quick = 2400
    thorough = 40000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        rich = st.builds(lambda p, std: dict(rich=p, std=std, opts=[]), richgen.cases(), st.sampled_from(['-std=c++23', '-std=gnu++20', '-std=c++2c']))
        return st.one_of(rich, rich, cxxgen.cases(max_uses=6, assoc=True), cxxgen.cases(max_uses=6, assoc=True), cxxgen.cases(max_uses=10),
                         cxxgen.cases(kinds=cxxgen.FWD_KINDS, max_uses=6, assoc=True)).flatmap(
            lambda c: st.just(c) if 'rich' in c else st.sampled_from([[], ['--cxx17ns'], ['--no_fwd_decls'], ['--comment_style=long'],
                                       ['--quoted_includes_first']]).map(lambda o: dict(c, opts=o)))

    def rich(self, case):
        files = richgen.build(case['rich'])
        args = [case['std']]
        root = os.path.join(self.tmp, 'p')
        reports, r = cxxgen.analyse(self, files, args, 'm.cc')
        names = [n for n in ('m.cc', 'm.h') if n in reports]
        show = lambda: '%s\n%s\n== report\n%s' % (args, ''.join('== %s\n%s' % (n, files[n]) for n in sorted(files) if n[0] in 'hm'), r.text)
        status, out, exc = fm.run_main(['--nosafe_headers'], r.text, cwd=root)
        need(exc is None, lambda: 'fix_includes raised %r\n%s' % (exc, show()), key='fix_includes raised')
        after = {n: open(os.path.join(root, n), encoding='utf-8').read() for n in names}
        show2 = lambda: show() + ''.join('\n== %s after applying\n%s' % kv for kv in after.items())
        ok, why = cxxgen.compiles(root, args, 'm.cc')
        if not ok:
            iwyurun.write_tree(root, files)
            if not cxxgen.compiles(root, args, 'm.cc')[0]:
                raise core.Skip('generated program does not compile')
            raise core.Violation('the program does not compile any more: %s\n%s' % (why[:1500], show2()), key='does not compile')
        reports2, r2 = cxxgen.rerun(self, args, 'm.cc')
        for n in names:
            # (which header is taken for a namespace depends on what else declares it)
            need(n in reports2 and not reports2[n].add, lambda: 'after applying the advice, IWYU still misses something in %s:\n%s\n%s' % (n, r2.text, show2()), key='not settled')
        add = any(x.add for x in reports.values())
        rem = any(x.remove for x in reports.values())
        return ['rich'] + (['add'] if add else []) + (['remove'] if rem else []), add and rem

    def execute(self, case):
        if 'rich' in case:
            return self.rich(case)
        p = cxxgen.build(case)
        root = os.path.join(self.tmp, 'p')
        reports, r = cxxgen.analyse(self, p.files(), p.args, p.main.name, case['opts'])
        names = [p.main.name] + ([p.assoc.name] if p.assoc else [])
        show = lambda: '%s\n== report\n%s' % (p.show(), r.text)
        need(set(reports) == set(names), lambda: 'reports on %r\n%s' % (list(reports), show()), key='wrong files')
        status, out, exc = fm.run_main(['--nosafe_headers'], r.text, cwd=root)
        need(exc is None, lambda: 'fix_includes raised %r\n%s' % (exc, show()), key='fix_includes raised')
        after = {n: open(os.path.join(root, n), encoding='utf-8').read() for n in names}
        show2 = lambda: show() + ''.join('\n== %s after applying\n%s' % kv for kv in after.items())
        ok, why = cxxgen.compiles(root, p.args, p.main.name)
        if not ok and not cxxgen.compiles_files(self, p):
            raise core.Skip('generated program does not compile')
        need(ok, lambda: 'the program does not compile any more: %s\n%s' % (why[:1500], show2()), key='does not compile')
        reports2, r2 = cxxgen.rerun(self, p.args, p.main.name, case['opts'])
        for n in names:
            need(n in reports2 and reports2[n].correct, lambda: 'after applying the advice, IWYU still finds fault with %s:\n%s\n%s' % (
                n, r2.text, show2()), key='not settled')
        # every file of the program by itself
        labels = ['assoc' if p.assoc else 'single'] + ['opt ' + o for o in case['opts']]
        add = any(x.add for x in reports.values())
        rem = any(x.remove for x in reports.values())
        return labels + (['add'] if add else []) + (['remove'] if rem else []), add and rem


if __name__ == '__main__':
    core.run(C13())
