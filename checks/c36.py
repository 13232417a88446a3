import os
import re
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, cxxgen, iwyurun, richgen
from vlib.core import need

STD = ['-std=c++23', '-std=gnu++20', '-std=c++2c']
CLANG_FLAGS = [[], [], [], ['-fdelayed-template-parsing'], ['-fms-extensions'], ['-O2', '-g'], ['-Wall', '-Wextra', '-Wno-error'], ['--target=x86_64-pc-windows-msvc'],
               ['--target=aarch64-linux-gnu'], ['-m32'], ['-include', 'h0.h'], ['-fno-access-control'], ['-fno-rtti'], ['-DX=1', '-UX'], ['-xc++'], ['-iquote', '.']]
IWYU_FLAGS = [[], [], [], ['--no_fwd_decls'], ['--cxx17ns'], ['--check_also=*'], ['--keep=*b_*'], ['--transitive_includes_only'], ['--no_default_mappings'],
              ['--pch_in_code'], ['--prefix_header_includes=keep'], ['--prefix_header_includes=remove'], ['--verbose=3'], ['--verbose=7'], ['--verbose=11'], ['--no_comments'],
              ['--update_comments'], ['--quoted_includes_first'], ['--max_line_length=20']]
TOKEN = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|\w+|::|->|<<|>>|&&|\|\||==|\.\.\.|\s+|.', re.S)
WORDS = ['const', 'static', 'typename', 'template', 'auto', '*', '&', '&&', 'constexpr', 'virtual', 'operator', 'struct', 'enum', 'friend', 'using', 'decltype(auto)', 'this', '[]', '{}',
         '()', '= default', '= delete', ';', '...', 'extern "C"', 'requires', '<>', 'sizeof', '#', '\n#define f', '\n#if 0\n', '"', '\\', 'co_return', 'alignas(16)', '[[deprecated]]',
         '__attribute__((packed))', 'ns0::z0', 'C0', 'P0', 'T0<C0>', 'noexcept', 'mutable', 'inline', 'int', 'void', '0', 'new', 'delete', 'throw', 'export', 'import', 'module']


def damage(text, ops):
    t = TOKEN.findall(text)
    idx = [i for i, x in enumerate(t) if x.strip()]
    for kind, a, b in ops:
        i, j = idx[a % len(idx)], idx[b % len(idx)]
        if kind == 0:
            t[i] = ''
        elif kind == 1:
            t[i] = t[j]
        elif kind == 2:
            t[i] += ' ' + t[j]
        elif kind == 3:
            t[i], t[j] = t[j], t[i]
        elif kind == 4:
            t[i] += ' ' + WORDS[b % len(WORDS)] + ' '
        else:
            t[i] = WORDS[b % len(WORDS)]
    return ''.join(t)


class C36(core.Check):
    id = 'C36'
    rule = ('Cases are programs of up to 5 files made from 200 declarations, statements and expressions of C++20 to 26 nested in each other, under 15 sets of compiler '
            'options and 19 of IWYU; a third of them is damaged at up to 3 places. Expected: whatever the compiler accepts is analysed to the end with status 0 and '
            'a well-formed report on the main file and its header; what it rejects gives its errors, a non-zero status and no advice. Non-trivial = accepted with something to change, or rejected.')
    quick = 3000
    thorough = 40000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        n = st.integers(0, 999)
        ops = st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(0, 5), n, n).map(list), min_size=1, max_size=3))
        return st.builds(lambda p, std, cf, xf, ops, f: dict(
            # templates that are never parsed may be wrong
            p, std=std, clang=cf, iwyu=xf, damage=[] if '-fdelayed-template-parsing' in cf else ops, file=f), richgen.cases(), st.sampled_from(STD),
                         st.sampled_from(CLANG_FLAGS), st.sampled_from(IWYU_FLAGS), ops, st.integers(0, 7))

    def execute(self, case):
        files = richgen.build(case)
        own = [n for n in sorted(files) if n[0] in 'hm' and n != 'h0.h']
        if case['damage']:
            f = own[case['file'] % len(own)]
            files[f] = damage(files[f], case['damage'])
        root = os.path.join(self.tmp, 'p')
        shutil.rmtree(root, ignore_errors=True)
        iwyurun.write_tree(root, files)
        args = [case['std']] + case['clang']
        show = lambda: '%s %s\n%s' % (' '.join(args), ' '.join(case['iwyu']), ''.join('== %s\n%s' % (n, files[n]) for n in own))
        try:
            r = iwyurun.run(root, ['-w'] + args + [x for o in case['iwyu'] for x in ('-Xiwyu', o)] + ['m.cc'], timeout=30)
        except subprocess.TimeoutExpired:
            ok, why = cxxgen.compiles(root, args, 'm.cc')
            raise core.Violation('IWYU does not finish within 30 s on a program the compiler %s\n%s' % ('accepts' if ok else 'rejects', show()), key='hangs')
        verbose = any('verbose' in o for o in case['iwyu'])
        failed = r.status != 0 or any(l.count(': error: ') or l.count('fatal error: ') for l in r.stderr.split('\n')[:400] + r.stderr.split('\n')[-50:]) and not verbose
        labels = ['option ' + o for o in case['iwyu']] + ['clang ' + ' '.join(case['clang'])] + (['damaged'] if case['damage'] else [])
        if failed:
            ok, why = cxxgen.compiles(root, args, 'm.cc')
            if not ok and r.status == 0 and all('[-W' in l for l in why.split('\n') if ' error: ' in l):
                # warnings that are errors leave the program intact, and IWYU goes on
                return labels + ['warnings as errors'], False
            need(not ok, lambda: 'IWYU fails (status %d) on a program the compiler accepts\n%s\n%s' % (r.status, r.text[-3000:], show()), key='fails on a valid program')
            need(0 < r.status < 64, lambda: 'IWYU crashes (status %d) on a program the compiler rejects\n%s\n%s' % (r.status, r.text[-3000:], show()), key='crashes on an invalid program')
            need('error: ' in r.stderr, lambda: 'no error is shown\n%s\n%s' % (r.text[-3000:], show()), key='no error')
            need('should add these lines' not in r.text and 'has correct #includes' not in r.text, lambda: 'advice on a program the compiler rejects\n%s\n%s' % (r.text[-3000:], show()),
                 key='advice on an invalid program')
            if not case['damage']:
                raise core.Skip('generated program does not compile: ' + ' '.join(re.sub(r'\d+', 'N', l.split('error:')[1]) for l in why.split('\n') if 'error:' in l)[:55])
            return labels + ['rejected'], True
        if case['damage']:
            ok, why = cxxgen.compiles(root, args, 'm.cc')
            ok = ok or all('[-W' in l for l in why.split('\n') if ' error: ' in l)
            need(ok, lambda: 'IWYU succeeds on a program the compiler rejects: %s\n%s\n%s' % (why[:500], r.text[-3000:], show()), key='advice on an invalid program')
        try:
            reports, other = iwyurun.parse(r.stderr)
        except iwyurun.Garbled as e:
            raise core.Violation('the report is garbled (%s)\n%s\n%s' % (e, r.text[-4000:], show()), key='garbled report')
        need(verbose or not [l for l in other if not l.startswith('warning: ')] and not r.stdout, lambda: 'IWYU says more than its report\n%s\n%s' % (r.text[-3000:], show()), key='says more')
        must = {'m.cc'} | ({'m.h'} if 'm.h' in files and '#include "m.h"' in files['m.cc'] else set())
        got = set(reports)
        if '--check_also=*' in case['iwyu']:
            need(must <= got <= set(files), lambda: 'reports on %r\n%s' % (sorted(got), show()), key='wrong files')
        else:
            need(got == must, lambda: 'reports on %r\n%s\n%s' % (sorted(got), r.text[-3000:], show()), key='wrong files')
        for n, rep in reports.items():
            for i in rep.full_includes():
                need(i[1:-1] in files, lambda: 'the list for %s has %s, which no file includes\n%s\n%s' % (n, i, r.text[-3000:], show()), key='unknown include')
        return labels + ['accepted'], any(not x.correct for x in reports.values())


if __name__ == '__main__':
    core.run(C36())
