import os
import re
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, iwyurun
from vlib.core import need

CLANG = '/usr/lib/llvm-20/bin/clang'
CONDS = ['defined(A)', 'A == 1', 'A == 2', 'defined(B)', 'defined(F) && F(1) == 2', 'defined(F) && F(1) == 3', 'defined(__cplusplus)', 'defined(__cplusplus) && __cplusplus >= 201703L',
         'defined(__cplusplus) && __cplusplus >= 202002L', 'defined(__STDC_VERSION__) && __STDC_VERSION__ >= 201112L', 'defined(__OPTIMIZE__)', 'defined(__CHAR_UNSIGNED__)',
         'defined(__EXCEPTIONS)', 'defined(_REENTRANT)', 'WHICH == 0', 'WHICH == 1', 'WHICH == 2', 'WHICH == 3', 'QUOTED == 0', 'QUOTED == 1', 'QUOTED == 2', 'QUOTED == 3',
         '__has_include("only1.h")', '__has_include(<only1.h>)', '__has_include("only3.h")', '__has_include(<only3.h>)', 'defined(PRE0)', 'defined(PRE1)', 'PRE0 == 2',
         'defined(__STRICT_ANSI__)', 'defined(__i386__)', 'defined(__AVX2__)', 'defined(__aarch64__)', 'defined(__linux__)', '__has_include(<resprobe.h>)', '__has_include(<stdarg.h>)',
         'defined(__GXX_RTTI)', 'defined(__FAST_MATH__)', '__STDC_HOSTED__', '__has_feature(address_sanitizer)', 'defined(NDEBUG)', "'\\xff' < 0", 'defined(A) && defined(B) && !defined(PRE0)']
# Groups of arguments that belong together.
ARGS = ([['-DA'], ['-DA=1'], ['-D', 'A=2'], ['-DA=2'], ['-UA'], ['-U', 'A'], ['-DB'], ['-UB'], ['-DB=A'], ['-DA=B', '-DB=1'], ['-DF(x)=x + 1'], ['-DF(x)=x+2'], ['-D', 'F(x)=((x) + 1)'],
         ['-Wp,-DA=1'], ['-Wp,-DA=2,-DB'], ['-Xpreprocessor', '-DB'], ['-Xclang', '-DA=2'], ['-DNDEBUG'],
         ['-DUNUSED="a b"'], ["-DUNUSED='a'"], ['-DUNUSED=\\"'], ['-DUNUSED='],
         ['-std=c++14'], ['-std=c++20'], ['-std=c++17'], ['-std=gnu++17'], ['-std=c11'], ['-std=gnu89'], ['-std=c17'], ['--std=c++20'], ['-ansi'],
         ['-O2'], ['-O0'], ['-Os'], ['-O'], ['-funsigned-char'], ['-fsigned-char'], ['-fno-exceptions'], ['-fexceptions'], ['-pthread'], ['-fno-rtti'], ['-ffast-math'], ['-ffreestanding'],
         ['-fsanitize=address'], ['-mavx2'], ['-mno-avx2'], ['-m32'], ['-m64'], ['--target=aarch64-linux-gnu'], ['-target', 'i386-linux-gnu'], ['-undef'], ['-march=haswell'],
         ['-Id0'], ['-I', 'd1'], ['-Id 2'], ['-I./d3'], ['-iquote', 'd0'], ['-iquoted1'], ['-iquote', 'd 2'], ['-isystem', 'd1'], ['-isystem', 'd3'], ['-isystemd 2'], ['-idirafter', 'd0'],
         ['-idirafter', 'd3'], ['-cxx-isystem', 'd0'], ['--include-directory=d1'], ['-iprefix', 'd', '-iwithprefix', '3'], ['-iprefix', './', '-iwithprefixbefore', 'd0'], ['-iwithsysroot', '/d1'],
         ['--sysroot=.'], ['-F.'], ['-Inone'],
         ['-include', 'pre0.h'], ['-include', 'pre1.h'], ['-imacros', 'pre0.h'], ['-imacros', 'd3/pre2.h'], ['-include', 'pre2.h'], ['-includepre1.h'],
         ['-nostdinc'], ['-nobuiltininc'], ['-resource-dir', 'rd'], ['-resource-dir=rd'],
         ['-c'], ['-S'], ['-fsyntax-only'], ['-o', 'out.o'], ['-MD'], ['-MMD', '-MF', 'x.d'], ['-save-temps'], ['-save-temps=obj'], ['--save-temps'], ['-g'], ['-Wall', '-Wextra'], ['-w'], ['-pipe'],
         ['-fPIC'], ['-lfoo'], ['-L.'], ['-Wl,-x'], ['-fcolor-diagnostics'], ['-Winvalid-pch'], ['-emit-llvm'], ['-flto'], ['-v']])
XTYPES = [['-xc'], ['-xc++'], ['-x', 'c'], ['-x', 'c++'], ['-x', 'none'], ['--language=c'], ['--language=c++'], ['-xc', '-xc++'], ['--driver-mode=g++'], ['--driver-mode=gcc']]
MAINS = ['main.cc'] * 4 + ['main.c'] * 3 + ['main.cpp', 'main.C', 'sub/main.cxx', './main.cc', 'main.h']
OWN = [['--error=3'], ['--error=77'], ['--error_always=5'], ['--no_comments'], ['--verbose=0'], ['--mapping_file=m.imp'], ['--max_line_length=60'], ['--no_default_mappings'], ['--cxx17ns'], ['--quoted_includes_first'],
       ['--comment_style=long'], ['--mapping_file', 'm.imp'], ['--error']]
REFUSED = [[], ['-c'], ['m.o'], ['nofile.cc'], ['sub'], ['x.s'], ['-print-resource-dir'], ['--'], ['-Xiwyu', '--verbose=1'], ['-DA=1', '-Id0'], ['--', 'nofile.cc'], ['-v'], ['-print-search-dirs'],
           ['-x', 'assembler', 'x.s'], ['@empty.rsp'], ['@none.rsp'], ['@self.rsp'], ['@ring.rsp'], ['-x', 'c++'], ['lib.a'], ['-I'], ['-include-pch', 'x.pch', 'main.cc'], ['-dumpversion'], ['main.cc', '-Xclang', '-include-pch', '-Xclang', 'x.pch']]


def quote(arg, style):
    """One argument the way a response file may spell it."""
    if style % 5 == 0 and arg and not re.search(r'''[\s'"\\]''', arg):
        return arg
    if style % 5 == 1:
        return '"' + re.sub(r'(["\\])', r'\\\1', arg) + '"'
    if style % 5 == 2 and '\\' not in arg:
        return "'" + arg.replace("'", "\\'") + "'"
    if style % 5 == 3 and arg:
        return re.sub(r'(.)', r'\\\1', arg)
    if style % 5 == 4 and len(arg) > 3 and not re.search(r'''["\\]''', arg):
        return re.sub(r'''(['\s])''', r'\\\1', arg[:2]) + '"' + arg[2:] + '"'
    return '"' + re.sub(r'(["\\])', r'\\\1', arg) + '"'


class C34(core.Check):
    id = 'C34'
    rule = ('Cases are command lines of up to 12 of about 110 groups of arguments (macros, search paths, forced includes, languages, standards, targets, outputs) with IWYU options in '
            'between, partly moved into nested response files in several quotings or configuration files, over a program probing 43 conditions; command lines with nothing to '
            'compile; preprocessing runs. Non-trivial = some condition differs from a plain run, or the command line is refused.')
    quick = 1100
    thorough = 40000

    def prepare(self):
        iwyurun.prepare()

    def fixed(self):
        plain = dict(kind='run', main=0, x=[], own=[], rsp=[], dash=0, at=0, subset=0, env=0)
        return ([dict(kind='refuse', n=k, own=o) for k in range(len(REFUSED)) for o in (0, 1)]
                + [dict(plain, args=[k], subset=k) for k in range(len(ARGS))]
                + [dict(plain, args=[], own=[[k, 0]], subset=3) for k in range(len(OWN))])

    def strategy(self):
        n = st.integers(0, 1000)
        few = st.integers(0, 12)
        run = st.builds(lambda a, m, x, o, r, d, t, s, e: dict(kind='run', args=a, main=m, x=x, own=o, rsp=r, dash=d, at=t, subset=s, env=e),
                        st.lists(st.integers(0, len(ARGS) - 1), max_size=12), st.integers(0, len(MAINS) - 1), st.lists(st.integers(0, len(XTYPES) - 1), max_size=2),
                        st.lists(st.tuples(n, n).map(list), max_size=4), st.lists(st.tuples(few, few, n).map(list), max_size=4), st.integers(0, 4), n, n, st.integers(0, 9))
        refuse = st.builds(lambda k, o: dict(kind='refuse', n=k, own=o), st.integers(0, len(REFUSED) - 1), st.integers(0, 3))
        pre = run.map(lambda c: dict(c, kind='pre'))
        return st.sampled_from([run] * 30 + [pre] * 2 + [refuse]).flatmap(lambda s: s)

    def tree(self, subset, root):
        files = {'all.h': ''.join('#include "p%d.h"\n' % k for k in range(len(CONDS))), 'm.imp': '[ { "include": ["\\"p%d.h\\"", "private", "<pub/p%d.h>", "public"] } ]' % ((subset % len(CONDS),) * 2),
                 'd0/which.h': '#define WHICH 0\n', 'd1/which.h': '#define WHICH 1\n', 'd 2/which.h': '#define WHICH 2\n', 'd3/which.h': '#define WHICH 3\n',
                 'd0/quoted.h': '#define QUOTED 0\n', 'd1/quoted.h': '#define QUOTED 1\n', 'd 2/quoted.h': '#define QUOTED 2\n', 'd3/quoted.h': '#define QUOTED 3\n',
                 'd1/only1.h': '', 'd3/only3.h': '', 'pre0.h': '#define PRE0 1\n#define PRE0V\n', 'pre1.h': '#define PRE1 1\n', 'd3/pre2.h': '#undef PRE0\n#define PRE0 2\n',
                 'd1/pre1.h': '#define PRE1 2\n', 'rd/include/resprobe.h': '', 'm.o': '', 'lib.a': '!<arch>\n', 'x.s': 'nop\n', 'x.pch': 'CPCH', 'sub/x': '',
                 'empty.rsp': ' \n', 'self.rsp': 'main.cc -DA @self.rsp\n', 'ring.rsp': '-DA @ring2.rsp main.cc', 'ring2.rsp': '@ring.rsp'}
        for k in range(len(CONDS)):
            files['p%d.h' % k] = '#ifndef P%d_\n#define P%d_\n#ifdef __cplusplus\nextern "C"\n#endif\nint f%d(void);\n#endif\n' % (k, k, k)
        direct = [k for k in range(len(CONDS)) if (k * 7 + subset) % 5 == 0]
        rel = '../' if subset < 0 else ''
        main = ['#include "p%d.h"' % k for k in direct] + ['#if __has_include(<which.h>)', '#include <which.h>', '#endif', '#if __has_include("quoted.h")', '#include "quoted.h"', '#endif',
                                                          '#ifndef WHICH', '#define WHICH 9', '#endif', '#ifndef QUOTED', '#define QUOTED 9', '#endif', '#ifndef A', '#define NO_A', '#define A 0', '#endif',
                                                          '#ifndef PRE0', '#define NO_PRE0', '#define PRE0 0', '#endif']
        for k, c in enumerate(CONDS):
            c = c.replace('defined(A)', '!defined(NO_A)').replace('defined(PRE0)', '!defined(NO_PRE0)').replace('!!', '')
            c = re.sub(r'\bdefined\(F\) && (F\(1\) == \d)', r'FCOND_\g<1>', c)
            if c.startswith('FCOND_'):
                main += ['#ifdef F', '#if ' + c[6:], 'void t%d(void) { f%d(); }' % (k, k), '#endif', '#endif']
            elif c.startswith('__has_'):
                main += ['#ifdef %s' % c[:c.index('(')], '#if ' + c, 'void t%d(void) { f%d(); }' % (k, k), '#endif', '#endif']
            else:
                main += ['#if ' + c, 'void t%d(void) { f%d(); }' % (k, k), '#endif']
        self.main = '#include "all.h"\n' + '\n'.join(main) + '\n'
        iwyurun.write_tree(root, files)
        return files

    def clang(self, root, args, env):
        p = subprocess.run([CLANG] + args, cwd=root, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')

    def execute(self, case):
        root = os.path.join(self.tmp, 'p')
        shutil.rmtree(root, ignore_errors=True)
        if case['kind'] == 'refuse':
            self.tree(1, root)
            iwyurun.write_tree(root, {'main.cc': self.main})
            args = list(REFUSED[case['n']])
            args[case['own'] // 2:case['own'] // 2] = ['-Xiwyu', '--error=7'] * (case['own'] % 2)
            if '-Xclang' in args:
                args = REFUSED[case['n']]
            r = iwyurun.run(root, args)
            show = lambda: 'arguments %s\nstatus %d\n%s' % (args, r.status, r.text[-2000:])
            need(r.status == 1, lambda: 'nothing to compile, but the status is %d\n%s' % (r.status, show()), key='refused status')
            need('should add' not in r.text and 'has correct' not in r.text and 'full include-list' not in r.text, lambda: 'nothing to compile, but there is a report\n' + show(), key='refused report')
            if args not in (['-print-resource-dir'], ['-print-search-dirs'], ['-dumpversion']):
                need(r.text.strip(), lambda: 'refused without a word\n' + show(), key='refused silently')
            return ['refuse'], True
        self.tree(case['subset'], root)
        main = MAINS[case['main']]
        name = os.path.normpath(main)
        iwyurun.write_tree(root, {name: self.main if '/' not in name else self.main.replace('"all.h"', '"../all.h"').replace('"p', '"../p')})
        groups = [list(ARGS[k]) for k in case['args']]
        xs = [list(XTYPES[k]) for k in case['x']]
        pre = case['kind'] == 'pre'
        if pre:
            groups = [g for g in groups if g[0] not in ('-o', '-c', '-S', '-fsyntax-only', '-v', '-###', '-MD', '-MMD', '-emit-llvm', '-flto') and 'save-temps' not in g[0]]
            groups.insert(case['at'] % (len(groups) + 1), [['-E'], ['-M'], ['-MM'], ['-E', '-dM'], ['-E', '-P'], ['-E', '-H']][case['at'] % 6])
        for k, g in enumerate(xs):
            groups.insert((case['at'] + k) % (len(groups) + 1), g)
        place = len(groups) if case['dash'] == 1 else (case['at'] * 3) % (len(groups) + 1)
        if case['dash'] == 1:
            groups.append(['--', main])
        else:
            groups.insert(place, [main])
        # Move runs of groups into response or configuration files.
        if case['subset'] % 4:
            groups.insert(0, ['-I.'])
        count = 0
        for at, length, style in case['rsp']:
            cands = len(groups) - (1 if case['dash'] == 1 else 0)
            at %= cands + 1
            part = groups[at:min(at + length, cands)]
            flat = [a for g in part for a in g]
            sep = [' ', '\n', '\t', ' \r\n  '][style // 7 % 4]
            if style % 3 == 0 and not any(a == main or a.startswith('@') or a.startswith('-x') or '-language' in a or 'driver-mode' in a or a == 'none' or 'save-temps' in a for a in flat) and not any('\\' in a or '"' in a or "'" in a for a in flat):
                text = ''.join(quote(a, 0 if ' ' not in a else 1) + '\n' for a in flat)
                ref = ['--config=./c%d.cfg' % count]
                fname = 'c%d.cfg' % count
            else:
                text = [sep, ''][style % 2] + sep.join(a if a.startswith('@') else quote(a, style // 29 + k) for k, a in enumerate(flat)) + [sep, ''][style // 2 % 2]
                fname = 'r%d.rsp' % count
                ref = ['@' + fname]
            with open(os.path.join(root, fname), 'w', newline='') as f:
                f.write(text)
            groups[at:at + len(part)] = [ref]
            count += 1
        args = [a for g in groups for a in g]
        # IWYU's options in any place.
        mine = list(args)
        for at, words in sorted([(at % (len(args) + 1), OWN[which % len(OWN)]) for which, at in case['own']], key=lambda p: -p[0]):
            mine[at:at] = [x for w in words for x in ('-Xiwyu', w)]
        opts = [mine[k + 1] for k in range(len(mine) - 1) if mine[k] == '-Xiwyu']
        env = dict(os.environ)
        for v in ('CPATH', 'C_INCLUDE_PATH', 'CPLUS_INCLUDE_PATH', 'OBJC_INCLUDE_PATH'):
            env.pop(v, None)
        if case['env'] in (1, 2, 3):
            env[['CPATH', 'C_INCLUDE_PATH', 'CPLUS_INCLUDE_PATH'][case['env'] - 1]] = ['d0', 'd 2', 'd3:d1'][case['at'] % 3]
        p = subprocess.run([iwyurun.BIN] + mine, cwd=root, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
        status, out, err = p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
        contents = lambda: ''.join('== %s\n%r\n' % (f, open(os.path.join(root, f), newline='').read()) for f in sorted(os.listdir(root)) if re.match(r'[rc]\d\.(rsp|cfg)$', f))
        show = lambda: '%s\n%senvironment %s\nstatus %d\n%s' % (mine, contents(), {k: v for k, v in env.items() if k.endswith('PATH') and 'INCLUDE' in k or k == 'CPATH'}, status, (out + err)[-3000:])
        need(status >= 0, lambda: 'IWYU crashes\n' + show(), key='crash')
        if pre:
            rc, cout, cerr = self.clang(root, args, env)
            if rc and 'invalid argument' in cerr:
                # E.g. -std=c11 for C++, which IWYU only warns about.
                return ['clang fails'], False
            need((status == 0) == (rc == 0), lambda: 'preprocessing: clang ends with %d\n%s' % (rc, show()), key='preprocess status')
            need(out == cout, lambda: 'preprocessing differs from clang\n%s\n== clang\n%s' % (show(), cout[-1500:]), key='preprocess')
            return ['pre'], rc == 0
        at = args.index('--') if '--' in args else len(args)
        rc, text, cerr = self.clang(root, [a for a in args[:at]] + ['-E', '-o', '-'] + args[at:], env)
        if rc:
            return ['clang fails'], False
        if '-###' in args or re.search('###', contents()):
            # Clang does nothing then; ask it again without.
            return ['###'], False
        taken = {k for k in range(len(CONDS)) if re.search(r'\bt%d\s*\(void\)' % k, text)}
        usable = 'error: ' not in err.replace('unsupported', '')
        if not usable:
            # Some pairs of arguments preprocess but do not compile.
            rc, _, cerr = self.clang(root, ['-Qunused-arguments'] + args[:at] + ['-fsyntax-only'] + args[at:], env)
            need(rc, lambda: 'IWYU finds errors, clang does not\n' + show(), key='errors')
            return ['error'], False
        report = out + err
        m = re.search(r'^(\n?%s should add these lines:$|\(%s has correct|The full include-list for )' % (re.escape(main), re.escape(main)), report, re.M)
        need(m or ('--verbose=0' in opts and re.search('^---', report, re.M)) or 'full include-list' in report, lambda: 'no report\n' + show(), key='no report')
        if 'has correct' in report:
            full = None
            problem = False
        else:
            problem = True
            body = report[report.rindex('full include-list for'):]
            full = {int(k) for k in re.findall(r'^#include (?:"(?:[^"]*/)?|<pub/)p(\d+)\.h[">]', body, re.M)}
            body = body[:body.index('---')]
        if full is not None:
            need(full == taken, lambda: 'the conditions %s hold for IWYU, %s for clang\n%s' % ([CONDS[k] for k in sorted(full - taken)], [CONDS[k] for k in sorted(taken - full)], show()), key='conditions')
            mapped = '--mapping_file=m.imp' in opts or '--mapping_file' in opts
            pk = case['subset'] % len(CONDS)
            if pk in taken and case['subset'] % 4:
                need(('<pub/p%d.h>' % pk in body) == mapped, lambda: 'the mapping of p%d.h\n%s' % (pk, show()), key='mapping option')
            need(('// for f' not in body) if '--no_comments' in opts else ('// for f' in body or not taken), lambda: 'comments\n' + show(), key='comments option')
        want = 0
        always = [o for o in opts if o.startswith('--error_always')]
        plain = [o for o in opts if o in ('--error', '--error=3', '--error=77')]
        code = lambda o: int(o.split('=')[1]) if '=' in o else 1
        if always:
            want = code(always[-1])
        elif plain and problem:
            want = code(plain[-1])
        need(status == want, lambda: 'status %d, not %d\n%s' % (status, want, show()), key='error option')
        return ['run', 'rsp' if case['rsp'] else 'plain', 'own' if opts else 'no own'], bool(case['args'] or case['x'])


if __name__ == '__main__':
    core.run(C34())
