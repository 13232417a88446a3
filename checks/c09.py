import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, toolrun
from vlib.core import need
from hypothesis import strategies as st

CC = ['cc', 'gcc', 'g++', '/usr/bin/c++', 'clang++', 'clang++-18', '/opt/my tools/clang', 'x86_64-linux-gnu-g++', './cc',
      'cl.exe', 'C:\\VC\\bin\\cl.exe', 'clang-cl', '/usr/bin/clang-cl', 'clang-cl.exe', 'cl', 'clang-cl-not', 'ccache2', 'uncl']
LAUNCH = [None, None, None, 'ccache', '/usr/bin/ccache']
WORDS = ['-c', '-O2', '-Iinc', '-I', 'some dir/inc', '-DNAME="a b"', "-DQ='x'", '-DE=\\"s\\"', '-std=c++17', '-Wall', '-o', 'a.o',
         '-isystem', '/usr/x y', '-include', 'pre.h', '-DX=$HOME', '-DY=`ls`', '-DZ=a;b', '-D', '-DP=(1)', '-DT=a\tb',
         '-DA=*', '-D#', '-Ix#y', '-DG=*?[a]', '@rsp', '--', '', '-DU=\u00e9\u4e2d', '-DB=a\\b', '-DN=1\n2', '-DM=!x', '-DBR={a,b}', 'ccache', 'gcc',
         '/Iinc', '/DX', '-Xiwyu', '--no_comments', '-driver-mode=g++', '~/x', '-Da=%d', "-D'"]
EXTRA = [[], [], ['-Xiwyu', '--any=iwyu'], ['--driver-mode=g++'], ['-Wno-x', 'a b'], ['-Xiwyu', '--mapping_file=a b.imp', '-DX="1"'],
         ['--'], ['-v', '-p', '-j']]


@st.composite
def entry(draw):
    args = draw(st.lists(st.one_of(st.sampled_from(WORDS), st.text(
        st.characters(codec='utf-8', exclude_characters='\0', exclude_categories=['Cs']), max_size=8)), max_size=8))
    return dict(cc=draw(st.sampled_from(CC)), launch=draw(st.sampled_from(LAUNCH)), args=args,
                form=draw(st.sampled_from(['arguments', 'command', 'command', 'both'])),
                quote=draw(st.lists(st.integers(0, 3), min_size=12, max_size=12)),
                cwd=draw(st.integers(0, 2)), out=draw(st.booleans()))


def quote(w, how, first=False):
    """One of the ways a shell command line may denote the word w."""
    safe = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+=./,:@%')
    if w and all(c in safe or i and c in '#~{}*?[]!' for i, c in enumerate(w)) and how in (0, 1):
        return w
    if how == 0 or how == 1:
        if '\n' not in w and w:
            return ''.join(c if c in safe else '\\' + c for c in w)
        how = 2
    if how == 2:
        return '"' + ''.join('\\' + c if c in '"\\' else c for c in w) + '"'
    return "'" + w.replace("'", "'\\''") + "'"


class C09(core.Check):
    id = 'C09'
    rule = ('Cases are compilation databases of 1 to 3 entries (arguments or quoted command, launchers, GCC- and CL-style '
            'drivers, words with blanks, quotes, shell characters and any text) and extra IWYU arguments, run through the '
            'script with a stand-in that records argv and cwd; non-trivial = some argument needs quoting.')
    quick = 6000
    thorough = 80000

    def prepare(self):
        toolrun.stand_in()

    def strategy(self):
        return st.fixed_dictionaries(dict(entries=st.lists(entry(), min_size=1, max_size=3),
                                          extra=st.sampled_from(EXTRA), jobs=st.sampled_from([[], ['-j', '2'], ['-v']])))

    def execute(self, case):
        db, want = [], []
        hard = False
        for n, e in enumerate(case['entries']):
            words = ([e['launch']] if e['launch'] else []) + [e['cc']] + e['args'] + ['f%d.cc' % n]
            cwd = os.path.join(self.tmp, ['w', 'w two', 'w\u00e9'][e['cwd']])
            os.makedirs(cwd, exist_ok=True)
            d = dict(directory=cwd, file='f%d.cc' % n)
            if e['out']:
                d['output'] = 'f.o'
            cmd = ' '.join(quote(w, e['quote'][i % 12]) for i, w in enumerate(words))
            hard = hard or cmd != ' '.join(words)
            if e['form'] in ('arguments', 'both'):
                d['arguments'] = words
            if e['form'] == 'command':
                d['command'] = cmd
            elif e['form'] == 'both':
                d['command'] = cmd           # says the same, as the format asks for
            db.append(d)
            cl = e['cc'].endswith('cl.exe') or e['cc'].endswith('clang-cl')
            want.append((os.path.realpath(cwd), (['--driver-mode=cl'] if cl else []) + case['extra'] + e['args'] + ['f%d.cc' % n]))
        r = toolrun.run(self, db, ['-p', '@DB@'] + case['jobs'] + (['--'] + case['extra'] if case['extra'] else []))
        need(r.exc is None, lambda: 'iwyu_tool raised %r on %r' % (r.exc, db))
        need(r.status == 0, lambda: 'exit status %r: %s' % (r.status, r.err))
        got = [(os.path.realpath(c), a[1:]) for c, a in r.log]
        for g, (c, a) in zip(got, r.log):
            need(os.path.realpath(a[0]) == os.path.realpath(toolrun.stand_in()), lambda: 'ran %r' % a[0])
        need(sorted(got) == sorted(want), lambda: 'IWYU was started with\n%r\nand not\n%r\nfor %r' % (sorted(got), sorted(want), db),
             key='arguments differ')
        if not case['jobs'] or case['jobs'] == ['-v']:
            need(got == want, lambda: 'entries are run in the order\n%r\nand not\n%r' % (got, want), key='order')
        return (sorted({e['form'] for e in case['entries']}) + sorted({'launcher' for e in case['entries'] if e['launch']}) +
                sorted({'cl' for a in want if a[1][:1] == ['--driver-mode=cl']}), hard)


if __name__ == '__main__':
    core.run(C09())
