import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib import core, cxxgen, iwyurun, stdcat
from vlib.core import need

HEAVY = {'regex', 'format', 'filesystem', 'random', 'future', 'thread', 'chrono', 'locale', 'valarray', 'barrier', 'stop_token'}
PRIVATE = re.compile(r'(^|/)(bits|ext|debug|tr1|tr2|pstl|asm|asm-generic|gnu|parallel|experimental|x86_64-linux-gnu|c\+\+)/|^_|/_|^linux/|\.tcc$')


STREAMS = {'ios', 'iosfwd', 'ostream', 'istream', 'sstream', 'fstream', 'iomanip', 'iostream', 'streambuf'}


class Name:
    pass


C_HEADERS = {x for h, u in stdcat.C.values() for x in h.split() if '/' not in x}


def names(lang):
    """The names a program of the language can use."""
    out = []

    def add(label, headers, use, std=''):
        n = Name()
        n.label, n.headers, n.use, n.std = label, headers, use, std
        out.append(n)
    if lang == 'c':
        for k, (h, u) in stdcat.C.items():
            add(k, [x + '.h' for x in h.split()], u)
    else:
        for k, h, u in stdcat.CXX:
            if lang == 'c++' or not set(h.split()) & HEAVY:
                add(k, h.split(), u)
        for k, (h, u) in stdcat.C.items():
            # which of the two sets of headers is meant depends on what is in sight
            add(k, [x + '.h' for x in h.split()] + ['c' + x for x in h.split() if '/' not in x], u)
            if '{s}' in u:
                add('std ' + k, ['c' + x for x in h.split() if '/' not in x] + [x + '.h' for x in h.split()], u, 'std::')
    for k, (h, u) in stdcat.POSIX.items():
        hs = h.split()
        if lang != 'c':
            # the C++ versions include the C ones
            hs += ['c' + x[:-2] for x in hs if x[:-2] in C_HEADERS]
        add(k, hs, u)
    return out


NAMES = {l: names(l) for l in ('c', 'c++', 'light')}
CXX_ONLY = [n for n in NAMES['light'] if not any(h.endswith('.h') for h in n.headers)]


def use_text(n, k):
    t = n.use.replace('u#', 'u%d' % k).replace('U#', 'U%d' % k).replace('w#', 'w%d' % k)
    return t.format(s=n.std)


class C30(core.Check):
    id = 'C30'
    rule = ('Cases are C and C++ files using up to 6 of 400 names of the C++ and C libraries and of POSIX, with any of their '
            'headers included directly or through a local header. Expected: of each name one of the headers the standards give for it, '
            'no other header, and a program with just the advised includes compiles. Non-trivial = an include has to be added and one removed.')
    quick = 180
    thorough = 5000

    def prepare(self):
        iwyurun.prepare()

    def strategy(self):
        small = st.integers(0, 1023)
        lang = st.sampled_from(['c', 'c', 'light', 'light', 'light', 'c++'])
        return st.builds(lambda lang, uses, cxx, direct, local, own: dict(lang=lang, uses=uses, cxx=cxx, direct=direct, local=local, own=own),
                         lang, st.lists(small, min_size=1, max_size=5), st.lists(small, max_size=2),
                         st.lists(small, max_size=3), st.lists(small, max_size=2), st.integers(0, 63))

    def fixed(self):
        # every name by itself
        if self.tier == 'quick':
            return []
        return [dict(lang=l, uses=[k], cxx=[], direct=[], local=[], own=o) for l in ('c', 'c++') for k in range(len(NAMES[l])) for o in (0, 1)]

    def execute(self, case):
        lang = case['lang']
        all_names = NAMES[lang]
        used = []
        for k in case['uses']:
            used.append(all_names[k % len(all_names)])
        if lang != 'c':
            used += [CXX_ONLY[k % len(CXX_ONLY)] for k in case['cxx']]
        direct, local = [], []
        for k in case['direct']:
            n = all_names[k % len(all_names)]
            direct.append(n.headers[k % len(n.headers)])
        for k in case['local']:
            n = all_names[k % len(all_names)]
            local.append(n.headers[k % len(n.headers)])
        for i, n in enumerate(used):
            h = n.headers[0]
            (direct if case['own'] >> i & 1 else local).append(h)
        direct = list(dict.fromkeys(direct))
        local = list(dict.fromkeys(local))
        body = ''.join(use_text(n, i) + '\n' for i, n in enumerate(used))
        main = 'm.c' if lang == 'c' else 'm.cc'
        args = ['-std=gnu17' if lang == 'c' else '-std=c++23', '-D_GNU_SOURCE', '-I.']
        files = {main: ''.join('#include <%s>\n' % h for h in direct) + '#include "all.h"\n' + body,
                 'all.h': '#pragma once\n' + ''.join('#include <%s>\n' % h for h in local)}
        reports, r = cxxgen.analyse(self, files, args, main)
        show = lambda: '%s\n== report\n%s' % ('\n'.join('== %s\n%s' % kv for kv in sorted(files.items())), r.text)
        need(list(reports) == [main], lambda: 'reports on %r\n%s' % (list(reports), show()), key='wrong files')
        rep = reports[main]
        have = ['<%s>' % h for h in direct] + ['"all.h"']
        full = have if rep.correct else rep.full_includes()
        for f in full:
            if f[0] == '<':
                need(not PRIVATE.search(f[1:-1]), lambda: 'advises the implementation header %s\n%s' % (f, show()), key='private header')
        for n in used:
            need(any('<%s>' % h in full for h in n.headers), lambda: 'no header for %s (one of %s)\n%s' % (n.label, ', '.join(n.headers), show()),
                 key='missing header')
        for f in full:
            if f in ('<ios>', '<iosfwd>', '<streambuf>') and any(STREAMS & set(n.headers) for n in used):
                # one of them is for an alias like std::ostream
                continue
            need(any('<%s>' % h == f for n in used for h in n.headers), lambda: '%s is not a header for anything that is used\n%s' % (f, show()),
                 key='superfluous header')
        p = subprocess.run([cxxgen.CLANG if lang != 'c' else cxxgen.CLANG[:-2], '-fsyntax-only', '-w', '-xc' if lang == 'c' else '-xc++'] + args + ['-'],
                           input=''.join('#include %s\n' % f for f in full) + ''.join(t + '\n' for t in ([] if rep.correct else rep.full_fwds())) + body,
                           cwd=os.path.join(self.tmp, 'p'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding='utf-8', errors='replace')
        need(p.returncode == 0, lambda: 'with the advised includes the program does not compile: %s\n%s' % (p.stdout[:1500], show()), key='does not compile')
        want = set(full)
        labels = ['language ' + lang] + sorted({f for f in full})
        return labels, bool(want - set(have)) and bool(set(have) - want)


if __name__ == '__main__':
    core.run(C30())
