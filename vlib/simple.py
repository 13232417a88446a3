"""Small programs for the checks on pragmas: header k declares function f<k> and class C<k>."""
import os

from vlib import cxxgen

# (path, spelling)
SPOTS = [('h%d.h', '"h%d.h"'), ('h%d.h', '"h%d.h"'), ('sub/h%d.h', '"sub/h%d.h"'), ('inc/h%d.hpp', '"h%d.hpp"'), ('inc/deep/h%d.h', '"deep/h%d.h"'),
         ('sys/h%d.h', '<h%d.h>'), ('sys/h%d', '<h%d>'), ('sys/in/h%d.h', '<in/h%d.h>')]


class Head:
    def __init__(self, num, spot, ns=()):
        self.num, self.ns = num, list(ns)
        self.prefix = ''.join(n + '::' for n in self.ns)
        path, sp = SPOTS[spot % len(SPOTS)]
        self.path, self.spelling = path % num, sp % num
        self.includes = []      # (spelling, comment)
        self.pre = []
        self.post = []

    def text(self):
        return ''.join(l + '\n' for l in ['#ifndef G%d_' % self.num, '#define G%d_' % self.num] + self.pre
                       + ['#include %s%s' % i for i in self.includes]
                       + ['namespace %s {' % n for n in self.ns]
                       + ['int f%d();' % self.num, 'struct C%d { int x; };' % self.num, 'struct D%d;' % self.num]
                       + ['}'] * len(self.ns) + self.post + ['#endif'])

    def fwd(self, letter='C'):
        """The line a forward declaration of C<k> or D<k> takes in a report."""
        return ''.join('namespace %s { ' % n for n in self.ns) + 'struct %s%d;' % (letter, self.num) + ' }' * len(self.ns)


def uses(kinds):
    """Lines using f<k> ('f') or the class by value ('c') or pointer ('p')."""
    out = []
    for k, how in kinds:
        out.append({'f': 'int u%d_ = f%d();', 'c': 'int v%d_ = sizeof(C%d);', 'p': 'C%d* w%d_ = nullptr;'}[how] % (k, k))
    return out


FLAGS = cxxgen.FLAGS


def show(files, r=None, opts=()):
    return 'options %s\n%s%s' % (list(opts), '\n'.join('== %s\n%s' % kv for kv in sorted(files.items())), '\n== report\n' + r.text if r else '')
