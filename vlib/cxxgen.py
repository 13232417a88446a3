"""Generates C++ programs together with what IWYU has to say about them.

A case is plain JSON (integers that are taken modulo what is possible); build()
turns any case into a valid program: headers in several directories, holding
entities of the catalogue in namespaces and including each other, and a main
file that includes some of them, forward-declares some classes and uses entities
in ways of which the catalogue says whether they need the definition.
"""
import os
import re
import subprocess

from hypothesis import strategies as st

from vlib import core, cxxcat, iwyurun

CLANG = '/usr/lib/llvm-20/bin/clang++'
NAMESPACES = [[], [], ['na'], ['nb'], ['na', 'nc'], ['nd', 'ne', 'nf']]
# (directory, how it is spelled in an include, quotes)
PLACES = [('', '', '""'), ('', '', '""'), ('sub/', 'sub/', '""'), ('inc/', '', '""'), ('inc/deep/', 'deep/', '""'),
          ('sys/', '', '<>'), ('sys/in/', 'in/', '<>')]
FLAGS = ['-std=c++20', '-I.', '-Iinc', '-isystem', 'sys', '-fno-color-diagnostics']
EXTS = ['.h', '.h', '.h', '.hpp', '.hh', '']


class Entity:
    pass


class Header:
    def __init__(self):
        self.entities, self.includes, self.pre, self.post, self.marks = [], [], [], [], {}

    def text(self, guard=True):
        out = []
        if self.once:
            out.append('#pragma once')
        else:
            g = 'GUARD_%d_' % self.num
            out += ['#ifndef ' + g, '#define ' + g]
        out += self.pre
        for h in self.includes:
            out.append('#include %s%s' % (h.spelling, self.marks.get(h.num, '')))
        for e in self.entities:
            out += ['namespace %s {' % n for n in e.ns] + e.linkage + e.decl.split('\n') + ['}' for n in e.linkage + e.ns]
        out += self.post
        if not self.once:
            out.append('#endif')
        return '\n'.join(out) + '\n'

    def reach(self):
        seen = {}

        def go(h):
            if h.num not in seen:
                seen[h.num] = h
                for i in h.includes:
                    go(i)
        go(self)
        return seen


class Use:
    pass


# Entities that can be in a linkage specification, as far as the language goes.
LINKAGES = {'class': 'C', 'struct': 'C', 'union': 'C', 'class template': 'C++', 'constrained template': 'C++', 'enum': 'C',
            'overload set': 'C++', 'constant': 'C', 'alias': 'C', 'variable': 'C++'}


def entity(kind, num, ns, cat=cxxcat, linkage=False):
    e = Entity()
    e.linkage = ['extern "%s" {' % LINKAGES[kind]] if linkage and kind in LINKAGES else []
    k = cat.KINDS[kind]
    e.kind, e.num = kind, num
    e.ns = [] if k.get('macro') or k.get('global_only') else list(ns)
    e.decl = k['decl'].replace('@', str(num))
    e.name = (k['name'] or '').replace('@', str(num))
    e.prefix = ''.join(n + '::' for n in e.ns)
    e.qualified = e.prefix + e.name
    e.fwd = k['fwd'] and k['fwd'].replace('@', str(num))
    e.uses = [u for u in k['uses'] if u[2] is not None or (u[0] == 'using decl' and e.ns)]
    e.macro = bool(k.get('macro'))
    e.c = cat is not cxxcat
    return e


def use_text(e, label, template, n, lead=False, wrap=0):
    """The text of the nth use of the entity."""
    if template is None:
        return 'using %s;' % e.qualified
    t = re.sub(r'(?<=[A-Za-z])#', str(n), template).replace('@', str(e.num))
    if e.macro:
        t = t.replace('{{', '{').replace('}}', '}')
    else:
        p = e.prefix
        if lead and e.name and not e.c and 'out of line' not in label and 'explicit inst' not in label and '{p}T' not in template \
                and not re.search(r'[\w>)&*]\s\{q\}|~|operator', template.replace('return {q}', '')):
            p = '::' + p
        t = t.format(q=p + e.name, p=p)
    if wrap and not e.macro and not e.c and label not in ('out of line def', 'explicit instantiation', 'using decl', 'definition') and '#' not in t:
        if wrap == 1:
            t = 'namespace w%d {\n%s\n}' % (n, t)
        elif wrap == 2:
            t = 'namespace {\n%s\n}' % t if not t.startswith(('extern', 'void w', 'template struct')) else t
        elif wrap == 3:
            t = 'namespace w%d { namespace v {\n%s\n} }' % (n, t)
    return t


def place_header(h, num, place, ext, once, stem='h'):
    d, s, q = PLACES[place % len(PLACES)]
    h.num = num
    base = stem + '%d%s' % (num, EXTS[ext % len(EXTS)])
    h.path = d + base
    h.spelling = q[0] + s + base + q[1]
    h.once = once


class Unit:
    """A file IWYU reports on: the main file or its associated header."""

    def __init__(self, name):
        self.name = name
        self.includes, self.fwds, self.uses, self.pre, self.marks = [], [], [], [], {}

    def wanted_headers(self):
        """Numbers of the headers the file has to include."""
        return {u.entity.header.num for u in self.uses if u.need == 'F'}

    def wanted_fwds(self, provided=None):
        w = self.wanted_headers() if provided is None else provided
        return {u.entity for u in self.uses if u.need == 'P' and u.entity.header.num not in w}

    def lines(self):
        out = list(self.pre)
        for k, h in enumerate(self.includes):
            out.append('#include %s%s' % (h.spelling, self.marks.get(k, '')))
        for e in self.fwds:
            out.append(fwd_line(e))
        for u in self.uses:
            out += u.text.split('\n')
        return out

    def text(self):
        return '\n'.join(self.lines()) + '\n'


def fwd_line(e):
    return ''.join('namespace %s { ' % n for n in e.ns) + e.fwd + ' }' * len(e.ns)


class Program:
    def __init__(self):
        self.headers, self.args = [], []
        self.main, self.assoc = Unit('m.cc'), None
        self.extra = {}

    def files(self):
        f = {h.path: h.text() for h in self.headers}
        f.update(self.extra)
        f[self.main.name] = self.main.text()
        if self.assoc:
            f[self.assoc.name] = self.assoc.text()
        return f

    def show(self):
        return '\n'.join('== %s\n%s' % kv for kv in sorted(self.files().items()))


def fwd_key(line):
    """A forward declaration, independent of how its namespaces are written."""
    ns = []
    rest = line.strip()
    while True:
        m = re.match(r'(?:inline )?namespace ([\w:]+) \{ ?', rest)
        if not m:
            break
        ns += m.group(1).split('::')
        rest = rest[m.end():]
    m = re.match(r'(.*?;)[ }]*$', rest)
    return '::'.join(ns + ['']) + (m.group(1) if m else rest)


KIND_NAMES = sorted(cxxcat.KINDS)
FWD_KINDS = [k for k in KIND_NAMES if cxxcat.KINDS[k]['fwd']]


# In headers these forms make the author responsible for the definition.
AUTHOR = {'discarded call', 'pass by value', 'pass element', 'ref param', 'rvalue ref param', 'ref pass on', 'address of ref', 'ref', 'implicit ctor', 'discarded result', 'return value def',
          'by value def'}
ONCE = ('out of line def', 'using decl', 'explicit instantiation', 'specialization', 'definition', 'tentative')


@st.composite
def unit_spec(draw, max_uses):
    small = st.integers(0, 63)
    uses = [[draw(small), draw(small), draw(small), draw(st.integers(0, 3)), draw(st.booleans())]
            for _ in range(draw(st.sampled_from([max_uses] * 4 + list(range(max_uses)))))]
    return dict(uses=uses, inc=draw(st.lists(small, min_size=draw(st.integers(0, 4)), max_size=5)),
                fwds=draw(st.lists(small, max_size=3)), order=draw(small))


@st.composite
def cases(draw, kinds=None, max_headers=6, max_uses=8, assoc=False):
    kinds = kinds or KIND_NAMES
    n = draw(st.sampled_from([max_headers] * 3 + list(range(1, max_headers + 1))))
    headers = []
    for i in range(n):
        ne = draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3]))
        headers.append(dict(place=draw(st.integers(0, len(PLACES) - 1)), ext=draw(st.integers(0, 5)), once=draw(st.booleans()),
                            ents=[[draw(st.sampled_from(kinds)), draw(st.integers(0, 23))] for _ in range(ne)],
                            inc=draw(st.lists(st.integers(0, 63), max_size=2))))
    c = dict(headers=headers, main=draw(unit_spec(max_uses)))
    if assoc:
        c['assoc'] = draw(unit_spec(max(2, max_uses // 2)))
    return c


def fill(unit, spec, p, ents, base, header=False):
    fwd = [e for e in ents if e.fwd]
    seen = set()
    for k, uc in enumerate(spec['uses']):
        if not ents:
            break
        e = ents[uc[0] % len(ents)]
        label, need, template = e.uses[(uc[1] * 64 + uc[2]) % len(e.uses)]
        if header and (label in AUTHOR or label in ONCE):
            continue
        if label in ONCE:
            if (e, label) in seen:
                continue
            seen.add((e, label))
        u = Use()
        u.entity, u.label, u.need = e, label, need
        u.text = use_text(e, label, template, base + k, uc[4], uc[3])
        unit.uses.append(u)
    for k in spec['inc']:
        h = p.headers[k % len(p.headers)]
        if h not in unit.includes:
            unit.includes.append(h)
    for k in spec['fwds']:
        if fwd and fwd[k % len(fwd)] not in unit.fwds:
            unit.fwds.append(fwd[k % len(fwd)])
    # everything used must be reachable
    for u in unit.uses:
        h = u.entity.header
        if not any(h.num in i.reach() for i in unit.includes):
            if u.need == 'P' and u.entity in unit.fwds:
                continue
            ways = [x for x in p.headers if h.num in x.reach()]
            unit.includes.append(ways[spec['order'] % len(ways)])
    if spec['order'] % 2:
        unit.includes.reverse()


def build(case, base=0, stem='h', name='m', flip=False, cat=cxxcat, ext='.cc', flags=None):
    p = Program()
    p.main.name = name + ext
    n = base
    for i, hc in enumerate(case['headers']):
        h = Header()
        place_header(h, i, hc['place'], hc['ext'], hc['once'] != flip, stem)
        for kind, ns in hc['ents']:
            e = entity(kind, n + 1, NAMESPACES[ns % len(NAMESPACES)] if cat is cxxcat else [], cat,
                       cat is cxxcat and ns // len(NAMESPACES) % 4 == 1)
            e.header = h
            n += 1
            h.entities.append(e)
        for k in hc['inc']:
            if i:
                o = p.headers[k % i]
                if o not in h.includes:
                    h.includes.append(o)
        p.headers.append(h)
    ents = [e for h in p.headers for e in h.entities if e.uses]
    fill(p.main, case['main'], p, ents, 100)
    if case.get('assoc'):
        p.assoc = Unit(name + '.h')
        p.assoc.pre = ['#pragma once']
        fill(p.assoc, case['assoc'], p, ents, 500, header=True)
        p.main.pre = ['#include "%s.h"' % name] + p.main.pre
    p.args = list(FLAGS if flags is None else flags)
    return p


def compiles(root, args, main):
    r = subprocess.run([CLANG if not main.endswith('.c') else CLANG[:-2], '-fsyntax-only', '-w'] + list(args) + [main], cwd=root, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode == 0, r.stdout.decode('utf-8', 'replace')


def analyse(check, files, args, main, extra=(), root=None):
    """Writes the program and runs IWYU on it; returns (reports, result).

    A program that the compiler rejects too is a fault of the generator (Skip)."""
    import shutil
    root = root or os.path.join(check.tmp, 'p')
    shutil.rmtree(root, ignore_errors=True)
    iwyurun.write_tree(root, files)
    return rerun(check, args, main, extra, root)


def rerun(check, args, main, extra=(), root=None):
    root = root or os.path.join(check.tmp, 'p')
    r = iwyurun.run(root, ['-w'] + [x for e in extra for x in ('-Xiwyu', e)] + list(args) + [main])
    try:
        reports, other = iwyurun.parse(r.stderr)
    except iwyurun.Garbled as e:
        raise core.Violation('the report is garbled (%s):\n%s' % (e, r.text), key='garbled report')
    if r.status != 0 or other or r.stdout:
        ok, why = compiles(root, args, main)
        if not ok:
            if os.environ.get('VERIF_SHOW'):
                print(root, why)
            raise core.Skip('generated program does not compile: ' + ' '.join(re.sub(r'\d+', 'N', l.split('error:')[1]) for l in why.split('\n') if 'error:' in l)[:55])
        raise core.Violation('IWYU fails (status %d) or says more than its report on a program that compiles:\n%s' % (
            r.status, r.text[-3000:]), key='fails on a valid program')
    return reports, r


def compiles_files(check, p):
    """Whether the program as generated compiles."""
    import shutil
    root = os.path.join(check.tmp, 'q')
    shutil.rmtree(root, ignore_errors=True)
    iwyurun.write_tree(root, p.files())
    return compiles(root, p.args, p.main.name)[0]
