import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, toolrun
from vlib.core import need
from hypothesis import strategies as st

# a fixed family of names with shared prefixes; directories may be symlinks
DIRS = ['src', 'src2', 'src/a', 'src/ab', 'src/a/b', 'src.d', 'sr', 'src/A', 's p', 's p/x', 'src-link', 'src/a/loop']
LINKS = {'src-link': 'src', 'src/a/loop': '../../src2'}
NAMES = ['a.cc', 'a.ccp', 'a.c', 'ab.cc', 'aa', 'a.cc.cc', 'x y.cc', 'lnk.cc']
FORMS = ['abs', 'rel', 'dots', 'slash']


@st.composite
def place(draw):
    return dict(d=draw(st.sampled_from(DIRS)), n=draw(st.sampled_from(NAMES)), form=draw(st.sampled_from(FORMS)),
                base=draw(st.sampled_from(['', 'src', 'src/a', 's p'])))


@st.composite
def sel(draw):
    return dict(p=draw(place()), dir=draw(st.booleans()), of=draw(st.sampled_from([None, 0, 1, 2, 3])), up=draw(st.integers(0, 2)), miss=draw(st.integers(0, 6)) == 0, top=draw(st.integers(0, 12)) == 0)


class C10(core.Check):
    id = 'C10'
    rule = ('Cases are databases over a tree of directories with common name prefixes, symbolic links and blanks, entries '
            'and selections given absolutely, relatively, with .. or a trailing slash; non-trivial = the selection is a '
            'proper non-empty part of the database.')
    quick = 8000
    thorough = 100000

    def prepare(self):
        toolrun.stand_in()

    def strategy(self):
        return st.fixed_dictionaries(dict(
            entries=st.lists(st.tuples(place(), st.booleans()), min_size=1, max_size=7),
            sel=st.lists(sel(), max_size=3), cwd=st.sampled_from(['', 'src', 'src/a', 's p']), jobs=st.sampled_from([[], ['-j', '3']])))

    def tree(self):
        root = os.path.join(self.tmp, 'tree')
        if not os.path.exists(root):
            for d in DIRS:
                if d not in LINKS:
                    os.makedirs(os.path.join(root, d), exist_ok=True)
            for d, t in LINKS.items():
                os.symlink(t, os.path.join(root, d))
            for d in DIRS:
                for n in NAMES:
                    p = os.path.join(root, d, n)
                    if n == 'lnk.cc':
                        if not os.path.lexists(p):
                            os.symlink('a.cc', p)
                    else:
                        open(p, 'a').close()
        return root

    def spell(self, root, path, form, base):
        if form == 'abs':
            return os.path.join(root, path)
        if form == 'dots':
            return os.path.join(root, 'src', '..', path)
        if form == 'slash':
            return os.path.join(root, '.', path.replace('/', '//'))
        return os.path.relpath(os.path.join(root, path), os.path.join(root, base))

    def execute(self, case):
        root = self.tree()
        db = []
        files = []
        for k, (p, has_arg) in enumerate(case['entries']):
            path = p['d'] + '/' + p['n']
            f = self.spell(root, path, p['form'], p['base'])
            db.append(dict(directory=os.path.join(root, p['base']), file=f, arguments=['cc', '-DREC=%d' % k, f]))
            files.append(os.path.join(root, path))
        args = []
        want = set()
        warned = []
        for s in case['sel']:
            p = s['p']
            path = p['d'] if s['dir'] else p['d'] + '/' + p['n']
            if s['of'] is not None:
                q = case['entries'][s['of'] % len(case['entries'])][0]
                path = q['d'] + '/' + q['n']
                for _ in range(s['up']):
                    path = os.path.dirname(path) or '.'
            if s['top']:
                path = ['.', '..', '/'][s['up']]
            if s['miss']:
                path += '-not-there'
            a = path if path.startswith('/') else self.spell(root, path, p['form'], case['cwd'])
            if s['dir'] and os.path.isdir(os.path.join(root, path)) and p['form'] == 'slash' and not s['miss']:
                a += '/'
            args.append(a)
            real = os.path.join(root, path)
            hit = set()
            if os.path.exists(real):
                for k, f in enumerate(files):
                    q = os.path.realpath(f)
                    while True:
                        if os.path.samefile(q, real):
                            hit.add(k)
                            break
                        if q == '/':
                            break
                        q = os.path.dirname(q)
            if not hit:
                warned.append(os.path.realpath(real))
            want |= hit
        if not args:
            want = set(range(len(db)))
        r = toolrun.run(self, db, ['-p', '@DB@'] + case['jobs'] + args, cwd=os.path.join(root, case['cwd']))
        show = lambda: 'database %r\narguments %r in %r\nstderr %s' % (db, args, case['cwd'], r.err)
        need(r.exc is None, lambda: 'iwyu_tool raised %r\n%s' % (r.exc, show()))
        got = sorted(int(w[6:]) for _, a in r.log for w in a if w.startswith('-DREC='))
        need(set(got) == want, lambda: 'entries analysed: %r, selected: %r\n%s' % (got, sorted(want), show()), key='wrong entries')
        need(len(got) == len(want), lambda: 'entries analysed repeatedly: %r\n%s' % (got, show()), key='analysed twice')
        for w in warned:
            need(any(w in l and 'warning' in l for l in r.err.split('\n')),
                 lambda: 'no warning about %r\n%s' % (w, show()), key='no warning')
        need(len([l for l in r.err.split('\n') if 'warning' in l]) == len(warned),
             lambda: 'warnings do not match the %d unmatched arguments\n%s' % (len(warned), show()), key='warnings')
        need(r.status == 0, lambda: 'exit status %r' % r.status)
        n = len(want)
        return ['all' if not args else 'none' if not n else 'some', 'warned=%d' % len(warned)] + sorted({s['p']['form'] for s in case['sel']}), \
            bool(args) and 0 < n < len(db)


if __name__ == '__main__':
    core.run(C10())
