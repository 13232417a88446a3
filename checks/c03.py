import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter
from vlib import core, fixmodel as fm, cpplex
from vlib.core import need
from hypothesis import strategies as st


class C03(core.Check):
    id = 'C03'
    rule = ('Cases are generated files, reports and options in three modes: sorting twice; applying a report and then '
            'the report on the result until it is stable; adding lines and removing them again. Non-trivial = the first '
            'run changed the file.')
    quick = 12000
    thorough = 200000

    def strategy(self):
        return fm.case_strategy(mode=st.sampled_from(['sort', 'again', 'undo']),
                                store=fm.storage().filter(lambda s: s['enc'] != 'sjis'))

    def read(self, fname):
        with open(fname, 'rb') as f:
            return f.read()

    def run(self, opts, rep, fname):
        s, out, exc = fm.run_main(opts, rep)
        need(exc is None, lambda: 'fix_includes raised %r\n%s' % (exc, rep))
        need('ERROR' not in out, lambda: 'a report on the present file was refused: %s\n%s\n%s' % (
            out, rep, self.read(fname).decode('utf-8', 'replace')), key='correct report refused')
        return self.read(fname), out

    def execute(self, case):
        mode = case['mode']
        opts = case['opts']
        if mode == 'sort':
            r = fm.render(case['tree'])
            if any(fm.removable(b['item'], set()) for b in r.blocks):
                raise core.Skip('has an empty block')    # cleaned up at any edit
            data, codec, _ = fm.encode(r, case['store'])
            fname = os.path.join(self.tmp, 'file' + case['ext'])
            with open(fname, 'wb') as f:
                f.write(data)
            one, _ = self.run(opts + ['--sort_only', fname], '', fname)
            two, out = self.run(opts + ['--sort_only', fname], '', fname)
            need(one == two, lambda: 'sorting twice differs from sorting once\n--- before\n%s\n--- once\n%s\n--- twice\n%s' % (
                data.decode(codec), one.decode(codec), two.decode(codec)), key='sorting is not idempotent')
            need('edited 0 files' in out, lambda: 'the second sort counts an edit: %s' % out, key='count')
            return ['sort'], one != data
        if mode == 'undo':
            opts = [o for o in opts if 'safe' not in o and 'comments' not in o] + ['--nosafe_headers', '--nocomments']
            tree = case['tree']
            case = dict(case, opts=opts)
            r0 = fm.render(tree)
            for b in r0.blocks:      # what is empty to begin with is cleaned up, too
                if fm.removable(b['item'], set()):
                    raise core.Skip('has an empty block')
            for l in r0.lines:       # removal needs no marks of its own
                if l.item and 'rm' in l.item:
                    l.item['rm'] = False
            if not case['adds']:
                raise core.Skip('nothing to add')
        a = fm.applying(self, case)
        need(a.exc is None, lambda: 'fix_includes raised %r on a valid report\n%s' % (a.exc, a.show))
        names = {s[0].key: fm.fwd_report(s) for s in a.kept + a.removed if s[0].role == 'fwd'}
        names.update({k: l for k, l in a.added if not l.startswith('#')})
        if mode == 'undo':
            rep = fm.rereport(a.fname, a.after, names, remove={k for k, _ in a.added})
            two, out = self.run(opts, rep, a.fname)
            t2 = fm.text_of(two, a.codec)

            def canon(text):
                # order within include runs may change, and a comment may have become that of an added line
                by = {}
                for t in cpplex.tokens(text):
                    if t.kind != 'com':
                        by.setdefault(t.line, []).append(t.text)
                return Counter(' '.join(v) for v in by.values())
            reshaped = any(s[0].item['ns'] for s in a.kept if s[0].role == 'fwd')
            if not reshaped:
                need(canon(t2) == canon(a.before), lambda: 'adding and removing again left a difference: %r\n%s\n--- undone\n%s' % (
                    (canon(t2) - canon(a.before), canon(a.before) - canon(t2)), a.show, t2), key='undo differs')
            fixed = [l.text for l in a.r.lines if l.role in ('code', 'if', 'else', 'endif', 'guard')]
            keep = set(fixed)
            need([l for l in t2.split('\n') if l in keep] == fixed,
                 lambda: 'other lines changed\n%s\n--- undone\n%s' % (a.show, t2), key='undo changed other lines')
            return ['undo'], a.new != a.data
        com = (lambda k: '  // for Z' if len(k) % 2 else '') if '--comments' in opts or '--update_comments' in opts else (lambda k: '')
        o2 = opts + ['--update_comments']
        rep = fm.rereport(a.fname, a.after, names, comment=com)
        two, _ = self.run(o2, rep, a.fname)
        prev = two
        for i in range(4):
            rep = fm.rereport(a.fname, fm.text_of(prev, a.codec), names, comment=com)
            three, out = self.run(o2, rep, a.fname)
            if three == prev:
                break
            # only blank lines may still settle
            need([l for l in three.decode(a.codec).split() if l] == [l for l in prev.decode(a.codec).split() if l],
                 lambda: 'applying the result of a run again changes it\n%s\n--- again\n%s\n--- and again\n%s' % (
                     a.show, prev.decode(a.codec), three.decode(a.codec)), key='not stable')
            prev = three
        else:
            raise core.Violation('blank lines never settle\n%s\n--- at last\n%s' % (a.show, three.decode(a.codec)),
                                 key='never settles')
        # and without forcing it, a correct file is left alone
        four, out = self.run(opts if '--update_comments' in opts else [o for o in opts], '(%s has correct #includes/fwd-decls)\n' % a.fname, a.fname)
        need(four == three, lambda: 'a correct file was changed', key='correct file changed')
        need('edited 0 files' in out, lambda: 'the last run counts an edit: %s' % out, key='count')
        same = 'first run already stable' if two == a.new else 'settled on the second run'
        return ['again', same], a.new != a.data


if __name__ == '__main__':
    core.run(C03())
