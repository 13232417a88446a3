import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter
from hypothesis import strategies as st
from vlib import core, fixmodel as fm
from vlib.core import need, Violation


class C01(core.Check):
    id = 'C01'
    rule = ('Cases are generated files (code, comments, strings, nested conditionals, namespaces, include guards, '
            'any line ending/encoding/control characters) with a report removing and adding random lines and random '
            'options; non-trivial = the run changed the file and it holds at least 3 lines that must not change.')
    quick = 14000
    thorough = 300000

    def strategy(self):
        return st.fixed_dictionaries(dict(
            tree=fm.tree(), adds=fm.adds(), opts=fm.options(), store=fm.storage(),
            ext=st.sampled_from(['.cc', '.cc', '.h', '.c', '.hpp'])))

    def execute(self, case):
        r = fm.render(case['tree'])
        data, codec, eols = fm.encode(r, case['store'])
        fname = os.path.join(self.tmp, 'file' + case['ext'])
        comments = '--comments' in case['opts'] or '--update_comments' in case['opts']
        rep, removed, kept, added = fm.report(fname, r, case['adds'])
        with open(fname, 'wb') as f:
            f.write(data)
        status, out, exc = fm.run_main(case['opts'], rep)
        need(exc is None, lambda: 'fix_includes raised %r on a valid report' % (exc,))
        need('ERROR' not in out, lambda: 'valid report refused: %s' % out)
        need(status == 0, 'exit status %r' % (status,))
        with open(fname, 'rb') as f:
            new = f.read()
        safe = case['ext'] in ('.h', '.hpp') and '--nosafe_headers' not in case['opts']
        stat, _ = fm.roles(r, [] if safe else removed)
        if not removed and not added and '--update_comments' not in case['opts']:
            need(new == data, 'a file reported correct was changed')
        body = new
        if case['store']['enc'] == 'bom':
            need(new.startswith(b'\xef\xbb\xbf') or not data, 'BOM lost')
            body = new[3:]
            need(not body.startswith(b'\xef\xbb\xbf'), 'BOM duplicated')
        # split into (text, eol)
        import re
        parts = re.findall(b'[^\r\n]*(?:\r\n|\n|\r|$)', body)
        if parts and parts[-1] == b'':
            parts.pop()
        got = []
        for p in parts:
            t = p.rstrip(b'\r\n')
            got.append((t, p[len(t):]))
        prot = [(l.text.encode(codec), eols[i].encode(), l) for i, l in enumerate(r.lines)
                if stat[l.no] == 'protected']
        # 1. the protected lines appear in order, with their exact bytes
        used = [False] * len(got)
        pos = 0
        for text, eol, l in prot:
            j = pos
            while j < len(got) and not (got[j][0] == text and (got[j][1] == eol or eol == b'')):
                j += 1
            need(j < len(got), lambda: 'line lost, reordered or altered: %r (line %d)\n--- before\n%s\n--- after\n%s' % (
                text, l.no, data.decode(codec, 'replace'), new.decode(codec, 'replace')),
                 key='protected line lost or altered')
            used[j] = True
            pos = j + 1
        # 2. everything else is something that may be there
        allowed = Counter()
        for l in r.lines:
            s = stat[l.no]
            if s in ('optional', 'attached', 'either', 'removed', 'kept'):
                allowed[l.text.rstrip().encode(codec)] += 1
        names = {}
        for sp in kept + removed:
            names[sp[0].key.encode()] = 'include' if sp[0].role == 'inc' else 'fwd'
        for k, line in added:
            names[k.encode()] = 'include' if line.startswith('#') else 'fwd'
        import collections
        seen_names = collections.Counter()
        for j, (t, e) in enumerate(got):
            if used[j] or not t.strip():
                continue
            if allowed[t.rstrip()] > 0:
                allowed[t.rstrip()] -= 1
                continue
            m = re.match(rb'\s*#\s*include\s+([<"][^>"]*[>"])', t)
            if m and names.get(m.group(1)) == 'include':
                seen_names[m.group(1)] += 1
                need(seen_names[m.group(1)] == 1, 'include duplicated: %r' % t)
                continue
            m = re.search(rb'\b([KA]\d+);', t)
            if m and names.get(m.group(1)) == 'fwd':
                seen_names[m.group(1)] += 1
                need(seen_names[m.group(1)] == 1, 'declaration duplicated: %r' % t)
                continue
            if re.match(rb'namespace [\w:]* ?\{$', t) or re.match(rb'\}  // namespace', t):
                continue
            raise Violation('unexpected line in the output: %r\n--- before\n%s\n--- after\n%s' % (
                t, data.decode(codec, 'replace'), new.decode(codec, 'replace')), key='unexpected line')
        # comments that belong to kept lines are still there
        have = Counter(t.rstrip() for t, e in got)
        wantc = Counter(l.text.rstrip().encode(codec) for l in r.lines if stat[l.no] in ('attached', 'either', 'protected') and l.role == 'com')
        for t, n in wantc.items():
            need(have[t] >= n, lambda: 'comment lost: %r\n--- before\n%s\n--- after\n%s' % (
                t, data.decode(codec, 'replace'), new.decode(codec, 'replace')), key='comment lost')
        # 3. new line ends follow the file's own convention
        if case['store']['eol'] in ('\n', '\r\n') and len(r.lines) > 1:
            for j, (t, e) in enumerate(got[:-1]):
                need(e == case['store']['eol'].encode(), lambda: 'foreign line ending %r after %r' % (e, t),
                     key='foreign line ending')
        else:
            ends = Counter(eols)
            if ends['\r\n'] != ends['\n']:
                main = b'\r\n' if ends['\r\n'] > ends['\n'] else b'\n'
                for t, e in got[:-1]:
                    if re.search(rb'\b[aA]1\d\d\b', t):
                        need(e == main, lambda: 'added line %r ends in %r, the file mostly in %r' % (t, e, main),
                             key='foreign line ending')
        labels = ['eol=%r' % case['store']['eol'], 'enc=' + case['store']['enc'], 'guard=%s' % case['tree']['guard'],
                  'changed' if new != data else 'same']
        if case['store']['ctl']:
            labels.append('control character')
        if any(b['kind'] == 'if' for b in r.blocks):
            labels.append('conditional')
        return labels, new != data and len(prot) >= 3


if __name__ == '__main__':
    core.run(C01())
