import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, toolrun
from vlib.core import need
from hypothesis import strategies as st


@st.composite
def behaviour(draw):
    ops = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.integers(0, 2))
        if k == 0:
            ops.append(['sleep', draw(st.sampled_from([0, 200, 1000, 3000, 8000]))])
        else:
            ops.append([['out', 'err'][k - 1], draw(st.sampled_from([0, 1, 1, 2, 3, 40, 3000])), draw(st.integers(0, 5))])
    end = draw(st.integers(0, 7))
    if end == 0:
        ops.append(['kill', draw(st.sampled_from([1, 6, 9, 11, 15]))])
    elif end <= 3:
        ops.append(['exit', draw(st.sampled_from([0, 1, 2, 127, 128, 254, 255, 0]))])
    return ops


PIECES = ['plain text', 'unicode \u00e9\u4e2d\u2028', 'tab\tand \r', '(x.cc has correct #includes/fwd-decls)', '\x1b[31mred', 'bad \udcff\udc80 bytes']


class C11(core.Check):
    id = 'C11'
    rule = ('Cases are databases of up to 12 entries whose stand-in processes sleep, write to both streams (up to 300 kB, '
            'any bytes), exit with any status or die of a signal, run with 1 to 12 jobs, a load limit and a formatter; '
            'non-trivial = at least 3 entries run in parallel and one of them fails.')
    quick = 5000
    thorough = 60000
    case_seconds = 25

    def prepare(self):
        toolrun.stand_in()

    def strategy(self):
        return st.fixed_dictionaries(dict(
            procs=st.lists(behaviour(), min_size=0, max_size=12), jobs=st.sampled_from([None, 1, 2, 3, 4, 8, 12, 0, '-j']),
            load=st.sampled_from([None, None, None, '0.0001', '1000']), verbose=st.booleans(), same=st.booleans()))

    def execute(self, case):
        scripts, outs, codes = [], [], []
        for k, ops in enumerate(case['procs']):
            script, out, code = b'', b'', 0
            for n, op in enumerate(ops):
                if op[0] in ('out', 'err'):
                    piece = ('<%d.%d %s>\n' % (k, n, PIECES[op[2]])).encode('utf-8', 'surrogateescape') * op[1]
                    script += b'%s %d\n' % (op[0].encode(), len(piece)) + piece + b'\n'
                    out += piece
                else:
                    script += ('%s %d\n' % (op[0], op[1])).encode()
                    if op[0] == 'exit':
                        code = op[1]
                    if op[0] == 'kill':
                        code = -op[1]
            scripts.append(script)
            outs.append(out)
            codes.append(code)
        db = [dict(directory='/', file='/f%d.cc' % (0 if case['same'] else k), arguments=['cc', '-DREC=%d' % k])
              for k in range(len(scripts))]
        j = case['jobs']
        argv = ['-p', '@DB@'] + ([] if j is None else ['-j'] if j == '-j' else ['-j', str(j)])
        argv += ['-l', case['load']] if case['load'] else []
        argv += ['-v'] if case['verbose'] else []
        r = toolrun.run(self, db, argv, scripts)
        need(r.exc is None, lambda: 'iwyu_tool raised %r' % (r.exc,), key='raised')
        ran = sorted(int(w[6:]) for _, a in r.log for w in a if w.startswith('-DREC='))
        need(ran == list(range(len(db))), lambda: 'entries run: %r of %d' % (ran, len(db)), key='not run exactly once')
        # outputs: whole and unmixed.  Bytes that are not UTF-8 may be spelled differently.
        def norm(b):
            return b.decode('utf-8', 'surrogateescape').rstrip('\n')
        text = norm(r.out)
        for k, o in enumerate(outs):
            w = norm(o)
            if any('\udc80' <= c <= '\udcff' for c in w):
                lines = w.split('\n')
                # first line in place and the right number of lines after it
                need(text.count('<%d.' % k) == len(lines), lambda: 'output of entry %d is not complete' % k, key='output')
            else:
                need(w in text, lambda: 'output of entry %d is not printed whole and unmixed: %r not in %r' % (
                    k, w[:300], text[:1000]), key='output')
        order = []
        for l in text.split('\n'):
            if l.startswith('<'):
                k = int(l[1:l.index('.')])
                if not order or order[-1] != k:
                    order.append(k)
        need(len(order) == len(set(order)), lambda: 'outputs are mixed: %r' % order, key='mixed')
        total = sum(1 for l in text.split('\n') if l.startswith('<'))
        need(total == sum(o.count(b'\n') for o in outs), lambda: 'output lines: %d' % total, key='output count')
        njobs = 1 if j is None else (os.cpu_count() if j in (0, '-j') else j)
        if njobs == 1:
            need(order == sorted(order), lambda: 'sequential outputs out of order: %r' % order, key='order')
        # never too many at once
        ev = sorted([(a, 1) for _, a, b in r.times] + [(b, -1) for _, a, b in r.times], key=lambda x: (x[0], x[1]))
        cur = top = 0
        for t, d in ev:
            cur += d
            top = max(top, cur)
        need(top <= njobs, lambda: '%d processes at the same time with %r jobs' % (top, njobs), key='too many jobs')
        need((r.status % 256 == 0) == all(c == 0 for c in codes), lambda: 'status %r for entries with %r' % (r.status, codes), key='status')
        labels = ['jobs=%s' % j, 'parallel=%d' % min(top, 4)] + (['signal'] if min(codes + [0]) < 0 else []) + \
            (['failure'] if any(codes) else [])
        return labels, len(db) >= 3 and njobs > 1 and any(codes)


if __name__ == '__main__':
    core.run(C11())
