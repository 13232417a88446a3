"""The check runner: generated-input search with shrinking, replay and evidence.

A check subclasses Check and supplies
  prepare()        builds what it needs (once, in the parent)
  strategy()       a Hypothesis strategy of JSON-able cases
  fixed()          optional: systematically enumerated cases, run first
  execute(case)    the oracle: raises Violation, else returns (labels, nontrivial)

Cases are searched by several worker processes, each a pure function of
VERIF_SEED and its own number.  A failing case is shrunk by Hypothesis, re-run
three times outside the library, and written out as the replay file.
"""
import hashlib
import json
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key or msg.split('\n')[0]


class Skip(Exception):
    """The case says nothing (e.g. an invalid generated program)."""


class _Stop(BaseException):
    pass


def need(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


_scratch_root = None


def scratch_root():
    global _scratch_root
    if _scratch_root is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _scratch_root = tempfile.mkdtemp(prefix='verif-', dir=base)
    return _scratch_root


class Check:
    id = None
    title = ''
    level = 'exploration'
    rule = ''
    assumptions = []
    quick = 400        # random cases in all, over all workers
    thorough = 8000
    workers = 8
    shrink_seconds = 45
    case_seconds = 40          # cases take milliseconds; more is a hang
    budget = {'quick': 420, 'thorough': 3000}   # wall-clock stop for generation
    max_size_samples = 3

    def prepare(self):
        pass

    def strategy(self):
        return None

    def fixed(self):
        return []

    def execute(self, case):
        raise NotImplementedError

    def describe(self, case):
        return json.dumps(case, sort_keys=True)[:1500]

    def finish(self, ctx):
        """Optional whole-run assertions in the parent."""

    # ------------------------------------------------------------------
    def safe_execute(self, case):
        """execute() with harness trouble told apart from violations."""
        def late(*_):
            raise Violation('the case did not end within %d s' % self.case_seconds, key='does not end')
        old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, self.case_seconds)
        try:
            return self.execute(case)
        except (Violation, Skip):
            raise
        except (MemoryError, BlockingIOError, subprocess.TimeoutExpired) as e:
            raise Skip('resource: %r' % (e,))
        except Exception:
            raise Violation('the behaviour could not be interpreted:\n' +
                            traceback.format_exc()[-3000:], key='uninterpretable')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def _known(self):
        out = []
        p = os.path.join(VERIF, 'known_findings.jsonl')
        if os.path.exists(p):
            for line in open(p, encoding='utf-8'):
                line = line.strip()
                if not line.startswith('{'):
                    continue
                e = json.loads(line)
                if e.get('property') == self.id and e.get('status') == 'known':
                    out.append(e)
        return out

    def _regress(self):
        d = os.path.join(VERIF, 'regress', self.id)
        out = []
        if os.path.isdir(d):
            for n in sorted(os.listdir(d)):
                if n.endswith('.json'):
                    out.append(json.load(open(os.path.join(d, n), encoding='utf-8'))['case'])
        return out

    def _worker(self, wid, nw, n, seed, fixed, known_keys, stop_at, conn):
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        os.environ['VERIF_WORKER'] = str(wid)
        self.wid = wid
        self.tmp = os.path.join(scratch_root(), 'w%d' % wid)
        os.makedirs(self.tmp, exist_ok=True)
        st = dict(evals=0, skips=0, skip_reasons={}, hashes=set(), labels={}, samples=[],
                  fail=None, known={}, stopped=False)
        best = {}
        t_fail = [None]

        def one(case):
            """Returns None, or the violation."""
            try:
                labels, nontrivial = self.safe_execute(case)
            except Skip as e:
                st['skips'] += 1
                r = str(e)[:100]
                st['skip_reasons'][r] = st['skip_reasons'].get(r, 0) + 1
                return None
            except Violation as v:
                if v.key in known_keys:
                    st['known'][v.key] = st['known'].get(v.key, 0) + 1
                    return None
                return v
            finally:
                st['evals'] += 1
            for l in labels:
                st['labels'][l] = st['labels'].get(l, 0) + 1
            if nontrivial:
                h = case_hash(case)
                if h not in st['hashes']:
                    st['hashes'].add(h)
                    k = len(st['hashes'])
                    if k in (1, 7, 40):
                        st['samples'].append(self.describe(case))
            return None

        try:
            for i, case in enumerate(fixed):
                if i % nw != wid:
                    continue
                if time.time() > stop_at:
                    st['stopped'] = True
                    break
                v = one(case)
                if v:
                    st['fail'] = (case, str(v), v.key)
                    break
            strat = self.strategy() if n else None
            if strat is not None and not st['fail']:
                import hypothesis
                from hypothesis import given, settings, Phase, HealthCheck

                @hypothesis.seed(seed * 1000 + wid)
                @settings(database=None, max_examples=n, deadline=None,
                          phases=[Phase.generate, Phase.shrink],
                          suppress_health_check=list(HealthCheck),
                          report_multiple_bugs=False, print_blob=False)
                @given(strat)
                def t(case):
                    now = time.time()
                    if t_fail[0] is None and now > stop_at:
                        st['stopped'] = True
                        raise _Stop()
                    if t_fail[0] is not None and now > t_fail[0] + self.shrink_seconds:
                        raise _Stop()
                    v = one(case)
                    if v:
                        if t_fail[0] is None:
                            t_fail[0] = now
                        size = len(json.dumps(case))
                        if not best or size <= best['size']:
                            best.update(size=size, case=case, msg=str(v), key=v.key)
                        raise v
                try:
                    t()
                except _Stop:
                    pass
                except Violation:
                    pass
                except BaseException as e:
                    if not best:
                        st['error'] = traceback.format_exc()[-3000:]
                if best:
                    st['fail'] = (best['case'], best['msg'], best['key'])
        except BaseException:
            st['error'] = traceback.format_exc()[-3000:]
        conn.send(st)
        conn.close()

    def main(self, argv=None):
        argv = sys.argv[1:] if argv is None else argv
        t0 = time.time()
        tier = os.environ.get('VERIF_TIER', 'quick')
        if argv and argv[0] in ('quick', 'thorough'):
            tier, argv = argv[0], argv[1:]
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier, self.seed = tier, seed
        self.wid = 0
        try:
            scratch_root()
            self.tmp = os.path.join(scratch_root(), 'w0')
            os.makedirs(self.tmp, exist_ok=True)
            return self._main(argv, t0, tier, seed)
        finally:
            shutil.rmtree(scratch_root(), ignore_errors=True)

    def _main(self, argv, t0, tier, seed):
        try:
            self.prepare()
        except Exception:
            traceback.print_exc()
            print('ERROR: cannot build or prepare', file=sys.stderr)
            return 3
        if argv and argv[0] == '--replay':
            data = json.load(open(argv[1], encoding='utf-8'))
            try:
                self.safe_execute(data['case'])
            except Violation as v:
                print(v)
                print('VIOLATION property=%s replay=%s' % (self.id, argv[1]))
                return 1
            except Skip as e:
                print('skipped:', e)
                return 0
            print('holds')
            return 0
        if argv and argv[0].startswith('-n'):
            n = int(argv[0][2:])
        else:
            n = self.quick if tier == 'quick' else self.thorough
        known = self._known()
        known_keys = {e['key'] for e in known}
        fixed = list(self._regress()) + list(self.fixed())
        nw = self.workers
        stop_at = t0 + self.budget[tier]
        ctx = multiprocessing.get_context('fork')
        procs = []
        for w in range(nw):
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=self._worker,
                            args=(w, nw, n // nw, seed, fixed, known_keys, stop_at, b))
            p.start()
            b.close()
            procs.append((p, a))
        res = []
        errors = []
        for p, a in procs:
            try:
                st = a.recv()
                res.append(st)
                if st.get('error'):
                    errors.append(st['error'])
            except EOFError:
                errors.append('a worker died')
        for p, a in procs:
            p.join()
        fails = [r['fail'] for r in res if r['fail']]
        fails.sort(key=lambda f: len(json.dumps(f[0])))
        confirmed = None
        flaky = []
        for case, msg, key in fails:
            ok = True
            for _ in range(3):
                try:
                    self.safe_execute(case)
                    ok = False
                    break
                except Violation as v:
                    last = v
                except Skip:
                    ok = False
                    break
            if ok:
                confirmed = (case, str(last), last.key)
                break
            flaky.append(msg)
        hashes = set()
        labels = {}
        samples = []
        for r in res:
            hashes |= r['hashes']
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
            samples += r['samples']
        skip_reasons = {}
        for r in res:
            for k, v in r['skip_reasons'].items():
                skip_reasons[k] = skip_reasons.get(k, 0) + v
        evals = sum(r['evals'] for r in res)
        skips = sum(r['skips'] for r in res)
        for e in known:
            status = 'not reproduced on this tree'
            try:
                self.safe_execute(e['case'])
            except Violation as v:
                if v.key == e['key']:
                    status = None
            except Skip:
                pass
            if status is None:
                print('KNOWN-FINDING: property=%s %s' % (self.id, e['what']))
            else:
                print('note: known finding %s: %s' % (e['key'], status))
        coverage = dict(
            evaluations=evals, distinct_nontrivial=len(hashes), rule=self.rule,
            samples=samples[:self.max_size_samples] or ['(none)'],
            enumerated_cases=len(fixed), skipped=skips, skip_reasons=skip_reasons,
            classes=dict(sorted(labels.items(), key=lambda kv: -kv[1])[:60]),
            stopped_early=any(r['stopped'] for r in res),
            known_findings_excluded=sum(sum(r['known'].values()) for r in res),
            unreproducible_failures=len(flaky))
        ev = dict(property=self.id, tier=tier, seed=seed, level=self.level,
                  coverage=coverage, assumptions=self.assumptions,
                  wall_s=round(time.time() - t0, 2), violations=1 if confirmed else 0)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.id + '.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
            f.write('\n')
        print('%s %s seed=%d: %d cases (%d distinct non-trivial, %d skipped), %.1fs' % (
            self.id, tier, seed, evals, len(hashes), skips, time.time() - t0))
        if os.environ.get('VERIF_LABELS'):
            print(json.dumps(coverage['classes'], indent=1), skip_reasons)
        for m in flaky:
            print('note: not reproducible, not reported:', m[:2000])
        if confirmed:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s.json' % (self.id, case_hash(confirmed[0])))
            with open(path, 'w', encoding='utf-8') as f:
                json.dump(dict(property=self.id, message=confirmed[1], key=confirmed[2],
                               case=confirmed[0]), f, indent=1, ensure_ascii=False)
            print(confirmed[1])
            print('VIOLATION property=%s replay=%s' % (self.id, path))
            return 1
        if errors:
            print('\n'.join(errors), file=sys.stderr)
            return 3
        return 0


def run(check):
    sys.exit(check.main())
