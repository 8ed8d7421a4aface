"""Driver for the generated-input checks: runs Hypothesis over plain-JSON
cases in worker processes, collects evidence, shrinks and saves replays."""

import hashlib
import json
import os
import signal
import sys
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
SHRINK_SECONDS = 40
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    """Something is wrong with the check or its environment."""


class Rec:
    """What a case tells the driver about itself."""
    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self.known = []

    def label(self, *names):
        for n in names:
            self.labels.add(str(n))

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


class Sub:
    """One subcheck: a strategy of plain-JSON cases and the function that
    decides the property on one case."""
    def __init__(self, name, strategy, run, quick, thorough=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else 12 * quick


class Prop:
    def __init__(self, pid, rule, subs, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.subs = subs
        self.assumptions = list(assumptions)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def derive_seed(*parts):
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def run_case(sub, case):
    """Run one plain-JSON case; returns its Rec, raises on a violation."""
    import numpy as np
    rec = Rec()
    np.random.seed(12345)
    signal.signal(signal.SIGALRM, _expired)
    signal.setitimer(signal.ITIMER_REAL, _patience[0])
    try:
        with np.errstate(all='ignore'):
            sub.run(case, rec)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return rec


# Cases take milliseconds; one that takes minutes is stuck.
_patience = [150.]


def _expired(signum, frame):
    limit = _patience[0]
    # (Shrinking should not wait as long.)
    _patience[0] = 10.
    raise Violation('no result within {} seconds'.format(limit))


class Tally:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.known = set()

    def add(self, case, rec):
        self.evaluations += 1
        for l in rec.labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        for k in rec.known:
            self.known.add(k)
        if rec.nontrivial:
            h = case_hash(case)[:16]
            if h not in self.hashes:
                self.hashes.add(h)
                # Keep a spread of samples: powers of two.
                n = len(self.hashes)
                if n & (n - 1) == 0 and n >= 4 and len(self.samples) < 6:
                    self.samples.append(case)


def run_sub(sub, n, seed):
    """Run n generated cases of a subcheck. Returns (tally, failure)."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    from hypothesis.internal.conjecture import engine
    from hypothesis.errors import Flaky, Unsatisfiable
    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    try:
        engine.MAX_SHRINKS = 400
    except Exception:
        pass

    tally = Tally()
    fail = {'first': None, 'last': None}

    def body(case):
        case = json.loads(json.dumps(case))
        try:
            rec = run_case(sub, case)
        except (MemoryError, KeyboardInterrupt, HarnessError):
            raise
        except hypothesis.errors.HypothesisException:
            raise
        except BaseException as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            rep = {'case': case,
                   'error': '{}: {}'.format(type(e).__name__, e),
                   'traceback': traceback.format_exc()}
            if fail['first'] is None:
                fail['first'] = rep
            fail['last'] = rep
            raise
        if fail['first'] is None:
            tally.add(case, rec)

    test = given(sub.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None,
                    derandomize=False, report_multiple_bugs=False,
                    print_blob=False,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck))(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except (MemoryError, KeyboardInterrupt, HarnessError):
        raise
    except Unsatisfiable as e:
        if fail['first'] is None:
            raise HarnessError('unsatisfiable: {}'.format(e))
    except BaseException as e:
        if fail['first'] is None:
            raise HarnessError(
                'error outside of a case: ' + traceback.format_exc())
    if fail['first'] is not None:
        # Hypothesis runs the minimal case last.
        rep = fail['last']
        # A flaky failure is reported with the case that first failed.
        try:
            run_case(sub, rep['case'])
            rep = fail['first']
            rep['flaky'] = True
        except BaseException:
            pass
        return tally, rep
    return tally, None


def _worker(args):
    prop, tier, vseed, w, nworkers, outq, only = args
    res = {'w': w, 'failures': [], 'subs': {}, 'error': None}
    try:
        # Rotate the order so that workers do not all do the slow one last.
        for sub in prop.subs:
            if only and sub.name not in only:
                continue
            total = sub.quick if tier == 'quick' else sub.thorough
            n = max(1, -(-total // nworkers))
            seed = derive_seed(vseed, prop.pid, sub.name, w)
            t0 = time.time()
            tally, failure = run_sub(sub, n, seed)
            res['subs'][sub.name] = {
                'evaluations': tally.evaluations,
                'hashes': list(tally.hashes),
                'labels': tally.labels,
                'samples': tally.samples[:4],
                'known': sorted(tally.known),
                'seconds': time.time() - t0}
            if failure is not None:
                failure['subcheck'] = sub.name
                failure['hyp_seed'] = seed
                res['failures'].append(failure)
                break
    except BaseException:
        res['error'] = traceback.format_exc()
    outq.put(res)


def _shorten(obj, limit=1500):
    s = json.dumps(obj)
    return obj if len(s) <= limit else s[:limit] + '...'


def write_replay(pid, vseed, tier, failure):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': pid, 'subcheck': failure['subcheck'],
            'seed': vseed, 'tier': tier, 'case': failure['case'],
            'error': failure['error'], 'traceback': failure['traceback'],
            'flaky': failure.get('flaky', False)}
    name = '{}-{}-{}.json'.format(
        pid, failure['subcheck'], case_hash(failure['case'])[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
    return path


def replay(prop, path):
    with open(path) as f:
        body = json.load(f)
    subs = {s.name: s for s in prop.subs}
    if body['subcheck'] not in subs:
        print('unknown subcheck {}'.format(body['subcheck']))
        return 2
    try:
        run_case(subs[body['subcheck']], body['case'])
    except (MemoryError, KeyboardInterrupt, HarnessError):
        raise
    except BaseException as e:
        traceback.print_exc()
        print('VIOLATION property={} replay={}'.format(
            body['property'], path))
        return 1
    print('replay passes: {}'.format(path))
    return 0


def run_prop(prop, tier, vseed, only=None):
    t0 = time.time()
    nworkers = WORKERS
    ctx = mp.get_context('fork')
    outq = ctx.Queue()
    procs = []
    for w in range(nworkers):
        p = ctx.Process(target=_worker,
                        args=((prop, tier, vseed, w, nworkers, outq, only),))
        p.daemon = True
        p.start()
        procs.append(p)
    results = []
    limit = 850 if tier == 'quick' else 6 * 3600
    import queue as _q
    while len(results) < nworkers:
        try:
            results.append(outq.get(timeout=2))
        except _q.Empty:
            if time.time() - t0 > limit:
                for p in procs:
                    p.terminate()
                print('check {}: out of time'.format(prop.pid))
                return 2
            dead = [p for p in procs if p.exitcode not in (None, 0)]
            if dead:
                # Give the queue a moment, then report the crash.
                time.sleep(1)
                try:
                    while True:
                        results.append(outq.get(timeout=1))
                except _q.Empty:
                    pass
                if len(results) < nworkers and \
                        any(p.exitcode not in (None, 0) for p in procs):
                    for p in procs:
                        p.terminate()
                    print('check {}: a worker died (exit codes {})'.format(
                        prop.pid, [p.exitcode for p in procs]))
                    return 2
    for p in procs:
        p.join(10)

    errors = [r['error'] for r in results if r['error']]
    failures = []
    for r in sorted(results, key=lambda r: r['w']):
        failures += r['failures']

    coverage = {'evaluations': 0, 'distinct_nontrivial': 0,
                'rule': prop.rule, 'samples': [], 'subchecks': {}}
    known = set()
    for sub in prop.subs:
        rs = [r['subs'][sub.name] for r in sorted(results, key=lambda r: r['w'])
              if sub.name in r['subs']]
        hashes = set()
        labels = {}
        ev = 0
        samples = []
        for r in rs:
            ev += r['evaluations']
            hashes.update(r['hashes'])
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
            known.update(r['known'])
            samples += r['samples']
        coverage['evaluations'] += ev
        coverage['distinct_nontrivial'] += len(hashes)
        coverage['subchecks'][sub.name] = {
            'evaluations': ev, 'distinct_nontrivial': len(hashes),
            'labels': dict(sorted(labels.items())),
            'max_worker_seconds':
                round(max([r['seconds'] for r in rs] + [0]), 2)}
        samples.sort(key=lambda c: len(json.dumps(c)))
        pick = samples[len(samples) // 3::max(1, len(samples) // 3)][:2]
        coverage['samples'] += [
            {'subcheck': sub.name, 'case': _shorten(c)} for c in pick]

    evidence = {
        'property': prop.pid, 'tier': tier, 'seed': vseed,
        'level': 'exploration', 'coverage': coverage,
        'assumptions': prop.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop.pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    for k in sorted(known):
        print('KNOWN-FINDING: property={} {}'.format(prop.pid, k))

    print('{} {} seed={}: {} cases, {} distinct non-trivial, {:.1f}s'.format(
        prop.pid, tier, vseed, coverage['evaluations'],
        coverage['distinct_nontrivial'], time.time() - t0))
    if failures:
        seen = set()
        for f in sorted(failures,
                        key=lambda f: (f.get('flaky', False),
                                       len(json.dumps(f['case'])))):
            if f['subcheck'] in seen:
                continue
            seen.add(f['subcheck'])
            path = write_replay(prop.pid, vseed, tier, f)
            print('  {}: {}'.format(f['subcheck'], f['error'][:600]))
            print('VIOLATION property={} replay={}'.format(prop.pid, path))
        return 1
    if errors:
        print('check {}: harness error\n{}'.format(prop.pid, errors[0]))
        return 2
    return 0
