"""Seeded search, event log, shrinking, replay files and evidence."""
import array
import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback
import warnings

from . import seams
from .seams import mix

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUSPECT_S = 25          # wall time after which a case is suspected to hang
LINE_BUDGET = 12_000_000  # executed library lines of one case: the verdict


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


class Suspect(BaseException):
    """Raised by SIGALRM: the case is re-run under the line budget."""


class Ctx:
    """What a property module sees of one simulated run."""

    def __init__(self, lib, case):
        self.lib, self.case = lib, case
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.h = hashlib.blake2b(digest_size=16)
        self.trace = [] if case.get('_trace') else None
        self.step = -1

    def log(self, *xs):
        s = repr(xs)
        self.h.update(s.encode())
        if self.trace is not None:
            self.trace.append(s)

    def state(self, x):
        self.states.add(mix(str(x)) & 0xFFFFFFFFFFFF)

    def fail(self, key, msg):
        raise Violation(key, 'step %d: %s' % (self.step, msg))

    def check(self, cond, key, msg):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)

    def eq(self, got, want, key, what=''):
        if not (got == want):
            self.fail(key, '%s: got %s, expected %s' % (
                what() if callable(what) else what or key,
                short(got), short(want)))

    def call(self, name, fn, *a, **k):
        """Calls the library where it must not raise."""
        self.stats['lib_calls'] += 1
        try:
            return fn(*a, **k)
        except (Violation, seams.Injected):
            raise
        except Exception as e:
            self.fail('raises:%s:%s' % (name, type(e).__name__),
                      '%s raised %s: %s [%s]' % (
                          name, type(e).__name__, e, where(e)))


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if f.filename.startswith(seams.REPO):
            return '%s:%s' % (os.path.basename(f.filename), f.name)
    return '?'


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


# ------------------------------------------------------------------ one run
class Result:
    __slots__ = ('key', 'msg', 'digest', 'ctx')


def start(lib, prop):
    if hasattr(prop, 'setup_worker'):
        prop.setup_worker(lib)
    if hasattr(prop, 'configure'):
        prop.configure(lib)


def cold_start(lib, prop):
    """Forgets everything the library remembers from earlier runs."""
    seams.load_package(lib)
    if hasattr(prop, 'configure'):
        prop.configure(lib)


def run_case(lib, prop, case, line_budget=0):
    if case.get('cold'):
        cold_start(lib, prop)
    seams.begin_case(lib, case['seed'], case.get('hash_mode', 'scramble'),
                     case.get('hash_seed', case['seed']))
    ctx = Ctx(lib, case)
    r = Result()
    r.ctx, r.key, r.msg = ctx, None, ''
    ctx.stats['cold_starts'] += bool(case.get('cold'))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if line_budget:
                with seams.LineTracer(budget=line_budget):
                    prop.run(ctx, case)
            else:
                prop.run(ctx, case)
    except Violation as v:
        r.key, r.msg = v.key, v.msg
    except seams.NoProgress as e:
        r.key, r.msg = 'no-progress', str(e)
    except RecursionError as e:
        r.key, r.msg = 'recursion', str(e)
    except MemoryError:
        raise
    except Exception as e:
        # an answer of the library that the run could not even process
        r.key = 'unusable:%s:%s' % (type(e).__name__, where(e))
        r.msg = '%s: %s\n%s' % (type(e).__name__, e,
                                traceback.format_exc()[-1500:])
    ctx.log('result', r.key)
    r.digest = ctx.h.hexdigest()
    return r


def _alarm(sig, frm):
    raise Suspect()


def guarded(lib, prop, case, suspect=None):
    """run_case with hang detection.  The wall clock only raises suspicion,
    the verdict is a deterministic count of executed library lines."""
    suspect = suspect or getattr(prop, 'SUSPECT_S', SUSPECT_S)
    budget = getattr(prop, 'LINE_BUDGET', LINE_BUDGET)
    old = signal.signal(signal.SIGALRM, _alarm)
    try:
        signal.setitimer(signal.ITIMER_REAL, suspect)
        try:
            return run_case(lib, prop, case)
        except Suspect:
            pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 240)
        try:
            return run_case(lib, prop, case, budget)
        except Suspect:
            r = Result()
            r.ctx, r.key, r.msg = Ctx(lib, case), None, ''
            r.digest = 'suspect'
            r.ctx.stats['undecided_slow_cases'] += 1
            return r
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    finally:
        signal.signal(signal.SIGALRM, old)


def make_case(prop, seed, i):
    s = mix(seed, prop.ID, i)
    rng = random.Random(s)
    case = prop.gen(rng, i)
    case['seed'] = s
    case.setdefault('hash_mode', rng.choice(seams.HASH_MODES))
    case.setdefault('hash_seed', rng.getrandbits(48))
    if rng.random() < getattr(prop, 'COLD', .05):
        case['cold'] = 1
    return json.loads(json.dumps(case))


# ------------------------------------------------------------------ shrinking
def size_of(case):
    return len(json.dumps(case))


def shrink(lib, prop, case, key, limit_s=60, limit_runs=3000):
    t0 = time.monotonic()
    runs = 0

    def bad(c):
        nonlocal runs
        runs += 1
        try:
            r = guarded(lib, prop, c, getattr(prop, 'SUSPECT_S', 10))
        except Exception:
            return False
        return r.key == key

    def out():
        return time.monotonic() - t0 > limit_s or runs > limit_runs

    best = case
    if not case.get('cold') and bad(dict(case, cold=1)):
        best = dict(case, cold=1)
    lists = getattr(prop, 'LISTS', ('ops',))
    changed = True
    while changed and not out():
        changed = False
        for name in lists:
            if not isinstance(best.get(name), list):
                continue
            n = len(best[name])
            chunk = max(1, n // 2)
            while chunk >= 1 and not out():
                i = 0
                while i < len(best[name]) and not out():
                    c = dict(best)
                    c[name] = best[name][:i] + best[name][i + chunk:]
                    if bad(c):
                        best, changed = c, True
                    else:
                        i += chunk
                chunk //= 2
        # simplify fields and operation arguments
        for c in candidates(prop, best, lists):
            if out():
                break
            if size_of(c) <= size_of(best) and c != best and bad(c):
                best, changed = c, True
                break
    return best, runs


def candidates(prop, case, lists):
    if hasattr(prop, 'simplify'):
        yield from prop.simplify(case)
    for m in ('asc', 'desc', 'scramble'):
        if case.get('hash_mode') != m and (
                case.get('hash_mode') in ('collide',)):
            yield dict(case, hash_mode=m)
    if case.get('hash_seed', 0) > 9:
        for s in range(3):
            yield dict(case, hash_seed=s)
    for name in lists:
        L = case.get(name)
        if not isinstance(L, list):
            continue
        for i, op in enumerate(L):
            if not isinstance(op, list):
                continue
            for j, a in enumerate(op):
                if isinstance(a, list) and a and j > 0:
                    for k in range(len(a)):
                        op2 = op[:j] + [a[:k] + a[k + 1:]] + op[j + 1:]
                        yield dict(case, **{name: L[:i] + [op2] + L[i + 1:]})
                elif isinstance(a, int) and not isinstance(a, bool) \
                        and a > 9 and j > 0:
                    op2 = op[:j] + [a % 7] + op[j + 1:]
                    yield dict(case, **{name: L[:i] + [op2] + L[i + 1:]})


# -------------------------------------------------------------------- batch
def _worker(lib, prop, seed, wid, nw, count, deadline, conn):
    try:
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, hard))
    except Exception:
        pass
    agg = dict(runs=0, stats=collections.Counter(),
               faults=collections.Counter(), fault_runs=0,
               probes=collections.Counter(), states=set(), digests=set(),
               nt=set(), sample=[], xor=0)
    out = ('ok', None)
    known = {k.get('key') for k in load_known()
             if k.get('property') == prop.ID}
    try:
        start(lib, prop)
        i = wid
        while i < count and time.monotonic() < deadline:
            case = make_case(prop, seed, i)
            r = guarded(lib, prop, case)
            agg['runs'] += 1
            agg['stats'].update(r.ctx.stats)
            agg['faults'].update(r.ctx.faults)
            agg['fault_runs'] += bool(r.ctx.faults)
            agg['probes'].update({k: 1 for k, v in r.ctx.probes.items() if v})
            if len(agg['states']) < 400000:
                agg['states'] |= r.ctx.states
            d = r.digest
            if d != 'suspect' and len(agg['digests']) < 2000000:
                d64 = int(d[:16], 16)
                agg['digests'].add(d64)
                if r.key is None and d64 not in agg['nt'] and prop.nontrivial(r.ctx):
                    agg['nt'].add(d64)
                    if len(agg['sample']) < 1 and wid == 0:
                        agg['sample'].append(
                            dict(index=i, digest=d, case=case))
            agg['xor'] ^= int(d, 16) if d != 'suspect' else 0
            if r.key is not None and r.key in known:
                agg['stats']['known_finding_runs'] += 1
            elif r.key is not None:
                out = ('violation', (i, case, r.key, r.msg, r.digest))
                break
            i += nw
    except BaseException:
        out = ('error', traceback.format_exc())
    if hasattr(prop, 'teardown_worker'):
        try:
            prop.teardown_worker()
        except Exception:
            pass
    try:
        for k in ('digests', 'nt', 'states'):
            agg[k] = array.array('Q', sorted(agg[k])).tobytes()
        conn.send((out, agg))
        conn.close()
    except BaseException:
        traceback.print_exc()
    sys.stdout.flush()
    os._exit(0)


def batch(lib, prop, seed, count, cap_s, nw=None):
    nw = nw or int(os.environ.get('VERIF_WORKERS', 0)) or \
        max(1, min(8, os.cpu_count() or 1))
    ctxm = mp.get_context('fork')
    deadline = time.monotonic() + cap_s
    procs = []
    for w in range(nw):
        a, b = ctxm.Pipe(duplex=False)
        p = ctxm.Process(target=_worker, args=(
            lib, prop, seed, w, nw, count, deadline, b))
        p.start()
        b.close()
        procs.append((p, a))
    tot = dict(runs=0, stats=collections.Counter(),
               faults=collections.Counter(), fault_runs=0,
               probes=collections.Counter(), states=set(), digests=set(),
               nt=set(), sample=[], xor=0, workers=nw)
    violations, errors = [], []
    pending = dict((a, p) for p, a in procs)
    first = None
    while pending:
        from multiprocessing.connection import wait
        ready = wait(list(pending), timeout=5)
        now = time.monotonic()
        for a in ready:
            p = pending.pop(a)
            try:
                out, agg = a.recv()
            except EOFError:
                errors.append('worker died without a result')
                p.join()
                continue
            p.join()
            for k in ('runs', 'fault_runs'):
                tot[k] += agg[k]
            for k in ('digests', 'nt', 'states'):
                q = array.array('Q')
                q.frombytes(agg[k])
                tot[k].update(q)
            for k in ('stats', 'faults', 'probes'):
                tot[k].update(agg[k])
            tot['sample'] += agg['sample']
            tot['xor'] ^= agg['xor']
            if out[0] == 'violation':
                violations.append(out[1])
                first = first or now
            elif out[0] == 'error':
                errors.append(out[1])
        if (first and now - first > 3) or \
                now > deadline + SUSPECT_S + 260:
            for a, p in list(pending.items()):
                p.kill()
                p.join()
                pending.pop(a)
                if not first:
                    errors.append('worker had to be killed')
    violations.sort(key=lambda v: v[0])
    return tot, violations, errors


# ---------------------------------------------------------------- reporting
def write_replay(prop, case, key, msg, digest, extra):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (
        prop.ID, hashlib.sha1(json.dumps(case).encode()).hexdigest()[:10]))
    with seams._real_open(path, 'w') as f:
        json.dump(dict(property=prop.ID, key=key, message=msg,
                       digest=digest, case=case, **extra), f, indent=1)
    return path


def load_known():
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    known = []
    if os.path.exists(path):
        for line in seams._real_open(path):
            if line.startswith('finding: '):
                parts = dict(p.split('=', 1) for p in line[9:].split(' ', 2)
                             if '=' in p)
                known.append(parts)
    return known


def replay(lib, prop, path, verbose=True):
    with seams._real_open(path) as f:
        rec = json.load(f)
    case = dict(rec['case'])
    if verbose:
        case['_trace'] = True
    start(lib, prop)
    try:
        for c in rec.get('earlier_runs', ()):
            guarded(lib, prop, c)
        r = guarded(lib, prop, case)
    finally:
        if hasattr(prop, 'teardown_worker'):
            prop.teardown_worker()
    if verbose and r.ctx.trace:
        for s in r.ctx.trace[-40:]:
            print('  ', s)
    same = (r.key == rec['key'] and r.digest == rec['digest'])
    return rec, r, same


def determinism_sample(lib, prop, seed, n):
    """Re-run cases in this process and in a fresh interpreter with another
    PYTHONHASHSEED; count differing event logs."""
    start(lib, prop)
    ds = []
    for i in range(n):
        a = guarded(lib, prop, make_case(prop, seed, i))
        ds.append((a.key, a.digest))
    if hasattr(prop, 'teardown_worker'):
        prop.teardown_worker()
    return ds


def main(prop, argv):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    lib = seams.load(plotting=True)
    if '--replay' in argv:
        rec, r, same = replay(lib, prop, argv[argv.index('--replay') + 1])
        print('recorded: %s' % rec['message'])
        print('replayed: %s %s' % (r.key, r.msg))
        print('identical event log: %s' % same)
        print('digest: %s' % r.digest)
        if r.key is not None:
            print('VIOLATION property=%s replay=%s' % (
                prop.ID, argv[argv.index('--replay') + 1]))
            return 1
        return 0
    if '--digests' in argv:
        n = int(argv[argv.index('--digests') + 1])
        for k, d in determinism_sample(lib, prop, seed, n):
            print(k, d)
        return 0
    count = prop.COUNT[tier]
    cap = prop.CAP[tier]
    if '--count' in argv:
        count = int(argv[argv.index('--count') + 1])
    print('check %s tier=%s seed=%d repo=%s cases<=%d cap=%ds' % (
        prop.ID, tier, seed, seams.REPO, count, cap))
    sys.stdout.flush()
    tot, violations, errors = batch(lib, prop, seed, count, cap)
    wall = time.monotonic() - t0
    known = [k for k in load_known() if k.get('property') == prop.ID]
    real = []
    for v in violations:
        if any(k.get('key') == v[2] for k in known):
            continue
        real.append(v)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop.ID, k.get('what', '')))
    rc = 0
    rate = tot['runs'] / max(wall, 1e-6) * 3600
    cov = dict(
        evaluations=tot['runs'],
        distinct_nontrivial=len(tot['nt']),
        rule=prop.RULE,
        samples=[trim(s) for s in tot['sample'][:1]],
        requested_runs=count,
        workers=tot['workers'],
        runs_per_hour=round(rate),
        seeds_per_hour=round(rate),
        simulated_time=prop.SIMTIME + ': %d steps' % tot['stats']['steps'],
        operations={k: v for k, v in sorted(tot['stats'].items())},
        faults_injected={k: v for k, v in sorted(tot['faults'].items())},
        runs_with_faults=tot['fault_runs'],
        distinct_event_logs=len(tot['digests']),
        distinct_states=len(tot['states']),
        state_measure=prop.STATE_MEASURE,
        probes_hit_in_runs={k: v for k, v in sorted(tot['probes'].items())},
        probes_never_hit=sorted(set(getattr(prop, 'PROBES', ())) -
                                set(tot['probes'])),
        event_log_xor='%032x' % tot['xor'],
        real_components=prop.REAL, stub_components=prop.STUB)
    if errors and not real:
        for e in errors[:2]:
            print('HARNESS ERROR:\n%s' % e)
        rc = 2
    if not errors and not real and tot['runs'] < min(count, prop.MIN_RUNS):
        print('HARNESS ERROR: only %d runs finished' % tot['runs'])
        rc = 2
    if real:
        i, case, key, msg, dig = real[0]
        print('run %d violates %s: [%s] %s' % (i, prop.ID, key, msg))
        sys.stdout.flush()
        start(lib, prop)
        small, nruns = shrink(lib, prop, case, key,
                              getattr(prop, 'SHRINK_S', 60))
        try:
            r = guarded(lib, prop, small)
        except Exception:
            r = None
        if hasattr(prop, 'teardown_worker'):
            prop.teardown_worker()
        if r is None or r.key != key:
            small = case
            k2, m2, d2 = key, msg, dig
        else:
            k2, m2, d2 = r.key, r.msg, r.digest
        extra = dict(seed=seed, index=i, shrink_runs=nruns,
                     original_ops=len(case.get('ops', [])),
                     minimised_ops=len(small.get('ops', [])))
        path = write_replay(prop, small, k2, m2, d2, extra)
        ok = fresh_replay(prop, path)
        if not ok and small is not case:
            path = write_replay(prop, case, key, msg, dig, extra)
            ok = fresh_replay(prop, path)
        if not ok:
            # the library carries state from earlier runs of the worker
            found = with_earlier_runs(prop, seed, i, tot['workers'],
                                      (small, case), path, extra)
            if found:
                small, k2, m2, path, ok = found
        print('minimised: [%s] %s' % (k2, m2))
        print('minimised case: %s' % short(small, 1500))
        print('replay in a fresh process reproduces it exactly: %s' % ok)
        cov['violation'] = dict(key=k2, message=m2[:500], replay=path,
                                reproduced=ok)
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        rc = 1
    ev = dict(property=prop.ID, tier=tier, seed=seed, level='exploration',
              coverage=cov, assumptions=prop.ASSUMPTIONS,
              wall_s=round(time.monotonic() - t0, 2), violations=len(real))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with seams._real_open(os.path.join(
            VERIF, 'evidence', prop.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d runs (%d distinct non-trivial, %d states, %d/hour), '
          'faults %s, wall %.1fs -> exit %d' % (
              prop.ID, tot['runs'], len(tot['nt']), len(tot['states']),
              rate, dict(tot['faults']), time.monotonic() - t0, rc))
    return rc


def with_earlier_runs(prop, seed, i, nw, cases, path, extra, limit_s=150):
    """The failure needs state that earlier simulated runs left in the
    library: finds a short list of runs that, before this one and in a fresh
    process, reproduces it."""
    t0 = time.monotonic()
    before = [make_case(prop, seed, j) for j in range(i % nw, i, nw)]
    tmp = path + '.tmp'

    def test(case, pre):
        rec = dict(property=prop.ID, key='?', message='', digest='?',
                   case=case, earlier_runs=pre)
        with seams._real_open(tmp, 'w') as f:
            json.dump(rec, f)
        p = run_replay(prop, tmp)
        out = p.stdout if p else ''
        if not p or p.returncode != 1 or 'digest: ' not in out:
            return None
        d = out.split('digest: ')[1].split()[0]
        line = [x for x in out.split('\n') if x.startswith('replayed: ')][0]
        k, _, m = line[10:].partition(' ')
        return k, m, d

    def left():
        return limit_s - (time.monotonic() - t0)

    best = None
    n = 1
    while best is None and left() > 0:
        pre = before[-n:]
        for case in cases:
            r = test(case, pre)
            if r:
                best = (case, pre, r)
                break
        if n >= len(before):
            break
        n *= 4
    if best:
        case, pre, r = best
        chunk = max(1, len(pre) // 2)
        while chunk and left() > 0:
            j = 0
            while j < len(pre) and left() > 0:
                cut = pre[:j] + pre[j + chunk:]
                q = test(case, cut)
                if q and q[0] == r[0]:
                    pre, r = cut, q
                else:
                    j += chunk
            chunk //= 2
        for name in getattr(prop, 'LISTS', ('ops',)):
            for which in list(range(len(pre))) + [None]:
                c = case if which is None else pre[which]
                if not isinstance(c.get(name), list):
                    continue
                chunk = max(1, len(c[name]) // 2)
                while chunk and left() > 0:
                    j = 0
                    while j < len(c[name]) and left() > 0:
                        c2 = dict(c)
                        c2[name] = c[name][:j] + c[name][j + chunk:]
                        if which is None:
                            q = test(c2, pre)
                        else:
                            q = test(case, pre[:which] + [c2] +
                                     pre[which + 1:])
                        if q and q[0] == r[0]:
                            c, r = c2, q
                            if which is None:
                                case = c2
                            else:
                                pre[which] = c2
                        else:
                            j += chunk
                    chunk //= 2
        best = (case, pre, r)
    try:
        os.remove(tmp)
    except OSError:
        pass
    if not best:
        return None
    case, pre, (k, m, d) = best
    path = write_replay(prop, case, k, m, d, dict(extra, earlier_runs=pre))
    return case, k, m, path, fresh_replay(prop, path)


def trim(x, n=4000):
    s = json.dumps(x)
    return x if len(s) <= n else dict(truncated=s[:n])


def run_replay(prop, path):
    try:
        return subprocess.run(
            [sys.executable, os.path.join(VERIF, 'check.py'), prop.ID,
             '--replay', path], capture_output=True, text=True, timeout=300,
            env=dict(os.environ, PYTHONHASHSEED='7'))
    except Exception:
        return None


def fresh_replay(prop, path):
    p = run_replay(prop, path)
    return p is not None and p.returncode == 1 and \
        'identical event log: True' in p.stdout
