import math
from fractions import Fraction

from .. import seams
from ..seams import mix
from .common import HIST_ASSUME
ID = 'C17'
COUNT = {'quick': 250000, 'thorough': 1000000}
CAP = {'quick': 40, 'thorough': 900}
MIN_RUNS = 500
RULE = ('One run = one seeded history of calls of the numerical helpers by '
        'clients that change the vectors they received and numpy\'s error '
        'state between the calls: harmonic numbers against exact fractions, '
        'Newton\'s method with callbacks that fail, return NaN, infinity or '
        'a zero slope at a seeded call, and interrupts at seeded bytecode '
        'instructions. The number of callback calls is bounded, the result '
        'is compared with an independent iteration, failures pass through '
        'unchanged, and numpy\'s error state survives everything. '
        'Non-trivial: at least three answers judged; distinct by event-log '
        'digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = 'distinct (operation, size class, outcome, fault) seen'
REAL = ['calculations.py', 'numpy error state']
STUB = ['callbacks of Newton\'s method (seeded, failing)',
        'sys.settrace (an exception at a seeded bytecode instruction)']
ASSUMPTIONS = HIST_ASSUME[:1] + [
    'Harmonic numbers with approximate >= 1; the expansion may be off by '
    '1/(100 k^6) + 1e-9.',
    'Newton results are compared where the convergence test is not a matter '
    'of rounding.']
PROBES = ('approximated', 'exact', 'boundary', 'large', 'converged',
          'default', 'clamped', 'callback_failed', 'callback_garbage',
          'zero_slope', 'interrupted', 'iteration_limit', 'error_state',
          'caller_changed')
ERR = ({}, {'all': 'raise'}, {'all': 'ignore'}, {'over': 'raise'},
       {'divide': 'raise', 'invalid': 'raise'}, {'all': 'print'})
GAMMA = 0.57721566490153286061


def gen(rng, i):
    w = {'num': 4, 'nums': 4, 'frac': 2, 'fracs': 2, 'newton': 8, 'err': 2,
         'mutate': 2}
    w = {k: v for k, v in w.items() if rng.random() < .85}
    w.setdefault('newton', 1)
    w.setdefault('nums', 1)
    big = rng.random() < .06
    ops = []
    for _ in range(rng.randrange(3, 16)):
        k = rng.choices(list(w), list(w.values()))[0]
        op = {'op': k, 'int': int(2 ** rng.uniform(0, 9)) if
              rng.random() < .12 else 0}
        a = rng.choice((100, 100, 100, 1, 2, 7, 10, 64, 300))
        n = rng.choice((0, 1, 2, 5, 12, a - 1, a, a + 1, 2 * a,
                        rng.randrange(400)))
        if k == 'num':
            if rng.random() < .3:
                n = rng.choice((10 ** rng.randrange(3, 40),
                                2 ** rng.randrange(8, 64),
                                rng.randrange(1, 200000)))
            op.update(n=max(n, 0), a=a)
        elif k == 'nums':
            if big:
                n = rng.choice((65535, 65536, 70000, 55109, 131072, 200000))
                a = 100
            op.update(n=max(n, 0), a=a)
        elif k in ('frac', 'fracs'):
            op.update(n=rng.choice((0, 1, 2, 3, rng.randrange(60),
                                    rng.randrange(150))))
        elif k == 'err':
            op.update(e=rng.randrange(len(ERR)))
        elif k == 'mutate':
            op.update(k=rng.randrange(20), v=rng.uniform(-5, 5))
        else:
            op.update(f=rng.choice(('lin', 'exp', 'cube', 'sq', 'none',
                                    'atan', 'flat', 'log')),
                      c=[rng.uniform(.2, 3), rng.uniform(-2, 2)],
                      x0=rng.choice((0.0, rng.uniform(-3, 3),
                                     rng.uniform(-50, 50))),
                      y=rng.choice((0.0, rng.uniform(-2, 2))),
                      lo=rng.choice((None, None, rng.uniform(-4, 1))),
                      hi=rng.choice((None, None, rng.uniform(1.5, 5))),
                      default=rng.choice((0.0, -77.0, 123.0)),
                      prec=rng.choice((1e-6, 1e-3, 1e-9, .1)),
                      m=rng.choice((50, 50, 1, 2, 3, 5, 8, 0, 200)),
                      fault=rng.choice((None, None, None, 'raise', 'nan',
                                        'inf', 'zero')),
                      which=rng.randrange(2),
                      at=rng.choice((1, 1, 2, 3, 5)))
            if rng.random() < .4:
                for q in ('y', 'lo', 'hi', 'default', 'prec', 'm'):
                    del op[q]
        ops.append(op)
    return {'ops': ops}


class Oops(Exception):
    pass


def functions(kind, a, b):
    f, p = raw(kind, a, b)

    def clip(x):
        return x if x != x else max(-1e60, min(x, 1e60))
    return lambda x: f(clip(x)), lambda x: p(clip(x))


def raw(kind, a, b):
    if kind == 'lin':
        return lambda x: a * x + b, lambda x: a
    if kind == 'exp':
        return (lambda x: math.exp(min(a * x, 600.0)) + b - 3,
                lambda x: a * math.exp(min(a * x, 600.0)))
    if kind == 'cube':
        return lambda x: x ** 3 + a * x + b, lambda x: 3 * x * x + a
    if kind == 'sq':
        return lambda x: x * x - a, lambda x: 2 * x
    if kind == 'none':
        return lambda x: x * x + a + 3, lambda x: 2 * x
    if kind == 'atan':
        return (lambda x: math.atan(a * x) + b / 10,
                lambda x: a / (1 + (a * x) ** 2))
    if kind == 'flat':
        return lambda x: b, lambda x: 0.0
    return (lambda x: x + math.log(abs(x) + a) + b,
            lambda x: 1 + math.copysign(1, x) / (abs(x) + a))


def harmonic(k):
    """independent: Euler-Maclaurin from 40 exact terms on"""
    if k <= 40:
        return math.fsum(1 / j for j in range(1, k + 1))
    k = float(k)
    return math.log(k) + GAMMA + .5 / k - 1 / (12 * k * k) + \
        1 / 120 / k / k / k / k - 1 / 252 / k ** 3 / k ** 3


def run(ctx, case):
    import importlib
    np = ctx.lib.np
    calc = importlib.import_module('causets.calculations')
    old = np.geterr()
    try:
        body(ctx, case, np, calc)
    finally:
        np.seterr(**old)


def body(ctx, case, np, calc):
    ctx.judged = 0
    held = []
    state = np.geterr()
    for i, op in enumerate(case['ops']):
        ctx.step = i
        ctx.stats['steps'] += 1
        k = op['op']
        ctx.stats['op:' + k] += 1
        if k == 'err':
            if ERR[op['e']]:
                np.seterr(**ERR[op['e']])
            state = np.geterr()
            ctx.log('err', op['e'])
            continue
        if k == 'mutate':
            if held:
                h = held[op['k'] % len(held)]
                if len(h):
                    h[op['k'] % len(h)] = op['v']
                    ctx.probes['caller_changed'] += 1
            ctx.log('mutate')
            continue
        tr = seams.LineTracer(op['int'], opcodes=True) if op['int'] else None
        cb = {}
        try:
            if tr:
                with tr:
                    got = perform(np, calc, op, cb)
            else:
                got = perform(np, calc, op, cb)
        except seams.InjectedInterrupt:
            ctx.faults['interrupt'] += 1
            ctx.probes['interrupted'] += 1
            ctx.state((k, 'interrupt'))
            got = None
        except Oops as e:
            ctx.check(e is cb.get('exc'), 'newton:failure', 'the failure of '
                      'the callback was replaced')
            ctx.faults['callback_failed'] += 1
            ctx.probes['callback_failed'] += 1
            ctx.state((k, op['f'], 'raise'))
            got = None
        except Exception as e:
            if tr and tr.fired:
                got = None
            else:
                from ..engine import where
                ctx.fail('raises:%s:%s' % (k, type(e).__name__),
                         '%s raised %r [%s]' % (show(op), e, where(e)))
        else:
            judge(ctx, np, op, got, cb)
            ctx.judged += 1
            if k in ('nums', 'fracs'):
                held.append(got)
        if k == 'newton':
            m = op.get('m', 50)
            for q in ('f', 'p'):
                ctx.check(cb.get(q, 0) <= m, 'newton:calls', lambda: (
                    '%s called a callback %d times, at most %d iterations' % (
                        show(op), cb[q], m)))
        if np.geterr() != state and tr and tr.fired and \
                not wide(np, calc, op, state):
            # between changing the state and entering the protected block (or
            # leaving it and restoring): no code can close this window
            ctx.probes['window'] += 1
            np.seterr(**state)
        if np.geterr() != state:
            ctx.fail('error-state', '%s changed the numpy error state from '
                     '%s to %s' % (show(op), state, np.geterr()))
        ctx.probes['error_state'] += state != ctx.lib.__dict__.setdefault(
            'np_err0', state)
        ctx.log(k, got if k in ('num', 'newton', 'frac') else None)


def wide(np, calc, op, state):
    """True if interrupts at more than a dozen neighbouring instructions leave
    the error state changed."""
    now = np.geterr()
    leaks = []
    for d in range(-12, 13):
        leak = False
        if op['int'] + d > 0:
            np.seterr(**state)
            tr = seams.LineTracer(op['int'] + d, opcodes=True)
            try:
                with tr:
                    perform(np, calc, op, {})
            except BaseException as e:
                if not isinstance(e, (seams.InjectedInterrupt, Exception)):
                    raise
            leak = bool(tr.fired) and np.geterr() != state
        leaks.append(leak)
    np.seterr(**now)
    lo = hi = 12
    while lo > 0 and leaks[lo - 1]:
        lo -= 1
    while hi < 24 and leaks[hi + 1]:
        hi += 1
    return hi - lo + 1 > 12


def show(op):
    return '%s(%s)' % (op['op'], ', '.join('%s=%r' % q for q in
                                           sorted(op.items()) if q[1] and
                                           q[0] != 'op'))


def perform(np, calc, op, cb):
    k = op['op']
    if k == 'num':
        return calc.HarmonicNumber(op['n'], op['a'])
    if k == 'nums':
        return calc.HarmonicNumbers(op['n'], op['a'])
    if k == 'frac':
        return calc.HarmonicNumberFraction(op['n'])
    if k == 'fracs':
        return calc.HarmonicNumberFractions(op['n'])
    f, p = functions(op['f'], *op['c'])
    cb.update(f=0, p=0, fired=False)

    def wrap(fn, name, faulty):
        def g(x):
            cb[name] += 1
            if faulty and op['fault'] and cb[name] == op['at']:
                cb['fired'] = True
                if op['fault'] == 'raise':
                    cb['exc'] = Oops('injected')
                    raise cb['exc']
                if op['fault'] != 'zero':
                    return math.nan if op['fault'] == 'nan' else math.inf
                return 0.0
            return fn(x)
        return g
    kw = {a: op[b] for a, b in (
        ('y', 'y'), ('xmin', 'lo'), ('xmax', 'hi'), ('default', 'default'),
        ('precission', 'prec'), ('maxIterations', 'm'))
        if op.get(b) is not None}
    return calc.NewtonsMethod(wrap(f, 'f', not op['which']),
                              wrap(p, 'p', op['which']), op['x0'], **kw)


def judge(ctx, np, op, got, cb):
    k = op['op']
    if k == 'newton':
        return newton(ctx, op, got, cb)
    n = op['n']
    if k in ('frac', 'fracs'):
        want = [Fraction(0)]
        for j in range(1, n + 1):
            want.append(want[-1] + Fraction(1, j))
        if k == 'frac':
            want = want[-1]
        ctx.eq(got if k == 'frac' else list(got), want, k, lambda: show(op))
        ctx.probes['exact'] += 1
        ctx.state((k, min(n, 9)))
        return
    a = op['a']
    ctx.probes['approximated'] += n >= a
    ctx.probes['boundary'] += n == a
    ctx.probes['large'] += n >= 65536
    ctx.state((k, a, n.bit_length(), n >= a))
    vals = {n: got}
    if k == 'nums':
        ctx.eq(np.shape(got), (n + 1,), 'nums:shape', lambda: show(op))
        js = range(n + 1) if n < 700 else list(range(600)) + [
            n - j for j in range(20)] + [2 ** j for j in range(
                10, n.bit_length() - 1)] + [n * j // 41 for j in range(41)]
        vals = {j: got[j] for j in js}
    for j, v in vals.items():
        w = harmonic(j)
        tol = 1e-9
        if a <= j < 40:
            tol += 1 / (100.0 * j ** 6)
        if not abs(float(v) - w) <= tol:
            ctx.fail(k, '%s: number %d is %r, expected %r' % (
                show(op), j, v, w))


def newton(ctx, op, got, cb):
    if cb['fired'] and op['fault'] != 'raise':
        ctx.faults['callback_' + op['fault']] += 1
    f, p = functions(op['f'], *op['c'])
    y = op.get('y') or 0.0
    lo, hi = op.get('lo'), op.get('hi')
    default = op.get('default') or 0.0
    prec = op.get('prec', 1e-6)
    m = op.get('m', 50)

    def at(n, fn, x, mine):
        if mine and op['fault'] and n == op['at']:
            return {'nan': math.nan, 'inf': math.inf, 'zero': 0.0}[
                op['fault']]
        return fn(x)
    x = op['x0']
    want, outcome = default, 'iteration_limit'
    clamped = False
    close = math.inf         # how clear the convergence tests were
    calls = 0                # evaluations of f so far
    for n in range(1, m + 1):
        try:
            s = at(n, p, x, op['which'])
            if s == 0.0:
                outcome = 'zero_slope'
                break
            calls += 1
            nx = x - (at(calls, f, x, not op['which']) - y) / s
        except (OverflowError, ValueError):
            return
        if lo is not None and nx < lo:
            nx, clamped = lo + prec, True
        elif hi is not None and nx > hi:
            nx, clamped = hi - prec, True
        dx = abs(x - nx)
        if dx < prec:
            want, outcome = nx, 'converged'
        close = min(close, abs(dx / prec - 1)) if dx == dx else close
        x = nx
        if outcome == 'converged':
            break
        if x != x:
            break
    ctx.state((op['f'], outcome, op['fault'] if cb['fired'] else None,
               clamped))
    if close < 1e-3:
        return
    if outcome == 'converged':
        ctx.probes['converged'] += 1
        ctx.probes['clamped'] += clamped
        if got == default != want:
            ctx.fail('newton:default', '%s returned the default %r, expected '
                     '%r' % (show(op), got, want))
        ctx.check(abs(got - want) <= 1e-6 * (1 + abs(want)), 'newton:result',
                  lambda: '%s returned %r, expected %r' % (
                      show(op), got, want))
        ctx.check((lo is None or got >= lo - 1e-12) and
                  (hi is None or got <= hi + 1e-12), 'newton:bounds',
                  lambda: '%s returned %r outside of the interval' % (
                      show(op), got))
    else:
        # chaotic iterations amplify rounding: only clear ones are judged
        if op['f'] in ('none', 'sq', 'atan', 'log') and \
                outcome == 'iteration_limit' and m > 8:
            return
        ctx.probes['default'] += 1
        ctx.probes[outcome] += 1
        if cb['fired'] and op['fault'] in ('nan', 'inf'):
            ctx.probes['callback_garbage'] += 1
        ctx.check(got == default, 'newton:default', lambda: (
            '%s returned %r, expected the default %r' % (
                show(op), got, default)))


def nontrivial(ctx):
    return ctx.judged >= 3
