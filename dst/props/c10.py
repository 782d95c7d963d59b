import math

from ..engine import short
from ..seams import mix
from ..shapemodel import Geo, make
from .common import HIST_ASSUME
ID = 'C10'
COUNT = {'quick': 400, 'thorough': 40000}
CAP = {'quick': 60, 'thorough': 1500}
MIN_RUNS = 16
LISTS = ()
SHRINK_S = 90
SUSPECT_S = 60
LINE_BUDGET = 60_000_000
RULE = ('One run = one campaign: a seeded shape (name, dimension 1-6, '
        'centre, size, hollow) and calling pattern (sprinkle, intensify, '
        'constructor, explicit shape; fresh or reused causets; one or two '
        'generators or the default one taking turns), 8000-30000 points or '
        '4000-6000 Poisson counts. Every point is mapped to independent '
        'uniform numbers by the exact marginal laws of the uniform '
        'distribution on the shape; every component, every pair of '
        'components and every pair of points at lag 1, 2 and one batch is '
        'tested. Non-trivial: at least 1000 points or counts tested; '
        'distinct by event-log digest.')
SIMTIME = 'no clock in this component; simulated time counted as sprinkle ' \
    'calls'
STATE_MEASURE = 'distinct (shape, dimension, hollow, calling pattern) tested'
REAL = ['sprinkledcauset.py', 'shapes.py', 'embeddedcauset.py',
        'causet.py', 'causetevent.py', 'numpy PCG64']
STUB = ['numpy.random.default_rng and generator arguments (seeded PCG64)',
        'CausetEvent.__hash__ (seeded)']
ASSUMPTIONS = HIST_ASSUME[:1] + [
    'Each test is a Dvoretzky-Kiefer-Wolfowitz band of confidence 1-1e-14, '
    'so deviations of a distribution function below about 0.025-0.045 are '
    'not seen.',
    'The hollow part of a cylinder is the inner radius for its whole '
    'duration, as its Volume says.',
    'Hollow one-dimensional cylinders (empty volume) are excluded.']
PROBES = ('ball', 'bicone', 'cylinder', 'cube', 'cuboid', 'hollow',
          'poisson', 'intensify', 'constructor', 'explicit_shape',
          'default_rng', 'two_rngs', 'reused_causet')
LOG = math.log(2 / 1e-14)
SHAPES = [(n, d, h) for n in ('ball', 'bicone', 'cylinder', 'cube', 'cuboid')
          for d in (1, 2, 3, 4, 5, 6) for h in (0, 1)
          if not (h and (n in ('cube', 'cuboid') or
                         (n == 'cylinder' and d == 1)))]


def gen(rng, i):
    if i % 6 == 5:
        return {'kind': 'poisson',
                'lam': rng.choice((0.2, 0.7, 1.0, 2.5, 4.0, 7.5, 12.0)),
                'calls': rng.choice((4000, 6000)),
                'how': rng.choice(('intensify', 'constructor', 'twice',
                                   'default', 'shape')),
                'shape': [rng.choice((1, 2, 3)), rng.choice(
                    ('ball', 'cube', 'bicone')), {}]}
    # the first pass visits every shape once, in seeded order afterwards
    k = i - i // 6
    n, d, h = SHAPES[(k * 17 + 3) % len(SHAPES)] if k < len(SHAPES) \
        else rng.choice(SHAPES)
    p = {}
    if rng.random() < .6:
        p['center'] = [rng.choice((0.0, 1.0, -2.5, 4.25)) for _ in range(d)]
    if n in ('ball', 'bicone', 'cylinder'):
        if rng.random() < .6:
            p['radius'] = rng.choice((0.5, 2.0, 3.5))
        if h:
            p['hollow'] = rng.choice((0.25, 0.5, 0.8))
        if n == 'cylinder' and rng.random() < .6:
            p['duration'] = rng.choice((0.5, 1.0, 6.0))
    elif n == 'cube':
        if rng.random() < .7:
            p['edge'] = rng.choice((0.5, 2.0, 9.0))
    else:
        p['edges'] = [rng.choice((0.5, 1.0, 2.0, 5.0)) for _ in range(d)]
    axes = list(range(d))
    rng.shuffle(axes)
    return {'kind': 'points', 'shape': [d, n, p], 'axes': axes,
            'points': rng.choice((8000, 16000, 24000, 30000)),
            'n': rng.choice((1, 3, 8, 12, 12)),
            'how': rng.choice(('sprinkle', 'sprinkle', 'intensify',
                               'constructor', 'shape', 'default',
                               'two', 'reuse'))}


def simplify(case):
    if case['kind'] == 'points':
        if case['points'] > 2000:
            yield dict(case, points=case['points'] // 2)
        if case['how'] != 'sprinkle':
            yield dict(case, how='sprinkle')
        d, n, p = case['shape']
        for k in p:
            q = dict(p)
            del q[k]
            yield dict(case, shape=[d, n, q])
    elif case['calls'] > 500:
        yield dict(case, calls=case['calls'] // 2)


def sphere(np, X, out, side, name):
    """uniform numbers of unit vectors (rows of X)"""
    b = X.shape[1]
    if b == 1:
        out.append((name + 'sign', ((X[:, 0] > 0) + side(len(X))) / 2))
        return
    while b > 2:
        x = np.clip(X[:, 0], -1, 1)
        if b == 3:
            u = (1 + x) / 2
        elif b == 4:
            u = .5 + (x * np.sqrt(1 - x * x) + np.arcsin(x)) / np.pi
        else:
            # density (1 - x^2)^m, integrated by parts down to m = 0 or 1/2
            m = (b - 3) / 2
            w = 1 - x * x
            k = 0.0 if b % 2 else .5
            I = x if b % 2 else (x * np.sqrt(w) + np.arcsin(x)) / 2
            J = 1.0 if b % 2 else np.pi / 4
            while k < m:
                k += 1
                I = (x * w ** k + 2 * k * I) / (2 * k + 1)
                J = 2 * k * J / (2 * k + 1)
            u = .5 + I / (2 * J)
        out.append(('%sdirection%d' % (name, b), u))
        X = X[:, 1:]
        X = X / np.maximum(np.sqrt((X * X).sum(axis=1, keepdims=True)),
                           1e-300)
        b -= 1
    out.append((name + 'angle', (np.arctan2(X[:, 1], X[:, 0]) /
                                 (2 * np.pi)) % 1.0))


def radial(np, R, h, b):
    return (R ** b - h ** b) / (1 - h ** b)


def uniforms(np, geo, X, axes, side):
    """independent uniform numbers of uniformly distributed points"""
    Y = X - np.array(geo.c)
    d = geo.d
    out = []
    if geo.name in ('cube', 'cuboid'):
        for k in range(d):
            out.append(('coordinate%d' % k, Y[:, k] / geo.edges[k] + .5))
        return out
    sp = [k for k in axes if k]
    h = geo.h
    if geo.name == 'ball':
        Y = Y[:, axes]
        R = np.sqrt((Y * Y).sum(axis=1))
        out.append(('radius', radial(np, R / geo.r, h, d)))
        sphere(np, Y / np.maximum(R, 1e-300)[:, None], out, side, '')
        return out
    T = Y[:, 0]
    if geo.name == 'cylinder':
        out.append(('time', T / geo.dur + .5))
    if d > 1:
        Z = Y[:, sp]
        S = np.sqrt((Z * Z).sum(axis=1))
    else:
        Z, S = None, np.zeros(len(Y))
    if geo.name == 'cylinder':
        if d > 1:
            out.append(('radius', radial(np, S / geo.r, h, d - 1)))
    else:
        G = np.abs(T) + S
        out.append(('cone size', radial(np, G / geo.r, h, d)))
        if d > 1:
            out.append(('cone height', 1 - (
                1 - np.abs(T) / np.maximum(G, 1e-300)) ** (d - 1)))
        out.append(('past or future', ((T > 0) + side(len(T))) / 2))
    if d > 1:
        sphere(np, Z / np.maximum(S, 1e-300)[:, None], out, side, 'space ')
    return out


def battery(ctx, np, comps, batch, what):
    """comps: [(name, array)], rows in order of creation"""
    eps_n = {}

    def ks(key, desc, u):
        n = len(u)
        if n < 200:
            return
        e = eps_n.setdefault(n, math.sqrt(LOG / (2 * n)))
        v = np.sort(u)
        g = np.arange(1, n + 1) / n
        D = max(float(np.max(g - v)), float(np.max(v - g + 1.0 / n)))
        ctx.stats['tests'] += 1
        ctx.check(D <= e, key, lambda: (
            '%s of %s: distance of the distribution functions %.4f > %.4f '
            '(%d values)' % (desc, what, D, e, n)))

    for name, u in comps:
        ctx.check(bool(np.all(np.isfinite(u))), 'not-finite', lambda: (
            '%s of %s is not finite' % (name, what)))
        ctx.check(float(u.min()) > -1e-3 and float(u.max()) < 1.001,
                  'range:' + name, lambda: (
                      '%s of %s has probability %r..%r' % (
                          name, what, float(u.min()), float(u.max()))))
        ks('law:' + name, name, u)
        for lag in sorted({1, 2, batch} if batch else {1, 2}):
            a, b = u[:-lag], u[lag:]
            for s in (1, -1):
                ks('repeat:%s:%d' % (name, s), '%s of points %d apart' % (
                    name, lag), (a + s * b) % 1.0)
    for j, (n1, u) in enumerate(comps):
        for n2, v in comps[:j]:
            for s in (1, -1):
                ks('dependent:%s:%s' % (n1, n2), '%s against %s' % (n1, n2),
                   (u + s * v) % 1.0)
            n = len(u)
            q = float(np.mean((u > .5) == (v > .5)))
            ctx.check(abs(q - .5) <= math.sqrt(LOG / (2 * n)),
                      'dependent:%s:%s' % (n1, n2), lambda: (
                          '%s and %s of %s agree in %.4f of the cases' % (
                              n1, n2, what, q)))


def run(ctx, case):
    lib, np = ctx.lib, ctx.lib.np
    ctx.tested = 0
    side = np.random.Generator(np.random.PCG64(mix(case['seed'], 9)))
    spec = case['shape']
    geo = Geo(spec)
    rngs = [lib.SimRng(mix(case['seed'], 31, k)) for k in range(2)]
    how = case['how']
    if case['kind'] == 'poisson':
        return poisson(ctx, case, lib, np, side, rngs[0])
    rows = []
    n = case['n']
    cause = None
    other = make(lib, [geo.d, 'cube', {'edge': 0.5}])
    shape = make(lib, spec)
    k = 0
    while len(rows) < case['points']:
        kw = {}
        if how == 'default':
            ctx.probes['default_rng'] += 1
        elif how == 'two':
            kw['rng'] = rngs[k & 1]
        else:
            kw['rng'] = rngs[0]
        k += 1
        ctx.stats['steps'] += 1
        if how == 'constructor':
            c = ctx.call('SprinkledCauset', lib.SC, card=n, shape=shape)
            got = list(c)
        else:
            if how == 'reuse' and cause is not None and cause.Card + n <= 12:
                c = cause
            else:
                c = cause = ctx.call(
                    'SprinkledCauset', lib.SC,
                    shape=other if how == 'shape' else shape)
            if how == 'shape':
                kw['shape'] = shape
            if how == 'intensify':
                got = ctx.call('intensify', c.intensify, float(n), **kw)
            else:
                got = ctx.call('sprinkle', c.sprinkle, n, **kw)
        got = sorted(got, key=lambda e: e.Label)
        if how != 'intensify':
            ctx.eq(len(got), n, 'count', 'number of sprinkled events')
        rows += [e.Coordinates for e in got]
        if k > 20 * case['points']:
            ctx.fail('no-points', '%d calls of %s gave %d points' % (
                k, how, len(rows)))
    ctx.probes['hollow'] += geo.h > 0
    ctx.probes[geo.name] += 1
    ctx.probes[{'two': 'two_rngs', 'reuse': 'reused_causet',
                'shape': 'explicit_shape'}.get(how, how)] += 1
    X = np.array([[float(v) for v in r] for r in rows])
    ctx.log(X.shape, X.sum().hex(), X[-1].tolist())
    comps = uniforms(np, geo, X, case['axes'],
                     lambda m: side.random(m))
    battery(ctx, np, comps, 0 if how == 'intensify' else n,
            '%s%s in %d dimensions (%s, %d at a time)' % (
                'hollow ' if geo.h else '', geo.name, geo.d, how, n))
    ctx.tested = len(X)
    ctx.stats['points'] += len(X)
    ctx.state((geo.name, geo.d, geo.h, how, n))


def poisson(ctx, case, lib, np, side, rng):
    lam, how = case['lam'], case['how']
    shape = make(lib, case['shape'])
    small = make(lib, [case['shape'][0], 'cube', {'edge': 0.5}])
    N = []
    for k in range(case['calls']):
        ctx.stats['steps'] += 1
        if how == 'constructor':
            N.append(ctx.call('SprinkledCauset', lib.SC, intensity=lam,
                              shape=shape).Card)
            continue
        if how != 'twice' or k % 2 == 0:
            c = ctx.call('SprinkledCauset', lib.SC, shape=shape)
        before = c.Card
        kw = {} if how == 'default' else {'rng': rng}
        if how == 'shape':
            kw['shape'] = small
        got = ctx.call('intensify', c.intensify, lam, **kw)
        ctx.eq(len(got), c.Card - before, 'count', 'number of new events')
        N.append(len(got))
    # randomised distribution function: uniform for Poisson counts
    m = max(N)
    F = [0.0]
    p = math.exp(-lam)
    for j in range(m + 1):
        F.append(F[-1] + p)
        p *= lam / (j + 1)
    F = np.array(F)
    N = np.array(N)
    u = F[N] + (F[N + 1] - F[N]) * side.random(len(N))
    ctx.log(int(N.sum()), N[:50].tolist())
    battery(ctx, np, [('count', u)], 0, 'Poisson counts with mean %s (%s)' % (
        lam, how))
    ctx.tested = len(N)
    ctx.stats['counts'] += len(N)
    ctx.probes['poisson'] += 1
    ctx.state(('poisson', lam, how))


def nontrivial(ctx):
    return ctx.tested >= 1000
