import math
import random

import numpy as np

from .. import seams
from ..seams import mix
from ..shapemodel import Geo, gen_shape
from .common import HIST_ASSUME
from .c14 import Art, StubAxes, Unknown, surf_pts
ID = 'C15'
COUNT = {'quick': 250000, 'thorough': 1000000}
CAP = {'quick': 45, 'thorough': 1500}
MIN_RUNS = 400
LISTS = ('ops', 'shapes')
RULE = ('One run = one seeded history over up to four shapes, some built from '
        'the same arrays of the caller: volumes, limits, extents, names, 2D '
        'and 3D plots in any axis order, outlines and surfaces of the module '
        'functions, sprinkles into and causets with the '
        'shape, invalid constructions, changes of the caller\'s own arrays; '
        'drawing calls, random draws and single bytecode instructions fail at '
        'seeded points. After every operation all shapes report the geometry '
        'they were built with. Non-trivial: at least three operations on '
        'shapes; distinct by event-log digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = 'distinct (shape kind, dimension, operation, fault) seen'
REAL = ['shapes.py', 'sprinkledcauset.py', 'embeddedcauset.py',
        'matplotlib patches']
STUB = ['drawing axes (recorder that fails at the k-th call)',
        'generators (SimRng)', 'sys.settrace (an exception at a seeded '
        'bytecode instruction of library code)']
ASSUMPTIONS = HIST_ASSUME[:1] + [
    'Relative tolerance 1e-5 (shape parameters are single precision), 1 % '
    'for the area enclosed by sampled circles.',
    'Callers do not change the arrays returned by Center and Parameter.']
PROBES = ('volume_first', 'volume_again', 'plot2d', 'plot3d', 'plot_failed',
          'interrupted', 'sprinkled', 'sprinkle_failed', 'caller_changed',
          'rejected', 'hollow_plot', 'shared_arrays', 'moved_time_first',
          'coverage', 'outline')
TOL = 1e-5


def gen(rng, i):
    shapes = []
    for _ in range(rng.choice((1, 1, 2, 3, 4))):
        while True:
            s = gen_shape(rng, rng.choice((1, 2, 2, 3, 3, 3, 4, 5, 8)))
            if not (s[1] == 'cylinder' and s[0] == 1):
                break
        if shapes and rng.random() < .3 and shapes[-1][0][0] == s[0]:
            s[2].update({k: v for k, v in shapes[-1][0][2].items()
                         if k in ('center',)})
        shapes.append([s, rng.randrange(4)])
    w = {'vol': 4, 'lim': 2, 'edge': 2, 'par': 1, 'str': 1, 'plot': 7,
         'sprinkle': 3, 'embed': 1, 'caller': 2, 'bad': 2, 'badlim': 1,
         'int': 3, 'outline': 3}
    w = {k: v for k, v in w.items() if rng.random() < .85 or k == 'plot'}
    ops = []
    for _ in range(rng.randrange(2, 16)):
        k = rng.choices(list(w), list(w.values()))[0]
        op = [k, rng.randrange(4)]
        if k in ('lim', 'edge'):
            op += [[rng.randrange(60) for _ in range(rng.choice((1, 2, 3)))]]
        elif k == 'plot':
            op += [[rng.randrange(60) for _ in range(4)], rng.randrange(2),
                   0 if rng.random() < .8 else rng.choice((1, 1, 2, 3)),
                   rng.randrange(4)]
        elif k == 'sprinkle':
            op += [rng.choice((0, 1, 2, 5, 9)),
                   0 if rng.random() < .7 else rng.choice((1, 2, 3, 4))]
        elif k == 'bad':
            op += [rng.randrange(20)]
        elif k == 'outline':
            op += gen_outline(rng)
        elif k == 'badlim':
            op += [rng.choice((-1, -3, 0, 1, 7))]
        elif k == 'int':
            op += [rng.choice(('vol', 'vol', 'lim', 'edge', 'plot', 'plot',
                               'sprinkle', 'str')),
                   [rng.randrange(60) for _ in range(4)], rng.randrange(2),
                   int(2 ** rng.uniform(0, 9))]
        ops.append(op)
    return {'shapes': shapes, 'ops': ops}


def near(a, b, scale, tol=TOL):
    return abs(a - b) <= tol * scale


class S:
    pass


class Axes(StubAxes):
    def add_patch(self, p):
        self.tick()
        self.arts.append(Art('patch', [], {}, p))
        return p

    add_artist = add_patch


def dims_of(d, raw, is3d):
    n = 3 if is3d else 2
    return sorted(range(d), key=lambda k: (raw[k % len(raw)] * (k + 3) % 17,
                                           k))[:n]


def on_boundary(g, dims, p):
    """does the plotted point p lie on the boundary of the cut of the shape
    by the plane of dims through its centre?"""
    y = [v - g.c[k] for v, k in zip(p, dims)]
    tol = TOL * (g.scale + max(abs(v) for v in p))
    if g.name in ('cube', 'cuboid'):
        out = [abs(v) - g.edges[k] / 2 for v, k in zip(y, dims)]
        return max(out) <= tol and max(out) >= -tol
    t = y[dims.index(0)] if 0 in dims else 0.0
    x = math.sqrt(sum(v * v for v, k in zip(y, dims) if k))
    if g.name == 'ball' or 0 not in dims:
        q = math.hypot(t, x)
    elif g.name == 'bicone':
        q = abs(t) + x
    else:
        if abs(abs(t) - g.dur / 2) <= tol:
            return g.h * g.r - tol <= x <= g.r + tol
        if abs(t) > g.dur / 2:
            return False
        q = x
    return abs(q - g.r) <= tol or (g.h > 0 and abs(q - g.h * g.r) <= tol)


def refine(a, n):
    """linear interpolation of the rows until there are at least n"""
    while len(a) < n:
        b = np.empty((2 * len(a) - 1,) + a.shape[1:])
        b[::2], b[1::2] = a, (a[1:] + a[:-1]) / 2
        a = b
    return a


def uncovered(grids, pts, tol):
    """the first of pts that no cell of the drawn surfaces comes near"""
    lo, hi = [], []
    for g in grids:
        a = np.stack(np.broadcast_arrays(*[np.asarray(x, float)
                                           for x in g]), -1)
        a = refine(refine(a, 16).swapaxes(0, 1), 16)
        c = np.stack([a[1:, 1:], a[:-1, 1:], a[1:, :-1], a[:-1, :-1]])
        lo.append(c.min(0).reshape(-1, 3))
        hi.append(c.max(0).reshape(-1, 3))
    lo, hi = np.concatenate(lo) - tol, np.concatenate(hi) + tol
    for p in pts:
        if not ((lo <= p) & (p <= hi)).all(1).any():
            return p
    return None


def boundary_points(g, dims, rnd, n):
    """points on the boundary of the 3D cut of the shape"""
    out = []
    for i in range(n):
        v = [rnd.gauss(0, 1) for _ in range(3)]
        s = math.sqrt(sum(x * x for x in v)) or 1.0
        r = g.r * (g.h if g.h > 0 and i % 3 == 0 else 1.0)
        if g.name in ('cube', 'cuboid'):
            j = i % 3
            y = [g.edges[k] * (rnd.random() - .5) for k in dims]
            y[j] = math.copysign(g.edges[dims[j]] / 2, v[j])
        elif g.name == 'ball' or 0 not in dims:
            y = [x / s * r for x in v]
        else:
            ta = dims.index(0)
            s = math.sqrt(sum(x * x for j, x in enumerate(v) if j != ta)) \
                or 1.0
            if g.name == 'bicone':
                t = rnd.uniform(-1, 1)
                y = [x / s * r * (1 - abs(t)) for x in v]
                y[ta] = t * r
            elif i % 2:
                y = [x / s * r for x in v]
                y[ta] = g.dur * (rnd.random() - .5)
            else:
                r = g.r * rnd.uniform(g.h, 1)
                y = [x / s * r for x in v]
                y[ta] = math.copysign(g.dur / 2, v[ta])
        out.append([x + g.c[k] for x, k in zip(y, dims)])
    return out


def inner(g, dims, p):
    y = [v - g.c[k] for v, k in zip(p, dims)]
    t = y[dims.index(0)] if 0 in dims else 0.0
    x = math.sqrt(sum(v * v for v, k in zip(y, dims) if k))
    q = x if g.name == 'cylinder' else math.hypot(t, x) \
        if g.name == 'ball' else abs(t) + x
    return abs(q - g.h * g.r) <= TOL * (g.scale + max(abs(v) for v in p))


def area(rows):
    """signed area of a closed polygon"""
    return sum(a[0] * b[1] - a[1] * b[0]
               for a, b in zip(rows, rows[1:] + rows[:1])) / 2


def cut_area(g, dims):
    if g.name in ('cube', 'cuboid'):
        return g.edges[dims[0]] * g.edges[dims[1]]
    q = 1 - g.h ** 2
    if g.name == 'ball' or 0 not in dims:
        return math.pi * g.r ** 2 * q
    if g.name == 'bicone':
        return 2 * g.r ** 2 * q
    return g.dur * 2 * g.r * (1 - g.h)


def judge_patch(ctx, g, dims, p):
    from matplotlib import patches as P
    what = 'plot of %s (%s) on axes %s' % (g.name, g.d, dims)
    if isinstance(p, P.Circle):
        round_ = g.name == 'ball' or (g.name in ('bicone', 'cylinder') and
                                      0 not in dims)
        ctx.check(round_ and g.h == 0, 'plot:kind', what + ' is a circle')
        c = [float(v) for v in p.center]
        ctx.check(all(near(a, g.c[k], g.scale) for a, k in zip(c, dims)) and
                  near(float(p.radius), g.r, g.scale), 'plot:circle',
                  lambda: '%s: centre %s radius %s' % (what, c, p.radius))
        return
    if isinstance(p, P.Rectangle):
        x, y = (float(v) for v in p.get_xy())
        w, h = float(p.get_width()), float(p.get_height())
        ctx.check(not p.angle, 'plot:angle', what + ' is turned')
        parts = [[(x, y), (x + w, y), (x + w, y + h), (x, y + h)]]
    elif isinstance(p, P.Polygon):
        parts = split(p.get_xy().tolist())
    else:
        raise Unknown(type(p).__name__)
    judge_parts(ctx, g, dims, parts, what)


def split(rows):
    parts, cur = [], []
    for r in rows:
        if any(v != v for v in r):
            parts, cur = parts + [cur], []
        else:
            cur.append(tuple(r))
    return [c for c in parts + [cur] if len(c) > 2]


def judge_parts(ctx, g, dims, parts, what):
    pts = [q for c in parts for q in c]
    judge_points(ctx, g, dims, pts, what)
    a = abs(sum(area(c) for c in parts))
    ctx.check(abs(a - cut_area(g, dims)) <= .01 * cut_area(g, dims),
              'plot:area', lambda: '%s encloses %r, expected %r' % (
                  what, a, cut_area(g, dims)))


def judge_points(ctx, g, dims, pts, what):
    for q in pts:
        ctx.check(on_boundary(g, dims, q), 'plot:boundary', lambda: (
            '%s: %s is not on the boundary' % (what, q)))
    ext = g.extents()
    for j, k in enumerate(dims):
        for sgn in (-1, 1):
            lim = g.c[k] + sgn * ext[k]
            got = (max if sgn > 0 else min)(q[j] for q in pts)
            ctx.check(abs(got - lim) <= .01 * ext[k] + TOL * g.scale,
                      'plot:extent', lambda: (
                          '%s: extreme of coordinate %d is %r, expected %r'
                          % (what, k, got, lim)))
    if g.h > 0:
        ctx.check(any(inner(g, dims, q) for q in pts),
                  'plot:hollow', lambda: '%s has no inner boundary' % what)
        ctx.probes['hollow_plot'] += 1


OUTLINES = ('circle', 'ellipse', 'rect', 'bicone', 'cylcut', 'cuboid',
            'ball', 'cylinder', 'cone')


def gen_outline(rng):
    which = rng.choice(OUTLINES)
    flat = which in OUTLINES[:5]
    d = 2 if flat else 3
    name = {'circle': 'ball', 'ellipse': 'ball', 'rect': 'cuboid',
            'cylcut': 'cylinder', 'cone': 'cylinder'}.get(which, which)
    p = {'center': [rng.choice((0.0, 1.0, -2.5, 7.25)) for _ in range(d)],
         'radius': rng.choice((.5, 1.0, 2.0, 3.5))}
    if which in ('circle', 'ellipse', 'bicone', 'cylcut', 'cylinder') and \
            rng.random() < .6:
        p['hollow'] = rng.choice((.1, .25, .5, .9))
    if which == 'ellipse':
        p['radius'] = 1.0
    if name == 'cylinder':
        p['duration'] = rng.choice((.25, 1.0, 3.0))
    p['edges'] = [rng.choice((.25, 1.0, 2.0, 5.0)) for _ in range(d)]
    return [which, [d, name, p], rng.choice((-1, 0, 40, 64, 65, 101)),
            rng.randrange(3), rng.choice((1, -1)),
            [rng.choice((.5, 1.0, 3.0)) for _ in range(2)]]


def outline(ctx, mod, op):
    """the functions that return outlines and surfaces"""
    which, spec, n, z, sgn, radii = op
    g = Geo(spec)
    what = '%s(%s, samplingsize=%d)' % (which, spec[2], n)
    m = n if n > 0 else mod.default_samplingsize
    c = np.array(g.c)
    kw = {'samplingsize': n} if n else {}
    hol = {'hollow': g.h} if g.h or sgn > 0 else {}
    dims = [0, 1]
    h = g.dur * sgn
    if which == 'circle':
        fn = lambda: mod.CircleEdge(c, g.r, **hol, **kw)
    elif which == 'ellipse':
        fn = lambda: mod.EllipseEdge(c, np.array(radii), **hol, **kw)
    elif which == 'rect':
        fn = lambda: mod.RectangleEdge(
            g.c[0] - g.edges[0] / 2, g.c[1] - g.edges[1] / 2, *g.edges)
    elif which == 'bicone':
        fn = lambda: mod.BiconeEdge(c, g.r, **hol)
    elif which == 'cylcut':
        dims = [1, 0]
        c = c[::-1].copy()
        fn = lambda: mod.CylinderCutEdge(c, g.r, g.dur, **hol)
    else:
        dims = [0, 1, 2]
        if which == 'cuboid':
            fn = lambda: mod.CuboidSurface(c, np.array(g.edges))
        elif which == 'ball':
            fn = lambda: mod.BallSurface(c, g.r, **kw)
        elif which == 'cylinder':
            dims = {0: [0, 1, 2], 1: [2, 0, 1], 2: [1, 2, 0]}[z]
            c = c[dims]
            fn = lambda: mod.CylinderSurface(c, g.r, g.dur, g.h, z, **kw)
        else:
            fn = lambda: mod.OpenConeSurface(c, g.r, h, z, **kw)
    keep = c.copy()
    out = ctx.call(which, fn)
    ctx.check((c == keep).all(), 'outline:argument', what)
    if len(dims) == 2:
        out = np.asarray(out)
        sizes = {'circle': m + 1, 'ellipse': m + 1}
        want = 2 * sizes.get(which, 5) + 1 if g.h else sizes.get(which, 5)
        ctx.eq(out.shape, (want, 2), 'outline:size', what)
        rows = out.copy()
        if which == 'ellipse':
            rows = c + (rows - c) / np.array(radii)
        parts = split(rows.tolist())
        ctx.eq(len(parts), 2 if g.h else 1, 'outline:parts', what)
        for q in parts:
            ctx.check(max(abs(a - b) for a, b in zip(q[0], q[-1])) <
                      TOL * g.scale, 'outline:open', what)
        judge_parts(ctx, g, dims, parts, what)
        one = [out]
        before = [out.copy()]
    else:
        one = [x for XYZ in out for x in XYZ]
        before = [np.array(x) for x in one]
        pts = [q for XYZ in out for q in surf_pts(*XYZ)]
        shape = {'ball': (m + 1, round((m + 1) / 2)),
                 'cylinder': (5 if g.h else 4, m + 1),
                 'cone': (2, m + 1)}.get(which)
        if shape:
            ctx.eq([np.broadcast(*XYZ).shape for XYZ in out], [shape],
                   'outline:size', what)
        rnd = random.Random(mix(ctx.step, m, 6))
        if which == 'cone':
            tol = TOL * (g.scale + abs(h))
            for q in pts:
                y = [a - b for a, b in zip(q, g.c)]
                t = y.pop(z)
                ctx.check(-tol <= t * sgn <= abs(h) + tol and abs(
                    math.hypot(*y) - t / h * g.r) <= tol, 'outline:cone',
                    lambda: '%s: %s is not on the cone' % (what, q))
            b = []
            for _ in range(12):
                t, f = rnd.random(), rnd.uniform(0, 2 * math.pi)
                y = [t * g.r * math.cos(f), t * g.r * math.sin(f)]
                y.insert(z, t * h)
                b.append([u + v for u, v in zip(y, g.c)])
            ext = max(g.r, abs(h))
        else:
            judge_points(ctx, g, dims, pts, what)
            b = boundary_points(g, dims, rnd, 12)
            ext = max(g.extents())
        p = uncovered(out, b, .03 * ext + TOL * g.scale)
        ctx.check(p is None, 'outline:coverage', lambda: (
            '%s does not show the surface at %s' % (what, p)))
        for x in one:
            if x.flags.writeable:    # the caller may change them
                x += 1.0
        again = [x for XYZ in ctx.call(which, fn) for x in XYZ]
    if len(dims) == 2:
        if one[0].flags.writeable:
            one[0] += 1.0
        again = [np.asarray(ctx.call(which, fn))]
    ctx.check(len(again) == len(before) and all(
        np.array_equal(a, b, equal_nan=True) for a, b in zip(again, before)),
        'outline:again', lambda: what + ' returns something else later')
    ctx.probes['outline'] += 1


BAD = [(0, 'cube', {}), (-1, 'ball', {}), (2, 'sphere', {}), (2, '', {}),
       (2, 'ball', {'radius': 0.0}), (3, 'bicone', {'radius': -1.0}),
       (2, 'cylinder', {'radius': -.5}), (2, 'ball', {'hollow': 1.0}),
       (2, 'diamond', {'hollow': -.1}), (3, 'cylinder', {'hollow': 1.5}),
       (2, 'cylinder', {'duration': 0.0}), (2, 'cylinder', {'duration': -2.}),
       (2, 'cube', {'edge': 0.0}), (4, 'cube', {'edge': -1.0}),
       (2, 'cuboid', {'edges': [1.0, 0.0]}),
       (3, 'cuboid', {'edges': [1.0, -1.0, 2.0]}),
       (3, 'cuboid', {'edges': [1.0, 1.0]}),
       (2, 'cube', {'center': [0.0]}), (1, 'ball', {'center': [0.0, 0.0]}),
       (2, 'Ball', {})]


def run(ctx, case):
    lib = ctx.lib
    ctx.nops = 0
    sh, shared = [], {}
    for spec, form in case['shapes']:
        s = S()
        s.g, s.spec = Geo(spec), spec
        s.own = {}
        kw = {}
        for k, v in spec[2].items():
            if isinstance(v, list):
                if form == 0:
                    v = list(v)
                elif form == 1:
                    v = tuple(v)
                else:
                    key = (k, str(v), form)
                    if key in shared:
                        ctx.probes['shared_arrays'] += 1
                    v = shared.setdefault(key, np.array(
                        v, dtype=np.float32 if form == 2 else float))
                s.own[k] = v
            elif form == 2:
                v = np.array(v, dtype=np.float32)
                s.own[k] = v
            kw[k] = v
        s.real = ctx.call('CoordinateShape', lib.Shape, spec[0], spec[1],
                          **kw)
        s.asked = False
        sh.append(s)
    if not sh:
        return

    def verify(s, tag, volume=False):
        g, r = s.g, s.real
        ctx.eq(ctx.call('Dim', lambda: r.Dim), g.d, tag + ':Dim')
        ctx.eq(ctx.call('Name', lambda: r.Name), g.name, tag + ':Name')
        c = ctx.call('Center', lambda: [float(v) for v in r.Center])
        ctx.check(len(c) == g.d and all(
            near(a, b, g.scale) for a, b in zip(c, g.c)), tag + ':center',
            lambda: 'centre of %s is %s, expected %s' % (s.spec, c, g.c))
        ext = g.extents()
        for k in range(g.d):
            lo, hi = ctx.call('Limits', r.Limits, k)
            ctx.check(near(lo, g.c[k] - ext[k], g.scale) and
                      near(hi, g.c[k] + ext[k], g.scale), tag + ':limits',
                      lambda: 'Limits(%d) of %s are %r' % (k, s.spec,
                                                          (lo, hi)))
        want = {'ball': {'radius': g.r, 'hollow': g.h},
                'bicone': {'radius': g.r, 'hollow': g.h},
                'cylinder': {'radius': g.r, 'hollow': g.h,
                             'duration': g.dur},
                'cube': {'edge': g.edges[0]}, 'cuboid': {}}[g.name]
        for k, v in want.items():
            x = float(ctx.call('Parameter', r.Parameter, k))
            ctx.check(near(x, v, abs(v)), tag + ':parameter', lambda: (
                'Parameter(%s) of %s is %r' % (k, s.spec, x)))
        if g.name == 'cuboid':
            x = [float(v) for v in ctx.call('Parameter', r.Parameter,
                                            'edges')]
            ctx.check(len(x) == g.d and all(
                near(a, b, b) for a, b in zip(x, g.edges)),
                tag + ':parameter', lambda: 'edges of %s are %s' % (
                    s.spec, x))
        if volume or s.asked and mix(ctx.step, case['seed']) % 3 == 0:
            V = float(ctx.call('Volume', lambda: r.Volume))
            ctx.check(near(V, g.volume(), g.volume()), tag + ':volume',
                      lambda: 'Volume of %s is %r, expected %r' % (
                          s.spec, V, g.volume()))
            ctx.probes['volume_again' if s.asked else 'volume_first'] += 1
            s.asked = True

    def max_edge(s, raw):
        g = s.g
        dims = []
        for k in raw:
            if k % g.d not in dims:
                dims.append(k % g.d)
        if dims == [0] and g.name == 'cylinder':
            return      # the documentation leaves open what is meant
        x = float(ctx.call('MaxEdgeHalf', s.real.MaxEdgeHalf, dims))
        ext = g.extents()
        ctx.check(near(x, max(ext[k] for k in dims), g.scale), 'MaxEdgeHalf',
                  lambda: 'MaxEdgeHalf(%s) of %s is %r' % (dims, s.spec, x))

    def plot(s, raw, is3d, fail_at, style):
        """None if the shape has no such plot"""
        g = s.g
        if g.d < 2 + is3d:
            return None
        dims = dims_of(g.d, raw, is3d)
        ax = Axes(ctx, bool(is3d))
        ax.fail_at = fail_at
        kw = [{}, {'alpha': .5}, {'edgecolor': 'red'},
              {'alpha': .125, 'edgecolor': 'blue'}][style % 4]
        kw0 = dict(kw)
        got = s.real.plot(list(dims), ax, **kw)
        ctx.eq(kw, kw0, 'plot:options', 'the options of the caller')
        return dims, ax, got, kw

    def judge(s, out, is3d):
        dims, ax, got, kw = out
        g = s.g
        what = 'plot of %s on axes %s' % (s.spec, dims)
        if 0 in dims[:2] and any(g.c):
            ctx.probes['moved_time_first'] += 1
        if is3d:
            arts = [a for a in ax.arts if a.kind == 'surface']
            ctx.check(arts and len(arts) == len(ax.arts), 'plot:3d', what)
            pts = [p for a in arts for p in a.pts]
            judge_points(ctx, g, dims, pts, what)
            ctx.eq(len(got), len(arts), 'plot:returned', what)
            got_pts = [p for XYZ in got for p in surf_pts(*XYZ)]
            ctx.check(sorted(got_pts) == sorted(pts), 'plot:returned',
                      lambda: what + ' returns other surfaces')
            if mix(ctx.step, case['seed'], 5) % 2:
                rnd = random.Random(mix(ctx.step, case['seed'], 6))
                ext = max(g.extents()[k] for k in dims)
                p = uncovered([a.grid for a in arts],
                              boundary_points(g, dims, rnd, 12),
                              .03 * ext + TOL * g.scale)
                ctx.check(p is None, 'plot:coverage', lambda: (
                    '%s does not show the boundary at %s' % (what, p)))
                ctx.probes['coverage'] += 1
            for a in arts:
                ctx.check(a.props.get('alpha') == kw.get('alpha', .05),
                          'plot:alpha', lambda: what + str(a.props))
            ctx.probes['plot3d'] += 1
        else:
            ctx.check(len(ax.arts) == 1 and ax.arts[0].obj is got,
                      'plot:patch', what)
            judge_patch(ctx, g, dims, got)
            ctx.check(got.get_alpha() == kw.get('alpha', .05), 'plot:alpha',
                      lambda: what + ' alpha %r' % got.get_alpha())
            ctx.probes['plot2d'] += 1

    def sprinkle(s, n, plan, seed):
        r = lib.SimRng(seed, plan)
        c = lib.SC(shape=s.real)
        c.sprinkle(n, rng=r)
        return c

    for t, op in enumerate(case['ops']):
        ctx.step = t
        ctx.stats['steps'] += 1
        k = op[0]
        ctx.stats['op:' + k] += 1
        s = sh[op[1] % len(sh)]
        g = s.g
        fault = ''
        if k == 'vol':
            verify(s, k, True)
        elif k == 'lim':
            verify(s, k)
        elif k == 'edge':
            max_edge(s, op[2])
        elif k == 'par':
            try:
                s.real.Parameter('nothing')
            except KeyError:
                pass
            else:
                ctx.fail('par:accepted', 'Parameter of an unknown name')
        elif k == 'str':
            x = ctx.call('str', str, s.real)
            ctx.eq(x, ('hollow ' if g.h else '') + '%d-%s' % (g.d, g.name),
                   'str')
            x = ctx.call('repr', repr, s.real)
            ctx.check('CoordinateShape' in x and g.name in x and str(g.d) in x, 'repr',
                      lambda: 'repr of a %s is %s' % (g.name, x))
        elif k == 'plot':
            try:
                out = plot(s, op[2], op[3], op[4], op[5])
            except seams.Injected:
                ctx.faults['drawing_failed'] += 1
                ctx.probes['plot_failed'] += 1
                fault = 'draw'
            except Unknown:
                ctx.stats['undecided_plots'] += 1
            except Exception as e:
                ctx.call('plot', raiser(e))
            else:
                if out:
                    judge(s, out, op[3])
        elif k == 'sprinkle':
            plan = {'fail_at': op[3], 'exc': 'inj'} if op[3] else {}
            seed = mix(case['seed'], 9, t)
            try:
                c = sprinkle(s, op[2], plan, seed)
            except seams.Injected:
                ctx.faults['draw_failed'] += 1
                ctx.probes['sprinkle_failed'] += 1
                fault = 'rng'
            except Exception as e:
                ctx.call('sprinkle', raiser(e))
            else:
                for e in c:
                    why = g.inside([float(v) for v in e.Coordinates])
                    ctx.check(why is None, 'sprinkle:outside', lambda: (
                        'a sprinkled event of %s %s' % (s.spec, why)))
                ctx.probes['sprinkled'] += 1
        elif k == 'embed':
            c = ctx.call('EmbeddedCauset', lib.EC, shape=s.real)
            x = ctx.call('Shape', lambda: c.Shape)
            ctx.check(x is s.real, 'embed:shape', 'Shape is another object')
            ctx.eq(float(ctx.call('Density', lambda: c.Density)), 0.0,
                   'embed:density')
        elif k == 'caller':
            for v in s.own.values():
                if isinstance(v, np.ndarray):
                    v += 1
                elif isinstance(v, list):
                    v[0] += 1
                else:
                    continue
                ctx.probes['caller_changed'] += 1
        elif k == 'bad':
            d, name, kw = BAD[op[2] % len(BAD)]
            try:
                lib.Shape(d, name, **kw)
            except ValueError:
                ctx.probes['rejected'] += 1
                ctx.faults['invalid_shape'] += 1
            except Exception as e:
                ctx.fail('bad:exception', 'CoordinateShape(%s, %r, %s) raised '
                         '%r' % (d, name, kw, e))
            else:
                ctx.fail('bad:accepted', 'CoordinateShape(%s, %r, %s) did not '
                         'raise' % (d, name, kw))
        elif k == 'badlim':
            d = op[2] if op[2] < 0 else g.d + op[2]
            try:
                s.real.Limits(d)
            except ValueError:
                pass
            except Exception as e:
                ctx.fail('badlim:exception', 'Limits(%d) raised %r' % (d, e))
            else:
                ctx.fail('badlim:accepted', 'Limits(%d) of a shape of '
                         'dimension %d did not raise' % (d, g.d))
        elif k == 'outline':
            outline(ctx, lib.shapes, op[2:])
        elif k == 'int':
            fn = {'vol': lambda: s.real.Volume,
                  'lim': lambda: s.real.Limits(0),
                  'edge': lambda: s.real.MaxEdgeHalf([0]),
                  'str': lambda: str(s.real),
                  'plot': lambda: plot(s, op[3], op[4], 0, 0),
                  'sprinkle': lambda: sprinkle(s, 3, {}, mix(
                      case['seed'], 11, t))}[op[2]]
            tr = seams.LineTracer(op[5], opcodes=True)
            try:
                with tr:
                    fn()
            except seams.InjectedInterrupt:
                ctx.faults['interrupt:' + op[2]] += 1
                ctx.probes['interrupted'] += 1
                fault = 'int'
            except Unknown:
                pass
            except Exception as e:
                if not tr.fired:
                    ctx.call(op[2], raiser(e))
            if op[2] == 'vol':
                s.asked = True
        ctx.nops += 1
        ctx.state((g.name, g.d, g.h > 0, k, fault))
        for x in sh:
            verify(x, k if x is s else 'other')
        ctx.log(k, fault, s.asked)
    ctx.step = len(case['ops'])
    for x in sh:
        verify(x, 'end', True)
        max_edge(x, [0, 1, 2])
        if x.g.d > 1:
            max_edge(x, [1])


def raiser(e):
    def f():
        raise e
    return f


def nontrivial(ctx):
    return ctx.nops >= 3
