import math

import numpy as np

from .. import seams
from ..seams import mix
from .common import HIST_ASSUME
from .c14 import Art, StubAxes, Unknown, surf_pts
from .c15 import area
ID = 'C18'
COUNT = {'quick': 250000, 'thorough': 500000}
CAP = {'quick': 50, 'thorough': 1500}
MIN_RUNS = 300
LISTS = ('ops', 'plotters')
RULE = ('One run = one seeded history of light cones drawn by up to five cone '
        'plotters (flat, periodic, de Sitter, black hole in both metrics, '
        'past and future, 2D and 3D, with and without opacity functions) for '
        'shared events, in any order; drawing calls, opacity functions and '
        'single bytecode instructions fail at seeded points, plotters are '
        'used again afterwards and the default sampling changes between '
        'them. Every vertex must lie on a null curve through the event, on '
        'the time slice or on the singularity, and the outline must reach '
        'the extent and enclose the area of the light front. Non-trivial: at least three cones '
        'drawn and judged; distinct by event-log digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = 'distinct (spacetime, axes, sign, region, fault) seen'
REAL = ['spacetimes.py', 'shapes.py outlines', 'calculations.py '
        'NewtonsMethod', 'matplotlib patches']
STUB = ['drawing axes (recorder that fails at the k-th call)',
        'sys.settrace (an exception at a seeded bytecode instruction)']
ASSUMPTIONS = HIST_ASSUME[:1] + [
    'Coordinate tolerance 1e-6 on null curves (1e-4 where the code iterates '
    'Newton\'s method to 1e-6), 1 % for sampled extents.',
    'Black hole events within 2 % of the horizon (other than exactly on it) '
    'or 5 % of the singularity are not drawn; Schwarzschild events exactly '
    'on the horizon are judged on their time interval only.',
    'de Sitter events of four dimensions lie in the plotted plane (the code '
    'does not implement others).']
PROBES = ('flat', 'periodic', 'desitter', 'bh_ef', 'bh_s', 'ads', 'cone3d',
          'none', 'draw_failed', 'interrupted', 'alpha_failed', 'past',
          'crossing', 'singularity', 'horizon', 'space_plane', 'off_center',
          'alpha_none')
KINDS = ('flat', 'flat', 'periodic', 'periodic', 'ds', 'ds', 'ds', 'ef', 'ef',
         'ef', 'sch', 'sch', 'sch', 'ads')


def gen(rng, i):
    kind = rng.choice(KINDS)
    d = {'flat': rng.choice((2, 3, 3, 4)), 'ds': rng.choice((2, 3, 3, 4)),
         'periodic': rng.choice((2, 3, 3, 4)), 'ef': 2, 'sch': 2,
         'ads': rng.choice((2, 3))}[kind]
    par = rng.choice((.5, 1.0, 2.0))
    if kind == 'periodic':
        par = [rng.choice((0.0, 1.0, 2.0, 3.0)) for _ in range(d - 1)]
        par[rng.randrange(d - 1)] = rng.choice((1.0, 2.5))
        if rng.random() < .3:
            par = par[:1] * (d - 1) if par[0] else [1.5] * (d - 1)
    case = {'kind': kind, 'd': d, 'par': par}
    ev = []
    for _ in range(rng.choice((1, 2, 3, 4))):
        x = [rng.choice((0.0, rng.uniform(-1.5, 1.5)))]
        for _ in range(d - 1):
            x.append(rng.choice((0.0, rng.uniform(-1, 1),
                                 rng.uniform(-1, 1))))
        if kind == 'ds':
            s = math.sqrt(sum(v * v for v in x[1:]))
            r = par * rng.choice((.1, .5, .9, .99, 1.05, rng.random()))
            x[1:] = [v * r / s for v in x[1:]] if s else x[1:]
        elif kind in ('ef', 'sch'):
            r = par * rng.choice((rng.uniform(.05, .98),
                                  rng.uniform(1.02, 4), 1.02, 2.0, .5,
                                  rng.choice((.5, 1.0)) if kind == 'sch'
                                  else 1.0))
            x[1] = r * rng.choice((1, -1))
        ev.append(x)
    case['events'] = ev
    pl = []
    for _ in range(rng.choice((1, 2, 3, 4, 5))):
        three = d > 2 and rng.random() < .45
        dims = list(range(d))
        rng.shuffle(dims)
        dims = dims[:3 if three else 2]
        if rng.random() < .6 and 0 not in dims:
            dims[rng.randrange(len(dims))] = 0
        pl.append([dims, rng.choice((1, -1)), rng.choice((0, 0, 1, 2)),
                   rng.choice((-1, -1, 16, 33, 64))])
    if kind == 'periodic' and d == 4:
        for p in pl:             # 27 cones each
            if len(p[0]) == 3 and (p[3] < 0 or p[3] > 24):
                p[3] = rng.choice((16, 17, 24))
    case['plotters'] = pl
    w = {'cone': 12, 'fail': 2, 'int': 3, 'alpha': 1, 'size': 1}
    w = {k: v for k, v in w.items() if rng.random() < .8 or k == 'cone'}
    ops = []
    for _ in range(rng.randrange(2, 12)):
        k = rng.choices(list(w), list(w.values()))[0]
        op = [k, rng.randrange(5), rng.randrange(4),
              rng.choice((rng.uniform(.01, 3), rng.uniform(.01, 3),
                          rng.uniform(.01, .3), 1e-3, -.5, 0.0))]
        if k == 'int':
            op.append(int(2 ** rng.uniform(0, 12)))
        elif k == 'size':
            op.append(rng.choice((16, 24, 40, 128)))
        ops.append(op)
    case['ops'] = ops
    return case


class Axes(StubAxes):
    def add_patch(self, p):
        self.tick()
        self.arts.append(Art('patch', [], {}, p))
        return p

    add_artist = add_patch


class AlphaFailed(Exception):
    pass


# ------------------------------------------------------------ null geometry
class Flat:
    tol = 1e-9

    def __init__(self, d, periods):
        self.d = d
        p = periods or [0.0] * (d - 1)
        self.shift = [[-k, 0.0, k] if k > 0 else [0.0] for k in p]

    def exists(self, o):
        return True

    def implemented(self, dims):
        return True

    def images(self, o, dims):
        out = [[]]
        for k in dims:
            s = [0.0] if k == 0 else self.shift[k - 1]
            out = [x + [o[k] - v] for x in out for v in s]
        return out

    def area(self, o, t, dims):
        r = abs(t - o[0])
        return len(self.images(o, dims)) * r * r * (
            1 if 0 in dims else math.pi)

    def judge(self, fail, o, t, dims, pts, res):
        r = abs(t - o[0])
        lo, hi = min(t, o[0]), max(t, o[0])
        tol = 1e-6 * (1 + r + max(abs(v) for v in o) + sum(
            max(s) for s in self.shift))
        ims = self.images(o, dims)
        ta = dims.index(0) if 0 in dims else -1

        P = np.array(pts)
        D = np.zeros((len(ims), len(pts)))
        rad = np.abs(P[:, ta] - o[0]) if ta >= 0 else r
        for i, c in enumerate(ims):
            for k in range(len(dims)):
                if k != ta:
                    D[i] += (P[:, k] - c[k]) ** 2
        D = np.abs(np.sqrt(D) - rad)
        if ta >= 0:
            for q in pts:
                if not lo - tol <= q[ta] <= hi + tol:
                    fail('%s is outside of the time interval' % (q,))
        far = np.nonzero(~(D.min(axis=0) <= tol))[0]
        if len(far):
            fail('%s is not on the light cone' % (pts[int(far[0])],))
        for i, c in enumerate(ims):
            mine = P[D[i] <= tol]
            for k in range(len(dims)):
                want = (t,) if k == ta else (c[k] - r, c[k] + r)
                for w in want:
                    if not (np.abs(mine[:, k] - w) <= res * r + tol).any():
                        fail('coordinate %d does not reach %r' % (k, w))


class DeSitter:
    tol = 1e-6

    def __init__(self, d, a):
        self.d, self.a = d, a

    def exists(self, o):
        return sum(v * v for v in o[1:]) < self.a ** 2

    def implemented(self, dims):
        return len(dims) == 2 or 0 in dims

    def front(self, o, dt):
        """centre and half axes of the light front in the plane of o"""
        a = self.a
        r2 = sum(v * v for v in o[1:])
        r0 = math.sqrt(r2)
        C2 = math.cosh(dt / a) ** 2
        k = (a * a - r2) * C2 + r2
        xc = r0 * a * a / k
        B2 = a * a - xc * xc - (a * a - r0 * xc) ** 2 / ((a * a - r2) * C2)
        x1 = a * math.tanh(math.atanh(r0 / a) + abs(dt) / a)
        return xc, x1 - xc, math.sqrt(max(B2, 0.0))

    def support(self, o, dt, k, sgn):
        """extreme of coordinate k (sign sgn) of the light front"""
        r0 = math.sqrt(sum(v * v for v in o[1:]))
        xc, A, B = self.front(o, dt)
        e = o[k] / r0 if r0 else 1.0
        return xc * e + sgn * math.sqrt(A * A * e * e + B * B * (1 - e * e))

    def null(self, o, t, x):
        """the invariant of the hyperboloid, scaled to coordinates"""
        a = self.a
        rx, ry = (sum(v * v for v in y) for y in (o[1:], x))
        if ry > a * a * (1 + 1e-6):
            return math.inf
        dot = sum(v * w for v, w in zip(o[1:], x))
        q = dot / a / a + math.sqrt(max(0, 1 - rx / a / a) * max(
            0, 1 - ry / a / a)) * math.cosh((t - o[0]) / a) - 1
        return abs(q)

    def area(self, o, t, dims):
        if 0 not in dims:
            _, A, B = self.front(o, t - o[0])
            return math.pi * A * B
        k = dims[1 - dims.index(0)]
        h = (t - o[0]) / 40
        w = [self.support(o, i * h, k, 1) - self.support(o, i * h, k, -1)
             for i in range(41)]
        return abs(h) * (sum(w) - (w[0] + w[-1]) / 2)

    def judge(self, fail, o, t, dims, pts, res):
        lo, hi = min(t, o[0]), max(t, o[0])
        ta = dims.index(0) if 0 in dims else -1
        a = self.a
        for q in pts:
            tq = q[ta] if ta >= 0 else t
            if not lo - 1e-9 <= tq <= hi + 1e-9:
                fail('%s is outside of the time interval' % (q,))
            if ta >= 0 and len(dims) == 2 and self.d > 2:
                k = dims[1 - ta]     # projected outline
                w = [self.support(o, tq - o[0], k, s) for s in (1, -1)]
                if min(abs(q[1 - ta] - v) for v in w) > max(
                        .01 * (w[0] - w[1]), 1e-6 * a):
                    fail('%s is not on the projected light front %s' % (q, w))
                continue
            x = [0.0] * (self.d - 1)
            for k, v in zip(dims, q):
                if k:
                    x[k - 1] = v
            if self.null(o, tq, x) > 1e-6:
                fail('%s is not on the light cone' % (q,))
        dt = t - o[0]
        for j, k in enumerate(dims):
            if k == 0:
                if not any(abs(q[j] - t) < 1e-9 for q in pts):
                    fail('the time slice is not reached')
                continue
            for s in (1, -1):
                w = self.support(o, dt, k, s)
                wide = w - self.support(o, dt, k, -s)
                end = [q for q in pts if ta < 0 or abs(q[ta] - t) < 1e-9]
                if not any(abs(q[j] - w) <= .01 * abs(wide) + res * abs(wide)
                           + 1e-6 * a for q in end):
                    fail('coordinate %d does not reach %r' % (k, w))


class BlackHole:
    tol = 1e-4

    def __init__(self, rs, schwarz):
        self.rs, self.schwarz = rs, schwarz

    def exists(self, o):
        return True

    def implemented(self, dims):
        return True

    def area(self, o, t, dims):
        """of the outline drawn with many samples"""
        rs, r0, t0 = self.rs, abs(o[1]), o[0]
        fin, fout = self.curves(o)
        if r0 == rs:
            if self.schwarz:
                return None
            u = t - t0
            return u * u / 2 if u < rs else rs * rs / 2 + rs * (u - rs)

        def ray(f, r):
            if r is None:
                return None
            return [(x, f(x)) for x in (r0 + (r - r0) * (
                1 - (1 - i / 200) ** 3) for i in range(201))]
        inside = r0 < rs
        a, b = (0.0, rs * (1 - 1e-13)) if inside else (
            rs * (1 + 1e-13), 1e4)
        more = 0.0
        if not self.schwarz:
            if inside:
                t = min(t, fout(0.0))
            one = ray(fout, self.root(fout, t, a, b) if t != fout(0.0) else
                      0.0)
            r_in = r0 + t0 - t
            two = [(r_in, t)] if r_in >= 0 else [(0.0, t), (0.0, t0 + r0)]
        elif inside and t > t0:
            one, two = ray(fout, 0.0), ray(fin, 0.0)[::-1]
        else:
            if inside:
                return None      # crosses the horizon
            one = ray(fout, self.root(fout, t, a, b))
            two = ray(fin, self.root(fin, t, a, b))
            two = two and two[::-1]
            if t > max(t0, fin(0.0)):
                r = self.root(fin, t, 0.0, rs * (1 - 1e-13))
                if r is None:
                    return None
                h = r / 200
                more = sum(t - fin((i + .5) * h) for i in range(200)) * h
        if not one or not two:
            return None
        return abs(area(one + two)) + more

    @staticmethod
    def root(f, t, x, y):
        fx, fy = f(x) - t, f(y) - t
        if fx * fy > 0:
            return None
        for _ in range(200):
            m = (x + y) / 2
            if (f(m) - t) * fx > 0:
                x = m
            else:
                y = m
        return x

    def horizon(self, fail, o, t, dims, pts):
        """An outgoing ray stays on the horizon."""
        rs, t0, ta = self.rs, o[0], dims.index(0)
        sg = math.copysign(1, o[1])
        P = [(q[ta], q[1 - ta] * sg) for q in pts]
        lo, hi = min(t, t0) - 1e-9, max(t, t0) + 1e-9
        for tq, r in P:
            if not lo <= tq <= hi:
                fail('%s is outside of the time interval' % ((tq, r),))
            if self.schwarz:
                continue
            if r < -1e-9:
                fail('%s lies on the other side' % ((tq, r),))
            if abs(r - rs) > 1e-9 and abs(tq + r - rs - t0) > 1e-9 and \
                    abs(tq - t) > 1e-9 and r > 1e-9:
                fail('%s is not on a light ray' % ((tq, r),))
        if self.schwarz:
            return
        r_in = rs - (t - t0)
        want = [(t0, rs), (t, rs)] + ([(t, r_in)] if r_in >= 0 else [
            (t, 0.0), (t0 + rs, 0.0)])
        for w in want:
            if not any(abs(q[0] - w[0]) + abs(q[1] - w[1]) <= 1e-9
                       for q in P):
                fail('the outline does not reach %s' % (w,))

    def curves(self, o):
        rs, r0, t0 = self.rs, abs(o[1]), o[0]

        def ln(r):
            if r == rs:
                return -math.inf
            return rs * math.log(abs((r - rs) / (r0 - rs)))
        if self.schwarz:
            return (lambda r: t0 + r0 - r - ln(r),
                    lambda r: t0 + r - r0 + ln(r))
        return (lambda r: t0 + r0 - r, lambda r: t0 + r - r0 + 2 * ln(r))

    def judge(self, fail, o, t, dims, pts, res):
        rs, r0 = self.rs, abs(o[1])
        sg = math.copysign(1, o[1])
        fin, fout = self.curves(o)
        ta = dims.index(0)
        lo, hi = min(t, o[0]), max(t, o[0])
        inside = r0 < rs
        at = []
        if r0 == rs:
            return self.horizon(fail, o, t, dims, pts)
        low = math.inf     # where a ray reaches the singularity
        if self.schwarz:
            low = float(fin(0.0))
            if inside and t > o[0]:
                high = float(fout(0.0))
            else:
                high = math.inf
        for q in pts:
            tq, r = q[ta], q[1 - ta] * sg
            if not (math.isfinite(tq) and math.isfinite(r)):
                fail('%s is not finite' % (q,))
            if r < -1e-9:
                fail('%s lies on the other side' % (q,))
            r = max(r, 0.0)
            if not (self.schwarz and (inside or r < rs * (1 + 1e-9))) \
                    and not lo - 1e-3 <= tq <= hi + 1e-3:
                fail('%s is outside of the time interval' % (q,))
            on_slice = abs(tq - t) <= 1e-3
            if on_slice:
                at.append(r)
            # distance to the null curves, in t or in r
            d = min(abs(tq - fin(r)), abs(tq - fout(r)))
            for h in (1e-5, -1e-5):
                if r + h > 0 and abs(r + h - rs) > 1e-12:
                    for f in (fin, fout):
                        if (f(r) - tq) * (f(r + h) - tq) <= 0:
                            d = 0.0
            if d > self.tol and r > 1e-9 and not on_slice:
                fail('%s is not on a light ray' % (q,))
            if self.schwarz and r <= 1e-9 and not (
                    min(abs(tq - low), abs(tq - high)) <= 1e-3 if inside
                    else low - 1e-3 <= tq <= t + 1e-3):
                fail('%s is outside of the light cone' % (q,))
            if self.schwarz and not inside and r < rs * (1 - 1e-9) and (
                    t < o[0] or t < low - 1e-3):
                fail('%s lies inside of the horizon' % (q,))
        if inside and self.schwarz and t > o[0]:
            for name, v in (('ingoing', low), ('outgoing', high)):
                if not any(abs(q[ta] - v) <= 1e-3 and abs(q[1 - ta]) <= 1e-9
                           for q in pts):
                    fail('the %s ray does not reach the singularity at %r' % (
                        name, v))
            return
        if not at and not inside:
            fail('the time slice is not reached')
        # the ends of both rays on the slice
        ends = []
        a, b = (rs * (1 + 1e-13), 1e4) if not inside else (
            0.0, rs * (1 - 1e-13))
        for f, name in ((fin, 'ingoing'), (fout, 'outgoing')):
            if f is fin and not self.schwarz:
                if r0 - (t - o[0]) >= 0:
                    ends.append((name, r0 - (t - o[0])))
                continue
            if inside and self.schwarz and f is fin:
                ends.append((name, self.root(f, t, rs * (1 + 1e-13), 1e4)))
            else:
                ends.append((name, self.root(f, t, a, b)))
        if self.schwarz and not inside and t > max(low, o[0]):
            ends.append(('crossing', self.root(fin, t, 0.0,
                                               rs * (1 - 1e-13))))
        for name, r in ends:
            if r is not None and not any(abs(v - r) <= 1e-3 * (1 + r) for v in at):
                fail('the %s ray does not reach %r on the slice %r' % (
                    name, r, t))


def build(ctx, case):
    st = ctx.lib.spacetimes
    k, d, par = case['kind'], case['d'], case['par']
    if k == 'flat':
        return st.FlatSpacetime(d), Flat(d, None)
    if k == 'periodic':
        p = tuple(par)
        if len(set(p)) == 1 and len(p) > 1:
            return st.FlatSpacetime(d, p[0]), Flat(d, p)
        return st.FlatSpacetime(d, p), Flat(d, p)
    if k == 'ds':
        return st.deSitterSpacetime(d, par), DeSitter(d, par)
    if k == 'ads':
        return st.AntideSitterSpacetime(d, par), None
    s = k == 'sch'
    return st.BlackHoleSpacetime(2, par, 'Schwarzschild' if s else
                                 'Eddington-Finkelstein'), BlackHole(par, s)


def run(ctx, case):
    st, sh = ctx.lib.spacetimes, ctx.lib.shapes
    sizes = st.default_samplingsize, sh.default_samplingsize
    ctx.drawn = 0
    try:
        body(ctx, case, st, sh)
    finally:
        st.default_samplingsize, sh.default_samplingsize = sizes


def body(ctx, case, st, sh):
    S, geo = ctx.call('Spacetime', build, ctx, case)
    kind = case['kind']
    ev = [np.array(x, dtype=float) for x in case['events']]
    pls = []
    for dims, sign, fa, size in case['plotters']:
        p = {'dims': dims, 'sign': sign, 'fa': fa, 'size': size,
             'ax': Axes(ctx, len(dims) == 3), 'alphafail': False}
        p['default'] = st.default_samplingsize
        params = {'alpha': .25, 'edgecolor': 'red'}
        kw = {}
        if fa:
            def alpha(r, p=p):
                if p['alphafail']:
                    raise AlphaFailed('injected')
                return alpha_of(p['fa'], r)
            kw['dynamicAlpha'] = alpha
        if size != -1:
            kw['samplingsize'] = size
        p['fn'] = ctx.call('ConePlotter', S.ConePlotter, list(dims), params,
                           float(sign), p['ax'], **kw)
        pls.append(p)
    if not pls or not ev:
        return

    def cone(p, o, t):
        """draws; returns (result, new artists)"""
        before = list(o)
        n = len(p['ax'].arts)
        got = p['fn'](o, t)
        ctx.eq(list(o), before, 'origin-changed', 'the event coordinates')
        return got, p['ax'].arts[n:]

    def judge(p, x, t, got, arts):
        dims = p['dims']
        r = p['sign'] * (t - x[0])
        what = '%s cone of %s at %r on axes %s (sign %d)' % (
            kind, x, t, dims, p['sign'])
        al = alpha_of(p['fa'], r) if p['fa'] else .25
        if r <= 0 or al <= 0 or not geo.exists(x):
            ctx.check(got is None and not arts, 'cone:drawn', lambda: (
                'a %s was drawn' % what))
            ctx.probes['none'] += 1
            ctx.probes['alpha_none'] += al <= 0 < r
            return
        ctx.check(got is not None and arts, 'cone:missing', lambda: (
            'no %s was drawn' % what))

        def fail(why):
            ctx.fail('cone:' + kind, '%s: %s' % (what, why))
        n = p['size'] if p['size'] > 0 else p['default']
        n = min(n, sh.default_samplingsize) if kind == 'ds' else n
        res = 1 - math.cos(math.pi / (n // 2 * 2)) + 2.5 / n ** 2 + (
            0 if n % 2 == 0 and len(dims) == 2 else 12.0 / n ** 2)
        if len(dims) == 3:
            pts = [q for a in arts for q in a.pts]
            back = [q for XYZ in got for q in surf_pts(*XYZ)]
            ctx.check(sorted(pts) == sorted(back), 'cone:returned',
                      lambda: what + ' returns another surface')
            for a in arts:
                ctx.check(abs(a.props.get('alpha', 1) - al) < 1e-9,
                          'cone:alpha', lambda: '%s has opacity %r, expected '
                          '%r' % (what, a.props.get('alpha'), al))
        else:
            ctx.check(len(arts) == 1 and arts[0].obj is got, 'cone:returned',
                      lambda: what + ' returns another patch')
            if not hasattr(got, 'get_xy'):
                raise Unknown('patch')
            pts = [tuple(q) for q in got.get_xy().tolist()
                   if all(v == v for v in q)]
            nan = [q for q in got.get_xy().tolist()
                   if (q[0] != q[0]) != (q[1] != q[1])]
            ctx.check(not nan, 'cone:nan', what)
            ctx.check(abs(got.get_alpha() - al) < 1e-9, 'cone:alpha',
                      lambda: '%s has opacity %r, expected %r' % (
                          what, got.get_alpha(), al))
        for q in pts:
            if not all(math.isfinite(v) for v in q):
                fail('%s is not finite' % (q,))
        ctx.check(len(pts) > 2, 'cone:empty', what)
        geo.judge(fail, x, t, dims, pts, res)
        want = geo.area(x, t, dims) if len(dims) == 2 else None
        if want is not None:
            parts = [[]]
            rows = got.get_xy().tolist()
            if rows[-1] == rows[0]:
                rows.pop()       # closes the last part
            for q in rows:
                if q[0] != q[0]:
                    parts.append([])
                else:
                    parts[-1].append(q)
            have = sum(abs(area(c)) for c in parts if len(c) > 2)
            if abs(have - want) > (.03 + 25 / n ** 2) * want + 1e-5:
                fail('the outline encloses %r, expected %r' % (have, want))
        ctx.drawn += 1
        ctx.probes[{'flat': 'flat', 'periodic': 'periodic', 'ds': 'desitter',
                    'ef': 'bh_ef', 'sch': 'bh_s'}[kind]] += 1
        ctx.probes['past'] += p['sign'] < 0
        ctx.probes['cone3d'] += len(dims) == 3
        ctx.probes['space_plane'] += 0 not in dims
        ctx.probes['off_center'] += any(x[1:])
        if kind in ('ef', 'sch'):
            ctx.probes['singularity'] += any(
                abs(q[1 - dims.index(0)]) < 1e-12 for q in pts)
            rs = case['par']
            ctx.probes['horizon'] += abs(x[1]) == rs
            ctx.probes['crossing'] += len({
                abs(q[1 - dims.index(0)]) < rs for q in pts}) > 1

    for k, op in enumerate(case['ops']):
        ctx.step = k
        ctx.stats['steps'] += 1
        p = pls[op[1] % len(pls)]
        i = op[2] % len(ev)
        x = case['events'][i]
        t = x[0] + p['sign'] * op[3]
        what = op[0]
        ctx.stats['op:' + what] += 1
        fault = ''
        ax = p['ax']
        if what == 'size':
            st.default_samplingsize = sh.default_samplingsize = op[4]
            ctx.log('size', op[4])
            continue
        if kind == 'ds' and case['d'] == 4:
            # only events inside the plotted plane are implemented
            x = [v if j in p['dims'] or j == 0 else 0.0
                 for j, v in enumerate(x)]
            if len(p['dims']) == 2 and 0 in p['dims']:
                continue
        o = ev[i] if x is case['events'][i] else np.array(x)
        if kind == 'ads' or not geo.implemented(p['dims']):
            try:
                got, arts = cone(p, o, t)
            except NotImplementedError:
                ctx.probes['ads'] += 1
            except Exception as e:
                ctx.fail('cone:exception', 'cone raised %r' % e)
            else:
                ctx.check(got is None and not arts, 'cone:accepted',
                          'a cone that is not implemented was drawn')
            ctx.log('not implemented')
            continue
        tr = None
        ax.fail_at, ax.calls, ax.fired = 0, 0, False
        if what == 'fail':
            ax.fail_at = 1
        elif what == 'alpha':
            p['alphafail'] = True
        elif what == 'int':
            tr = seams.LineTracer(op[4], opcodes=True)
        try:
            if tr:
                with tr:
                    got, arts = cone(p, o, t)
            else:
                got, arts = cone(p, o, t)
        except seams.Injected:
            ctx.faults['drawing_failed'] += 1
            ctx.probes['draw_failed'] += 1
            fault = 'draw'
        except AlphaFailed:
            ctx.faults['opacity_failed'] += 1
            ctx.probes['alpha_failed'] += 1
            fault = 'alpha'
        except seams.InjectedInterrupt:
            ctx.faults['interrupt'] += 1
            ctx.probes['interrupted'] += 1
            fault = 'int'
        except Unknown:
            ctx.stats['undecided_plots'] += 1
        except Exception as e:
            if not (tr and tr.fired):
                from ..engine import where
                ctx.fail('raises:cone:%s' % type(e).__name__,
                         '%s cone of %s at %r on axes %s raised %r [%s]' % (
                             kind, x, t, p['dims'], e, where(e)))
        else:
            try:
                judge(p, x, t, got, arts)
            except Unknown:
                ctx.stats['undecided_plots'] += 1
        ax.fail_at = 0
        p['alphafail'] = False
        ctx.eq([list(map(float, e)) for e in ev], case['events'],
               'origin-changed', 'the event coordinates')
        region = '' if kind not in ('ef', 'sch') else \
            abs(x[1]) < case['par']
        ctx.state((kind, case['d'], tuple(p['dims']), p['sign'], region,
                   p['fa'], fault))
        ctx.log(what, fault, p['dims'], t)


def alpha_of(fa, r):
    return 1 / (1 + r) if fa == 1 else max(0.0, .5 - r / 4)


def nontrivial(ctx):
    return ctx.drawn >= 3
