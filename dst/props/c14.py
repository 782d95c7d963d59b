import copy
import math

from ..engine import Violation
from ..model import Poset, bits
from ..seams import Injected, mix
from .. import shapemodel
from .common import *
ID = 'C14'
COUNT = {'quick': 250000, 'thorough': 1500000}
CAP = {'quick': 50, 'thorough': 1500}
MIN_RUNS = 300
LISTS = ('ops', 'coords')
RULE = ('One run = one seeded history of up to four plotters (static and '
        'dynamic, 2D and 3D) over shared events and axes that draw frames at '
        'times in any order, while the axes raise at seeded drawing calls, '
        'the default colours, the caller\'s parameter dictionaries and the '
        'link caches change. Every frame is compared with the artists '
        'computed from the events, the parameters and the time, and with '
        'the first frame of a new plotter; frames returned earlier must '
        'keep their content. Non-trivial: a frame with an artist was checked '
        'after another frame; distinct by event-log digest.')
SIMTIME = 'simulated time = plot time swept by the frames (stats: swept time)'
STATE_MEASURE = 'distinct (frame kind, visible artists) combinations'
REAL = ['causetplotting.py', 'spacetimes.py ConePlotter', 'shapes.py surfaces',
        'colorschemes.py', 'causetevent.py', 'embeddedcauset.py',
        'matplotlib patches; matplotlib axes and artists in one run of eight']
STUB = ['matplotlib Axes (recording and failing) in seven runs of eight',
        'CausetEvent.__hash__ (seeded)']
ASSUMPTIONS = HIST_ASSUME[:1] + [
    'The axes raise before they change anything.',
    'The causal order and the coordinates do not change between frames of '
    'one plotter; the link caches do.',
    'The outline of cones is judged in flat spacetime only, elsewhere a '
    'frame is compared with that of a new plotter.',
    'At most 9 events, cone sampling size 9.']
PROBES = ('static', 'dynamic', '3d', 'position', 'cones', 'partial_link',
          'faded_event', 'fault_then_frame', 'colors_changed',
          'caller_mutates', 'unlinked', 'real_axes', 'curved', 'axislim',
          'periodic', 'gca', 'one_shot', 'collinear', 'linkgap', 'gap',
          'negative_depth', 'cone_drawn', 'shape_keyword',
          'dims_rejected', 'other_spacetime')
TOL = 1e-7
FADES = ('linear', 'exponential', 'intensity')
DEFAULTS = {'links': 'cs:blue', 'linksedge': 'cs:blue',
            'linksface': 'cs:cyan', 'eventsedge': 'cs:black',
            'eventsface': 'cs:core', 'conesedge': 'cs:yellow',
            'conesface': 'cs:yellow'}
CS = ('cs:red', 'cs:blue', 'cs:lime', 'cs:core', 'cs:gray', 'tab:green',
      'black', 'cs:orange', '#102030')


# ------------------------------------------------------------------ generator
def gen_params(rng, dim):
    p = {}
    if dim >= 3 and rng.random() < .4:
        p['dims'] = rng.sample(range(dim), 3)
    elif rng.random() < .7:
        p['dims'] = rng.sample(range(dim), 2)
    if rng.random() < .6:
        p['timedepth'] = rng.choice((.5, 1., 2., 3., 4.)) * \
            (-1 if rng.random() < .3 else 1)
        if rng.random() < .8:
            p['timefade'] = rng.choice(FADES)
    for k in ('links', 'events', 'labels'):
        x = rng.random()
        if x < .2:
            p[k] = False
        elif x < .4:
            p[k] = True
        elif x < .6:
            d = {}
            if k == 'links':
                for a, v in (('linewidth', rng.choice((1., .5, 3.))),
                             ('color', rng.choice(CS)),
                             ('linestyle', rng.choice(('--', ':'))),
                             ('markersize', rng.choice((1., 9.))),
                             ('markerfacecolor', rng.choice(CS)),
                             ('alpha', .5)):
                    if rng.random() < .4:
                        d[a] = v
            elif k == 'events':
                for a, v in (('marker', rng.choice('sd*')),
                             ('markersize', rng.choice((2., 12.))),
                             ('markeredgecolor', rng.choice(CS)),
                             ('alpha', rng.choice((.25, .5, .75)))):
                    if rng.random() < .4:
                        d[a] = v
            else:
                for a, v in (('fontsize', rng.choice((7, 20))),
                             ('color', rng.choice(CS)),
                             ('verticalalignment', 'bottom')):
                    if rng.random() < .5:
                        d[a] = v
            if d:
                p[k] = d
    for k in ('pastcones', 'futurecones'):
        x = rng.random()
        if x < .25:
            p[k] = True
        elif x < .45:
            p[k] = {'alpha': rng.choice((.125, .3, .5, 1.))}
            if rng.random() < .4 and len(p.get('dims', (0, 1))) == 2:
                p[k]['edgecolor'] = rng.choice(CS)
        elif x < .5:
            p[k] = False
    if rng.random() < .5:
        p['conetimefade'] = rng.choice(FADES + ('',))
        if rng.random() < .8:
            p['conetimedepth'] = rng.choice((0., .5, 1., 2., -2., 4.))
    if rng.random() < .15:
        p['linkgapsize'] = rng.choice((2., 5.))
    if rng.random() < .1:
        p['aspect'] = rng.choice((['auto'], ['equal', 'datalim']))
    x = rng.random()
    if x < .1:
        p['axislim'] = 'shape'
    elif x < .2:
        p['axislim'] = {k: [-float(rng.randrange(1, 5)),
                            float(rng.randrange(1, 5))]
                        for k in ('xlim', 'ylim', 'zlim')}
    return p


def gen(rng, i):
    kind = rng.choice(('embedded', 'embedded', 'list', 'list', 'position'))
    st = rng.choice(('flat', 'flat', 'flat', 'periodic', 'ds', 'ads', 'ef',
                     'schwarz')) if kind != 'position' else 'flat'
    dim = 2 if st in ('ef', 'schwarz') else rng.choice((2, 2, 3, 3, 4))
    if st in ('ds', 'ads') and dim > 3:
        dim = 3
    if kind == 'position':
        dim = 2
    bundle = kind != 'position' and rng.random() < .08
    if bundle:
        st, dim = 'flat', rng.choice((3, 4, 4))
    scale = rng.choice((2, 4, 8))
    n = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 9))
    coords, seen = [], set()
    line = None
    if rng.random() < .3:                      # events on common lines
        line = [rng.randrange(-1, 2) for _ in range(dim)] \
            if rng.random() < .4 else None
        if not line or not any(line):
            line = [0] * dim
            line[rng.randrange(dim)] = 1
    for _ in range(n):
        x = [rng.randrange(-2 * scale, 2 * scale + 1) * (8 // scale)
             for _ in range(dim)]
        if coords and rng.random() < .25:      # collinear triples
            a = rng.choice(coords)
            b = rng.choice(coords)
            if all((u + v) % 2 == 0 for u, v in zip(a, b)):
                x = [(u + v) // 2 for u, v in zip(a, b)]
        if coords and line and rng.random() < .7:
            k = rng.randrange(-4, 5)
            x = [u + 2 * k * v for u, v in zip(rng.choice(coords), line)]
        if tuple(x) not in seen:
            seen.add(tuple(x))
            coords.append(x)
    if bundle:
        # unrelated events that project to points of a link
        hid = rng.randrange(1, dim)
        far = [1] + [0 if k == hid or rng.random() < .7 else
                     rng.choice((-1, 1)) for k in range(1, dim)]
        if sum(map(abs, far)) > 2:
            far[1 if hid > 1 else 2] = 0
        b = [rng.randrange(-8, 9) for _ in range(dim)]
        coords = [b, [u + 16 * v for u, v in zip(b, far)]] + [
            [u + 2 * k * v for u, v in zip(b, far)]
            for k in rng.sample(range(1, 8), rng.randrange(1, 6))]
        for x in coords[2:]:
            x[hid] += rng.choice((-1, 1)) * rng.randrange(40, 90)
        rng.shuffle(coords)
    ops = []
    nt = [rng.randrange(-20, 21) for _ in range(5)]

    def time():
        t = [rng.choice(nt) / 8. if rng.random() < .8
             else rng.randrange(-24, 25) / 8. for _ in range(2)]
        return [rng.randrange(4), t[0],
                t[1] if rng.random() < .5 else t[0]]

    def plotter():
        share = rng.randrange(4) if rng.random() < .3 else -1
        return ['plotter', params(), rng.randrange(1 << 10), share]

    def params():
        p = gen_params(rng, dim)
        if bundle and rng.random() < .6:
            p['dims'] = [k for k in range(dim) if k != hid]
            rng.shuffle(p['dims'])
            p['linkgapsize'] = 2.
            p.pop('links', 0)
            if rng.random() < .7:
                p.pop('timedepth', 0)
        return p
    ops.append(plotter())
    for _ in range(rng.randrange(2, 14)):
        x = rng.random()
        if x < .13:
            ops.append(plotter())
        elif x < .21:
            ops.append(['colors', rng.randrange(3),
                        rng.choice(sorted(DEFAULTS)), rng.choice(CS)])
        elif x < .28:
            ops.append(['mutate', rng.randrange(4), rng.randrange(5)])
        elif x < .35:
            ops.append(['unlink', rng.randrange(1 << 9)])
        elif x < .38:
            ops.append(['link'])
        elif x < .39:
            ops.append(['baddims', [rng.randrange(dim) for _ in range(
                rng.choice((0, 1, 4, 4, 5)))], rng.randrange(1 << 10)])
        elif x < .43:
            ops.append(['plot', params(), rng.randrange(1 << 10),
                        time()])
        elif x < .56:
            ops.append(['fault', rng.randrange(4), time(),
                        1 + int(2 ** (rng.random() * 5))])
        else:
            ops.append(['frame', rng.randrange(4), time()])
    return {'kind': kind, 'st': st, 'dim': dim, 'coords': coords,
            'par': rng.randrange(1 << 8), 'ops': ops,
            'shape': shapemodel.gen_shape(rng, dim)
            if rng.random() < .6 else None,
            'past': [rng.randrange(1 << 9) & rng.randrange(1 << 9)
                     for _ in range(9)],
            'axes': 'real' if i % 8 == 5 else 'stub'}


# ----------------------------------------------------------------- stub axes
class Unknown(BaseException):
    """A drawing method the stub does not understand: use real axes."""


class Art:
    """What one artist shows."""
    __slots__ = ('kind', 'pts', 'props', 'obj', 'grid')

    def __init__(self, kind, pts, props, obj=None):
        self.kind, self.pts, self.props, self.obj = kind, pts, props, obj
        self.grid = None


def pts_of(arrays):
    cols = [[float(v) for v in a] for a in arrays]
    if len({len(c) for c in cols}) != 1:
        raise Unknown('ragged data')
    return [tuple(r) for r in zip(*cols)]


class StubArtist:
    def __init__(self, art):
        self.art = art


class StubAxes:
    def __init__(self, ctx, is3d):
        self.ctx, self.is3d = ctx, is3d
        self.arts = []
        self.limits = {}
        self.aspect = None
        self.off = False
        self.fail_at = 0
        self.calls = 0
        self.fired = False

    def tick(self):
        self.calls += 1
        if self.calls == self.fail_at:
            self.fired = True
            raise Injected('injected drawing failure')

    def plot(self, *args, **kw):
        from matplotlib.cbook import normalize_kwargs
        from matplotlib.lines import Line2D
        self.tick()
        n = 3 if self.is3d else 2
        if 'zs' in kw:
            args = args + (kw.pop('zs'),)
        if len(args) != n or any(isinstance(a, str) for a in args):
            raise Unknown('plot')
        for k in ('zdir', 'scalex', 'scaley', 'data'):
            if k in kw:
                raise Unknown(k)
        a = Art('line', pts_of(args),
                copy.deepcopy(normalize_kwargs(kw, Line2D)))
        a.obj = StubArtist(a)
        self.arts.append(a)
        return [a.obj]

    plot3D = plot

    def text(self, *args, **kw):
        from matplotlib.cbook import normalize_kwargs
        from matplotlib.text import Text
        self.tick()
        n = 3 if self.is3d else 2
        if len(args) != n + 1:
            raise Unknown('text')
        a = Art('text', [tuple(float(v) for v in args[:n])],
                copy.deepcopy(normalize_kwargs(kw, Text)))
        a.props['text'] = args[n]
        a.obj = StubArtist(a)
        self.arts.append(a)
        return a.obj

    def add_patch(self, p):
        self.tick()
        self.arts.append(patch_art(p))
        return p

    def plot_surface(self, X, Y, Z, **kw):
        self.tick()
        a = Art('surface', surf_pts(X, Y, Z), dict(kw))
        a.grid = X, Y, Z
        a.obj = StubArtist(a)
        self.arts.append(a)
        return a.obj

    def set(self, **kw):
        self.tick()
        for k, v in kw.items():
            if k not in ('xlim', 'ylim', 'zlim'):
                raise Unknown('set ' + k)
            self.limits[k] = tuple(float(x) for x in v)

    def set_xlim(self, *a, **k):
        self._lim('xlim', a, k)

    def set_ylim(self, *a, **k):
        self._lim('ylim', a, k)

    def set_zlim(self, *a, **k):
        self._lim('zlim', a, k)

    def _lim(self, name, a, k):
        self.tick()
        if k or not a:
            raise Unknown(name)
        self.limits[name] = tuple(float(x) for x in (
            a[0] if len(a) == 1 else a))

    def set_aspect(self, *a, **k):
        self.tick()
        if k:
            a = a + tuple(k[x] for x in ('adjustable', 'anchor') if x in k)
        self.aspect = [x for x in a]

    def set_axis_off(self):
        self.off = True

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unknown(name)


def rows_of(v):
    return [tuple(float(x) for x in r) for r in v if all(x == x for x in r)]


def patch_art(p):
    return Art('patch', rows_of(p.get_xy()),
               {'alpha': p.get_alpha(), 'edgecolor': p.get_edgecolor(),
                'facecolor': p.get_facecolor()}, p)


def surf_pts(X, Y, Z):
    import numpy as np
    a = np.broadcast_arrays(np.asarray(X, float), np.asarray(Y, float),
                            np.asarray(Z, float))
    return [tuple(r) for r in np.stack([x.ravel() for x in a], 1).tolist()]


class RealAxes:
    """The same view of real matplotlib axes."""

    def __init__(self, ctx, is3d, plt):
        self.ctx, self.is3d = ctx, is3d
        fig = plt.figure()
        self.ax = fig.add_subplot(projection='3d') if is3d else \
            fig.add_subplot()
        self.keep = []
        self.seen = set()
        self.fail_at = self.calls = 0
        self.fired = False
        for name in ('plot', 'text', 'add_patch', 'plot_surface', 'set',
                     'set_aspect'):
            if hasattr(self.ax, name):
                self.wrap(name, getattr(self.ax, name))
        self.off = False

    def wrap(self, name, fn):
        def call(*a, **k):
            self.calls += 1
            if self.calls == self.fail_at:
                self.fired = True
                raise Injected('injected drawing failure')
            return fn(*a, **k)
        setattr(self.ax, name, call)

    def new(self):
        """artists added since the last call"""
        out = []
        for o in list(self.ax.lines) + list(self.ax.texts) + \
                list(self.ax.patches) + list(self.ax.collections):
            if id(o) in self.seen:
                continue
            self.seen.add(id(o))
            self.keep.append(o)
            out.append(o)
        return out

    def take(self):
        return [real_art(o, self.is3d) for o in self.new()]

    @property
    def limits(self):
        d = {'xlim': self.ax.get_xlim(), 'ylim': self.ax.get_ylim()}
        if self.is3d:
            d['zlim'] = self.ax.get_zlim()
        return {k: tuple(float(x) for x in v) for k, v in d.items()}

    @property
    def aspect(self):
        return None


def real_art(o, is3d):
    from matplotlib.lines import Line2D
    from matplotlib.patches import Patch
    from matplotlib.text import Text
    if isinstance(o, Line2D):
        pts = pts_of(o.get_data_3d() if is3d else o.get_data())
        return Art('line', pts, {
            'alpha': o.get_alpha(), 'linewidth': o.get_linewidth(),
            'linestyle': o.get_linestyle(), 'marker': o.get_marker(),
            'markersize': o.get_markersize(), 'color': o.get_color(),
            'markevery': o.get_markevery(),
            'markeredgecolor': o.get_markeredgecolor(),
            'markerfacecolor': o.get_markerfacecolor()}, o)
    if isinstance(o, Text):
        pos = o.get_position_3d() if is3d else o.get_position()
        return Art('text', [tuple(float(v) for v in pos)], {
            'text': o.get_text(), 'color': o.get_color(),
            'fontsize': o.get_fontsize(),
            'verticalalignment': o.get_verticalalignment(),
            'horizontalalignment': o.get_horizontalalignment()}, o)
    if isinstance(o, Patch):
        return patch_art(o)
    return Art('surface', [], {'alpha': o.get_alpha()}, o)


# --------------------------------------------------------------------- model
def fade(name, dim, depth, amax):
    def f(v):
        s = (depth > 0) - (depth < 0)
        if s * v < 0:
            return 0.0
        if name == 'linear':
            return amax * (1 - v / depth) if depth else -1.0
        if name == 'exponential':
            return amax * math.exp(-v / depth) if depth else 0.0
        return amax / (max(v, 0.0) + 1) ** (dim - 1)
    return f


def close(a, b):
    return abs(a - b) <= TOL * (1 + abs(b))


def same_pt(a, b):
    return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))


def on_segment(p, a, b):
    d = [y - x for x, y in zip(a, b)]
    e = [y - x for x, y in zip(a, p)]
    l2 = sum(v * v for v in d)
    if l2 == 0:
        return same_pt(p, a)
    s = sum(u * v for u, v in zip(d, e)) / l2
    return -TOL <= s <= 1 + TOL and \
        all(close(x + s * v, q) for x, v, q in zip(a, d, p))


class Model:
    """Expected artists of one plotter."""

    def __init__(self, W, params, scheme, defaults, idx, listed):
        self.W, self.p = W, params
        self.idx = idx            # events plotted (indices into W.xy)
        self.listed = listed      # handles are in this order
        self.dims = params.get('dims', [1, 0])
        self.is3d = len(self.dims) == 3
        self.pd = 3 if self.is3d else 2
        self.depth = params.get('timedepth')

        def color(c):
            return W.scheme(scheme)[c[3:]] if isinstance(c, str) and \
                c.startswith('cs:') else c

        def resolve(base, key, default):
            x = params.get(key, default)
            if x is False:
                return None
            base = dict(base)
            if x is not True:
                base.update(x)
            return {k: color(v) for k, v in base.items()}
        d = defaults
        self.gap = params.get('linkgapsize', 0.0) > 0
        self.links = resolve({
            'linewidth': 2.0, 'linestyle': '-', 'color': d['links'],
            'marker': 'o', 'markersize': 5.0,
            'markeredgecolor': d['linksedge'],
            'markerfacecolor': d['linksface']}, 'links', True)
        if self.links and self.gap:
            for k in ('markeredgecolor', 'markerfacecolor', 'markersize'):
                self.links.pop(k)
        self.events = resolve({
            'linewidth': 2.0, 'linestyle': '', 'marker': 'o',
            'markersize': 7.0, 'markeredgecolor': d['eventsedge'],
            'markerfacecolor': d['eventsface']}, 'events', True)
        self.labels = resolve({'verticalalignment': 'top',
                               'horizontalalignment': 'right'}, 'labels',
                              True)
        cone = {'edgecolor': 'none', 'color': d['conesface'],
                'alpha': .1} if self.is3d else {
            'edgecolor': d['conesedge'], 'facecolor': 'none', 'alpha': .1}
        self.cones = {'pastcones': resolve(cone, 'pastcones', False),
                      'futurecones': resolve(cone, 'futurecones', False)}
        self.pairs = [(i, j) for a, i in enumerate(idx) for j in idx[a + 1:]
                      if W.P.islink(i, j) or W.P.islink(j, i)]
        if self.depth is not None:
            f = params.get('timefade', 'linear')
            self.fe = fade(f, self.pd, self.depth,
                           (self.events or {}).get('alpha', 1.0))
            self.fw = fade(f, self.pd, self.depth,
                           (self.links or {}).get('linewidth', 1.0))
            # opacities are not documented for this combination
            self.opaque = not (f == 'intensity' and self.depth < 0)

    def pt(self, x):
        return tuple(x[d] for d in self.dims)

    def frame(self, time):
        """-> events {i: alpha}, labels [i], links [(i, j, a, b, alpha,
        width, partial, optional)]"""
        W = self.W
        ev, lb, lk = {}, [], []
        if self.depth is None:
            if self.events:
                ev = {i: self.events.get('alpha') for i in self.idx}
            if self.labels:
                lb = list(self.idx)
            if self.links:
                lk = [(i, j, W.xy[i], W.xy[j], self.links.get('alpha'),
                       self.links['linewidth'], False, False)
                      for i, j in self.pairs]
            return ev, lb, lk
        dist = {i: W.xy[i][0] - time[0] for i in self.idx}
        vis = {i: self.fe(dist[i]) for i in self.idx}
        for i in self.idx:
            if vis[i] > 0:
                if self.events:
                    ev[i] = vis[i]
                if self.labels:
                    lb.append(i)
        for i, j in (self.pairs if self.links else ()):
            si = (dist[i] > 0) - (dist[i] < 0)
            sj = (dist[j] > 0) - (dist[j] < 0)
            if vis[i] > 0 and vis[j] > 0:
                far = i if abs(dist[i]) > abs(dist[j]) else j
                lk.append((i, j, W.xy[i], W.xy[j], vis[far],
                           self.fw(dist[far]), False, False))
            elif (vis[i] > 0 or vis[j] > 0) and si != sj:
                a, b = (i, j) if vis[i] > 0 else (j, i)
                s = dist[a] / (dist[a] - dist[b])
                cut = [u + s * (v - u) for u, v in zip(W.xy[a], W.xy[b])]
                # nothing is left of a link that only touches the slice
                lk.append((i, j, W.xy[a], cut, vis[a], self.fw(dist[a]),
                           True, s == 0))
        return ev, lb, lk

    def cone(self, key, time):
        """-> [(event, radius, slice time, alpha)]"""
        c = self.cones[key]
        out = []
        if c is None:
            return out
        t = time[0] if key == 'pastcones' else time[-1]
        sign = -1 if key == 'pastcones' else 1
        f = self.p.get('conetimefade', 'intensity')
        g = fade(f, self.pd, abs(self.p.get('conetimedepth', 0.0)),
                 c.get('alpha', 1.0))
        for i in self.idx:
            r = sign * (t - self.W.xy[i][0])
            if r <= 0:
                continue
            alpha = c['alpha'] if f == '' else g(r)
            if alpha > 0:
                out.append((i, r, t, alpha))
        return out


class World:
    def __init__(self, ctx, case):
        lib, self.ctx, self.case = ctx.lib, ctx, case
        np = lib.np
        self.np = np
        S = lib.spacetimes
        self.dim = d = case['dim']
        par = case['par']
        kind = case['st']
        self.kind = kind
        self.periods = None
        self.st = None
        xs = [[v / 8. for v in row] for row in case['coords']]
        if kind == 'flat':
            st = S.FlatSpacetime(d)
        elif kind == 'periodic':
            p = (4.0, 5.0, 8.0)[par % 3]
            if par & 4 and d > 2:
                q = [p] + [(0., 4., 6.)[(par >> 3 + k) % 3]
                           for k in range(d - 2)]
                self.periods = q
                st = S.FlatSpacetime(d, tuple(q))
            else:
                self.periods = [p] * (d - 1)
                st = S.FlatSpacetime(d, p)
        elif kind == 'ds':
            st = S.deSitterSpacetime(d, (4.0, 2.0, 8.0)[par % 3])
        elif kind == 'ads':
            st = S.AntideSitterSpacetime(d, (4.0, 2.0, 8.0)[par % 3])
        else:
            st = S.BlackHoleSpacetime(
                2, (0.5, 1.0)[par % 2], 'Schwarzschild'
                if kind == 'schwarz' else 'Eddington-Finkelstein')
            xs = [x for x in xs if x[1] != 0 and
                  abs(abs(x[1]) - (0.5, 1.0)[par % 2]) > .01]
        self.spacetime = st
        self.other = S.deSitterSpacetime(d, 3.0) if par & 2 else \
            S.FlatSpacetime(d + 1)
        self.xy = xs
        n = len(xs)
        self.labels = [(k, 'e%d' % k, None, '%d' % k)[mix(par, k) % 4]
                       for k in range(n)]
        P = self.P = Poset()
        self.causet = None
        self.shape = self.geo = None
        if case.get('shape'):
            self.shape = ctx.call('CoordinateShape', lambda: shapemodel.make(
                lib, case['shape']))
            self.geo = shapemodel.Geo(case['shape'])
        if case['kind'] == 'position':
            self.ev = []
            for k in range(n):
                m = case['past'][k % 9] & ((1 << k) - 1)
                P.new(past=m)
                e = lib.E(past={self.ev[i] for i in bits(m)})
                e.Position = (list(xs[k]), np.array(xs[k]))[mix(par, k, 2) % 2]
                self.ev.append(e)
            self.st = None
        else:
            c = ctx.call('EmbeddedCauset', lambda: lib.EC(
                spacetime=st, shape=self.shape if par & 1 else None))
            new = ctx.call('create', lambda: c.create([list(x) for x in xs])) \
                if xs else set()
            by = {tuple(float(v) for v in e.Coordinates): e for e in c}
            del new
            self.ev = [by[tuple(x)] for x in xs]
            self.causet = c
            self.st = st
            pos = {id(e): k for k, e in enumerate(self.ev)}
            for k in range(n):
                P.past.append(0)
                P.fut.append(0)
            for k, e in enumerate(self.ev):
                for f in e.Past:
                    P.past[k] |= 1 << pos[id(f)]
                    P.fut[pos[id(f)]] |= 1 << k
        for k, e in enumerate(self.ev):
            e.Label = self.labels[k]
        self.index = {id(e): k for k, e in enumerate(self.ev)}

    def scheme(self, name):
        return self.ctx.lib.colors.ColorSchemes[name]


class Pl:
    pass


# ----------------------------------------------------------------------- run
class Run:
    def __init__(self, ctx, case, real):
        self.ctx, self.case, self.real = ctx, case, real
        self.np = ctx.lib.np
        self.cp = ctx.lib.plotting
        self.W = World(ctx, case)
        self.pl = []
        self.scheme = 'matplotlib'
        self.defaults = dict(DEFAULTS)
        self.axes = {}
        self.frames = 0
        self.nontrivial = False
        self.kept = []
        self.pending = False
        if real:
            import matplotlib.pyplot as plt
            self.plt = plt
            ctx.probes['real_axes'] += 1

    def ax(self, is3d):
        if is3d not in self.axes:
            self.axes[is3d] = RealAxes(self.ctx, is3d, self.plt) \
                if self.real else StubAxes(self.ctx, is3d)
        return self.axes[is3d]

    def install(self, scheme, defaults):
        self.ctx.lib.colors.setGlobalColorScheme(scheme)
        d = self.cp.default_colors
        d.clear()
        d.update(defaults)

    # ------------------------------------------------------------- plotters
    def target(self, sel):
        """what is plotted: -> (E argument, spacetime, indices, listed)"""
        W = self.W
        n = len(W.ev)
        if self.case['kind'] == 'embedded' and sel % 4:
            # the spacetime of the causet replaces the argument
            return W.causet, W.other if sel & 256 else None, \
                list(range(n)), False
        idx = [k for k in range(n) if mix(sel, k) % 8]
        idx.sort(key=lambda k: mix(sel, 3, k))
        st = W.st
        if n and sel % 16 == 4:
            return W.ev[sel % n], st, [sel % n], True
        return [W.ev[k] for k in idx], st, idx, True

    def params(self, raw, E):
        p = copy.deepcopy(raw)
        if p.get('axislim') == 'shape':
            if E is not self.W.causet and self.W.shape is None:
                p.pop('axislim')
        elif 'axislim' in p:
            p['axislim'] = {k: tuple(v) for k, v in p['axislim'].items()}
        dims = p.get('dims', [1, 0])
        if 'axislim' in p and p['axislim'] != 'shape' and len(dims) == 2:
            p['axislim'].pop('zlim')
        if len(dims) == 3 and self.W.dim < 3:
            p.pop('dims')
        curved = self.W.kind not in ('flat', 'periodic')
        if self.W.kind == 'ads' or curved and \
                len(dims) == 3 and 0 not in dims:     # not implemented
            p.pop('pastcones', None)
            p.pop('futurecones', None)
        return p

    def make(self, raw, sel, share):
        ctx = self.ctx
        E, st, idx, listed = self.target(sel)
        q = Pl()
        if share >= 0 and self.pl:
            # the caller uses the same dictionaries again
            o = self.pl[share % len(self.pl)]
            q.raw = copy.deepcopy(o.now)
            q.caller = o.caller
            if q.raw.get('axislim') == 'shape' and E is not self.W.causet:
                E, st, idx, listed = o.target
            q.now = o.now
        else:
            q.raw = self.params(raw, E)
            q.caller = copy.deepcopy(q.raw)
            q.now = copy.deepcopy(q.raw)
        q.target = (E, st, idx, listed)
        q.model = Model(self.W, q.raw, self.scheme, self.defaults, idx,
                        listed)
        q.colors = (self.scheme, dict(self.defaults))
        q.shape = self.shape_of(q, sel)
        q.view = self.ax(q.model.is3d)
        q.gca = sel & 32 != 0
        ctx.probes['gca'] += q.gca
        q.fn = self.create(q, q.caller)
        self.pl.append(q)
        m = q.model
        ctx.probes['3d'] += m.is3d
        ctx.probes['position'] += st is None
        ctx.probes['other_spacetime'] += not listed and st is not None
        ctx.probes['dynamic' if m.depth is not None else 'static'] += 1
        ctx.probes['negative_depth'] += (m.depth or 0) < 0
        ctx.probes['linkgap'] += m.gap
        ctx.probes['curved'] += self.W.kind not in ('flat', 'periodic')
        ctx.probes['periodic'] += self.W.kind == 'periodic'
        ctx.log('plotter', idx, sorted(q.raw))
        return q

    def bad_dims(self, dims, sel):
        """plots of other than two or three dimensions are rejected"""
        ctx = self.ctx
        E, st, _, _ = self.target(sel)
        v = self.ax(False)
        if self.real:
            v.new()
        else:
            v.arts = []
        fn = (self.cp.Plotter, self.cp.plot)[sel & 1]
        try:
            fn(E, v.ax if self.real else v, st, dims=list(dims))
        except ValueError:
            ctx.probes['dims_rejected'] += 1
        except Exception as e:
            ctx.fail('dims:exception', 'a plot with dims=%s raised %r' % (
                dims, e))
        else:
            ctx.fail('dims:accepted', 'a plot with dims=%s is not rejected'
                     % (dims,))
        ctx.check(not (v.take() if self.real else v.arts), 'dims:drawn',
                  'a rejected plot drew something')

    def shape_of(self, q, sel):
        """the shape keyword; sets the shape that limits the axes"""
        W = self.W
        shape = q.raw.get('axislim') == 'shape'
        own = W.causet is not None and q.target[0] is W.causet
        q.kw = {}
        if W.shape is not None and (sel & 192 == 64 or shape and not own):
            q.kw['shape'] = W.shape
            self.ctx.probes['shape_keyword'] += 1
        q.byshape = shape or 'axislim' not in q.raw and bool(q.kw)
        if not q.byshape:
            return None
        if q.kw or W.shape is not None and self.case['par'] & 1:
            return W.geo
        return W.causet.Shape

    def create(self, q, kwargs, one_shot=None):
        E, st, idx, listed = q.target
        cp = self.cp
        kwargs = dict(q.kw, **kwargs)
        ax = q.view.ax if self.real else q.view

        def go():
            if one_shot is not None:
                return cp.plot(E, None if q.gca else ax, st, **kwargs,
                               **one_shot)
            return cp.Plotter(E, None if q.gca else ax, st, **kwargs)
        if not q.gca:
            return self.ctx.call('Plotter', go)
        if self.real:
            self.plt.figure(ax.figure.number)
            self.plt.sca(ax)
            return self.ctx.call('Plotter', go)
        old = cp.gca
        cp.gca = lambda *a, **k: ax
        try:
            return self.ctx.call('Plotter', go)
        finally:
            cp.gca = old

    # --------------------------------------------------------------- frames
    @staticmethod
    def time_arg(np, time):
        how, a, b = time
        if how == 0:
            return a, [a, a]
        if how == 1:
            return [a, b], [a, b]
        if how == 2:
            return np.array([a, b]), [a, b]
        return [a], [a, a]

    def draw(self, q, fn, arg, fail_at=0):
        """-> (artists, handles) or None after an injected failure"""
        v = q.view
        v.fail_at, v.calls, v.fired = fail_at, 0, False
        if self.real:
            v.new()
        else:
            v.arts, v.limits, v.aspect = [], {}, None
        before = self.ctx.faults.total()
        del before
        try:
            h = self.ctx.call('frame', fn, arg) if arg is not None else \
                self.ctx.call('plot', fn)
        except Injected:
            self.ctx.faults['axes raises at call'] += 1
            return None
        finally:
            v.fail_at = 0
        if v.fired:
            self.ctx.fail('fault:swallowed', 'a frame during which the axes '
                          'raised an error was reported as drawn')
        arts = v.take() if self.real else list(v.arts)
        return arts, h

    def frame(self, q, time, fail_at=0, fn=None, note=''):
        ctx, m = self.ctx, q.model
        arg, t = self.time_arg(self.np, time)
        if fn is None:
            got = self.draw(q, q.fn, arg, fail_at)
        else:
            got = self.draw(q, fn, None, fail_at)
        if got is None:
            ctx.log('fault', fail_at)
            self.pending = True
            return
        arts, h = got
        ctx.stats['frames'] += 1
        self.frames += 1
        limits, aspect = dict(q.view.limits), q.view.aspect
        sig = self.judge(q, t, arts, h, limits, aspect)
        ctx.log('frame', t, sig)
        if self.pending and arts:
            ctx.probes['fault_then_frame'] += 1
        self.pending = False
        if arts and self.frames > 1:
            self.nontrivial = True
        ctx.state((m.is3d, m.depth is None, sig))
        # frames returned earlier keep their content
        for h0, s0, q0 in self.kept:
            ctx.check(self.snapshot(h0, q0) == s0, 'frame:earlier',
                      'a frame that was drawn earlier changed')
        if len(self.kept) < 5:
            self.kept.append((h, self.snapshot(h, q), q))
        # a new plotter draws the same frame
        if mix(ctx.stats['frames'], self.case['seed']) % 3 == 0 or \
                self.W.kind not in ('flat', 'periodic'):
            self.install(*q.colors)
            twin = self.create(q, copy.deepcopy(q.raw))
            self.install(self.scheme, self.defaults)
            got = self.draw(q, twin, self.time_arg(self.np, time)[0])
            ctx.check(got is not None and self.compare(arts, got[0]),
                      'frame:history', lambda: (
                          'the frame at %s differs from the frame of a new '
                          'plotter' % (t,)))

    def compare(self, a, b):
        a, b = [[self.key(x) for x in L] for L in (a, b)]
        return sorted(a) == sorted(b)

    @staticmethod
    def key(a):
        def r(v):
            return round(v, 9) + 0.0 if isinstance(v, float) else v
        return repr((a.kind, [tuple(r(v) for v in p) for p in a.pts],
                     sorted((k, r(float(v)) if isinstance(v, (float, int))
                             else str(v)) for k, v in a.props.items()
                            if v is not None and not (
                                # colour cycle of the axes, not visible
                                k == 'color' and len(a.pts) == 1 and
                                a.kind == 'line'))))

    def snapshot(self, h, q):
        out = []

        def show(y):
            if y is None:
                return None
            if isinstance(y, tuple) and len(y) == 3:      # X, Y, Z
                return mix(repr(surf_pts(*y)))
            if isinstance(y, (list, tuple)):
                return [show(v) for v in y]
            return self.key(self.art(y, q))
        for k in sorted(h):
            L = [show(x) for x in h[k]]
            out.append((k, L))
        return repr(out)

    def art(self, o, q):
        if isinstance(o, StubArtist):
            return o.art
        return real_art(o, q.model.is3d)

    # ---------------------------------------------------------------- judge
    def props(self, a, want, what):
        from matplotlib.colors import to_rgba
        ctx = self.ctx
        for k, v in want.items():
            got = a.props.get(k)
            if k in ('alpha', 'linewidth', 'markersize', 'fontsize'):
                if v is None:
                    ok = got is None or close(float(got), 1.0)
                else:
                    ok = got is not None and close(float(got), v)
            elif 'color' in k:
                try:
                    x, y = to_rgba(got), to_rgba(v)
                    ok = all(close(p, q) for p, q in zip(x[:3], y[:3]))
                except (ValueError, TypeError):
                    ok = False
            elif k == 'linestyle':
                ok = got == v or {got, v} <= {'', 'None', ' ', 'none'}
            else:
                ok = got == v
            ctx.check(ok, 'props:%s:%s' % (a.kind, k), lambda: (
                '%s is drawn with %s=%r, expected %r' % (what, k, got, v)))

    def judge(self, q, t, arts, h, limits, aspect):
        ctx, m, W = self.ctx, q.model, self.W
        ev, lb, lk = m.frame(t)
        lines = [a for a in arts if a.kind == 'line']
        dots = [a for a in lines if len(a.pts) == 1]
        segs = [a for a in lines if len(a.pts) > 1]
        texts = [a for a in arts if a.kind == 'text']

        # keys
        want = {k for k, v in (('links', m.links), ('events', m.events),
                               ('labels', m.labels),
                               ('pastcones', m.cones['pastcones']),
                               ('futurecones', m.cones['futurecones']))
                if v is not None}
        ctx.eq(sorted(h), sorted(want), 'keys', 'keys of the returned frame')

        def one(x):
            return x[0] if isinstance(x, list) and len(x) == 1 else x

        def handles(key, drawn, n):
            L = h.get(key)
            if L is None:
                return None
            ctx.eq(len(L), n, 'handles:' + key,
                   'number of handles of the frame')
            ids = [id(one(x)) for x in L if x is not None]
            ctx.eq(sorted(ids), sorted(id(a.obj) for a in drawn),
                   'handles:' + key, lambda: (
                       'the returned handles %s are not the artists drawn'
                       % key))
            return L

        # events
        def match(A, idx, what):
            """pairs artists with events by position"""
            left = list(A)
            out = {}
            for i in idx:
                p = m.pt(W.xy[i])
                for a in left:
                    if same_pt(a.pts[0], p) and (
                            a.kind == 'line' or
                            a.props['text'] == ' %s ' % (W.labels[i],)):
                        out[i] = a
                        left.remove(a)
                        break
                else:
                    ctx.fail('missing:' + what, '%s of the event at %s is '
                             'not drawn at time %s' % (what, W.xy[i], t))
            if left:
                ctx.fail('extra:' + what, '%s is drawn at %s at time %s' % (
                    what, left[0].pts[0], t))
            return out
        # projections can coincide: match the opacity as well
        order = sorted(ev, key=lambda i: (m.pt(W.xy[i]), ev[i] or 0))
        got = match(sorted(dots, key=lambda a: (
            a.pts[0], a.props.get('alpha') or 0)), order, 'marker')
        for i in ev:
            w = dict(m.events)
            w['alpha'] = ev[i]
            if m.depth is not None and not m.opaque:
                w.pop('alpha')
            self.props(got[i], w, 'the event at %s at time %s' % (
                W.xy[i], t))
            ctx.probes['faded_event'] += m.depth is not None
        L = handles('events', dots, len(m.idx))
        if L is not None and m.listed:
            for k, i in enumerate(m.idx):
                x = one(L[k])
                ctx.eq(x is not None, i in ev, 'handles:events',
                       'handle %d of the events is set' % k)
                if x is not None:
                    ctx.check(same_pt(self.art(x, q).pts[0], m.pt(W.xy[i])),
                              'handles:events', 'handle %d of the events is '
                              'another event' % k)
        got = match(texts, lb, 'label')
        for i in lb:
            self.props(got[i], m.labels, 'the label of %s' % (W.xy[i],))
        L = handles('labels', texts, len(m.idx))
        if L is not None and m.listed:
            for k, i in enumerate(m.idx):
                x = one(L[k])
                ctx.eq(x is not None, i in lb, 'handles:labels',
                       'handle %d of the labels is set' % k)
                if x is not None:
                    ctx.check(same_pt(self.art(x, q).pts[0], m.pt(W.xy[i]))
                              and self.art(x, q).props['text'] ==
                              ' %s ' % (W.labels[i],),
                              'handles:labels', 'handle %d of the labels is '
                              'another event' % k)

        # links
        left = list(segs)
        for i, j, a, b, alpha, width, part, opt in sorted(
                lk, key=lambda x: x[7]):
            pa, pb = m.pt(a), m.pt(b)
            best = None
            for s in left:
                ends = (s.pts[0], s.pts[-1])
                if not (same_pt(ends[0], pa) and same_pt(ends[1], pb) or
                        same_pt(ends[1], pa) and same_pt(ends[0], pb)):
                    continue
                g = s.props.get('alpha')
                bad = 0 if alpha is None or g is None else \
                    abs(float(g) - alpha)
                # links may be drawn on top of each other
                every = s.props.get('markevery')
                bad = (bad > TOL, m.depth is not None and
                       bool(every) is not bool(part), bad)
                if best is None or bad < best[0]:
                    best = (bad, s)
            if best is None:
                if opt:
                    continue
                ctx.fail('missing:link', 'the %slink %s - %s is not drawn '
                         'from %s to %s at time %s' % (
                             'partial ' if part else '', W.xy[i], W.xy[j],
                             pa, pb, t))
            s = best[1]
            left.remove(s)
            for p in s.pts:
                ctx.check(on_segment(p, pa, pb), 'link:shape', lambda: (
                    'the link %s - %s passes %s' % (W.xy[i], W.xy[j], p)))
            along = [sum((y - x) * (v - x) for x, y, v in zip(pa, pb, p))
                     for p in s.pts]
            ctx.check(along in (sorted(along), sorted(along)[::-1]),
                      'link:shape', lambda: (
                          'the link %s - %s runs back and forth: %s' % (
                              W.xy[i], W.xy[j], s.pts)))
            w = dict(m.links)
            w['alpha'], w['linewidth'] = alpha, width
            if m.depth is not None and not m.opaque:
                w.pop('alpha')
                w.pop('linewidth')
            self.props(s, w, 'the link %s - %s at time %s' % (
                W.xy[i], W.xy[j], t))
            every = s.props.get('markevery')
            n = len(s.pts)
            ctx.check(isinstance(every, list) or every is None and n == 0,
                      'link:marks', lambda: 'markevery is %r' % (every,))
            marked = [s.pts[k] for k in every if -n <= k < n]
            if part and not opt:
                ctx.probes['partial_link'] += 1
                ctx.check(len(marked) == 1 and same_pt(marked[0], pb),
                          'link:marks', lambda: (
                              'a partial link marks %s, not the slice at %s'
                              % (marked, pb)))
            elif m.depth is not None:
                ctx.check(not marked or opt, 'link:marks', lambda: (
                    'a link that is drawn completely marks %s' % marked))
            else:
                ctx.check(all(0 < k % n < n - 1 for k in every if -n <= k < n),
                          'link:marks', lambda: (
                              'a link marks its ends: %s of %s' % (
                                  every, s.pts)))
                ctx.probes['collinear'] += n > 2
                if m.gap:
                    for k in m.idx:
                        p = m.pt(W.xy[k])
                        if on_segment(p, pa, pb) and not same_pt(p, pa) \
                                and not same_pt(p, pb):
                            ctx.check(any(same_pt(p, x) for x in marked),
                                      'link:gap', lambda: (
                                          'the link %s - %s has no gap at the '
                                          'event %s: %s' % (
                                              W.xy[i], W.xy[j], W.xy[k],
                                              marked)))
                            ctx.probes['gap'] += 1
        if left:
            ctx.fail('extra:link', 'a link is drawn along %s at time %s' % (
                left[0].pts, t))
        L = handles('links', segs, len(m.pairs))

        # cones
        surf = [a for a in arts if a.kind in ('patch', 'surface')]
        cones = m.cone('pastcones', t), m.cone('futurecones', t)
        nc = sum(map(len, cones))
        ctx.probes['cones'] += any(v is not None for v in m.cones.values())
        flat = W.kind in ('flat', 'periodic') or q.target[1] is None and \
            q.target[0] is not W.causet
        if not flat:
            ctx.check(len(surf) <= nc, 'extra:cone', lambda: (
                '%d cones are drawn, at most %d are visible' % (
                    len(surf), nc)))
            alphas = [c[3] for L in cones for c in L]
            for a in surf:
                g = float(a.props.get('alpha', -1))
                ok = [x for x in alphas if close(g, x)]
                ctx.check(ok, 'cone:alpha', lambda: (
                    'a cone is drawn with alpha %s, the visible cones have '
                    '%s' % (g, alphas)))
                alphas.remove(ok[0])
        else:
            self.flat_cones(q, t, surf, cones)
        for key, want in zip(('pastcones', 'futurecones'), cones):
            if m.cones[key] is not None and flat:
                ctx.eq(len(h[key]), len(want), 'handles:' + key,
                       'number of handles')
            elif m.cones[key] is not None:
                ctx.check(len(h[key]) <= len(want), 'handles:' + key,
                          'too many handles')
        if not m.is3d:
            ids = [id(x) for k in ('pastcones', 'futurecones')
                   for x in h.get(k, ())]
            ctx.eq(sorted(ids), sorted(id(a.obj) for a in surf),
                   'handles:cones', 'handles of the cones')
        ctx.probes['cone_drawn'] += bool(surf)

        # axes
        lim = q.raw.get('axislim')
        if q.byshape:
            s, d = q.shape, m.dims
            if isinstance(s, shapemodel.Geo):
                x = s.extents()
                e = [max(x[k] for k in d) if m.is3d else x[k] for k in d]
                lim = {k: (s.c[i] - r, s.c[i] + r) for k, i, r in zip(
                    ('xlim', 'ylim', 'zlim'), d, e)}
            elif m.is3d:
                e = s.MaxEdgeHalf(d)
                lim = {k: (s.Center[x] - e, s.Center[x] + e) for k, x in
                       zip(('xlim', 'ylim', 'zlim'), d)}
            else:
                lim = {k: s.Limits(x)
                       for k, x in zip(('xlim', 'ylim'), d)}
        if lim is not None:
            ctx.probes['axislim'] += 1
            for k, v in lim.items():
                ctx.check(k in limits and same_pt(limits[k], v),
                          'axislim', lambda: '%s is %s, expected %s' % (
                              k, limits.get(k), v))
        elif not self.real:
            ctx.eq(limits, {}, 'axislim', 'axis limits')
        if not m.is3d and not self.real:
            ctx.eq(aspect, q.raw.get('aspect', ['equal', 'box']), 'aspect')
        return (len(dots), len(texts), len(segs), len(surf),
                [round(v, 6) for v in ev.values() if v is not None])

    def shifts(self, q):
        m, W = q.model, self.W
        st = q.target[1]
        if q.target[0] is W.causet:
            st = W.spacetime
        per = W.periods if st is not None else None
        out = [()]
        for d in m.dims:
            k = per[d - 1] if per and d > 0 else 0.0
            out = [o + (s,) for o in out
                   for s in ((0.0,) if k == 0 else (-k, 0.0, k))]
        return out

    def flat_cones(self, q, t, surf, cones):
        ctx, m, W = self.ctx, q.model, self.W
        sh = self.shifts(q)
        per = 1
        if m.is3d:
            # each shifted cone is a number of surfaces
            if self.real:
                n = sum(map(len, cones))
                ctx.eq(bool(surf), bool(n), 'missing:cone', 'cones drawn')
                return
        left = list(surf)
        ta = m.dims.index(0) if 0 in m.dims else -1
        for key, L in zip(('pastcones', 'futurecones'), cones):
            for i, r, ts, alpha in L:
                o = m.pt(W.xy[i])
                tip = [tuple(x + s for x, s in zip(o, d)) for d in sh]
                mine = [a for a in left if self.is_cone(
                    a, tip, r, ts, ta, alpha)]
                if m.is3d:
                    got = []
                    # all surfaces of this cone, each shifted tip covered
                    for c in tip:
                        own = [a for a in mine if self.is_cone(
                            a, [c], r, ts, ta, alpha)]
                        ctx.check(own, 'missing:cone', lambda: (
                            'no cone surface of the event at %s around %s '
                            'for the slice %s with alpha %s' % (
                                W.xy[i], c, ts, alpha)))
                        k = max(1, self.parts(own, c, r, ta))
                        for a in own[:k]:
                            if not any(a is b for b in got):
                                got.append(a)
                    left = [a for a in left
                            if not any(a is b for b in got)]
                else:
                    ctx.check(mine, 'missing:cone', lambda: (
                        'no %s of the event at %s for the slice %s with '
                        'alpha %s is drawn; drawn are %s' % (
                            key[:-1], W.xy[i], ts, alpha,
                            [(a.pts[:3], a.props.get('alpha'))
                             for a in left])))
                    self.cover(mine[0], tip, r, ts, ta)
                    c = m.cones[key]
                    self.props(mine[0], {k: c[k] for k in (
                        'edgecolor',) if k in c}, 'a cone')
                    left = [a for a in left if a is not mine[0]]
        if left:
            ctx.fail('extra:cone', 'a cone is drawn at %s with alpha %s at '
                     'times %s' % (left[0].pts[:4],
                                   left[0].props.get('alpha'), t))
        del per

    def parts(self, own, c, r, ta):
        """number of surfaces of one cone: those of the first cone of the
        same kind that are no repetition"""
        keys = []
        for a in own:
            k = self.key(a)
            if k in keys:
                break
            keys.append(k)
        return len(keys)

    def is_cone(self, a, tips, r, ts, ta, alpha):
        g = a.props.get('alpha')
        if g is None or not close(float(g), alpha):
            return False
        for p in a.pts:
            if not any(self.on_cone(p, c, r, ts, ta) for c in tips):
                return False
        return bool(a.pts)

    def on_cone(self, p, c, r, ts, ta):
        d = [x - y for x, y in zip(p, c)]
        if ta < 0:
            return close(math.sqrt(sum(v * v for v in d)), r)
        dt = d.pop(ta)
        R = math.sqrt(sum(v * v for v in d))
        lo, hi = min(c[ta], ts), max(c[ta], ts)
        return close(R, abs(dt)) and lo - TOL <= p[ta] <= hi + TOL

    def cover(self, a, tips, r, ts, ta):
        """a 2D cone shows all its shifted copies completely"""
        ctx = self.ctx
        for c in tips:
            if ta < 0:
                P = [p for p in a.pts if self.on_cone(p, c, r, ts, ta)]
                q = {(p[0] > c[0], p[1] > c[1]) for p in P}
                ok = len(q) == 4
            else:
                x = 1 - ta
                need = []
                for dx in (0, -r, r):
                    p = [0.0, 0.0]
                    p[ta] = ts if dx else c[ta]
                    p[x] = c[x] + dx
                    need.append(p)
                ok = all(any(same_pt(p, v) for v in a.pts) for p in need)
            ctx.check(ok, 'cone:outline', lambda: (
                'the cone around %s is incomplete: %s' % (c, a.pts[:12])))

    # ------------------------------------------------------------------ ops
    def step(self, op):
        ctx, W = self.ctx, self.W
        k = op[0]
        if k == 'plotter':
            if len(self.pl) < 4:
                self.make(op[1], op[2], op[3])
            return
        if k == 'plot':
            E, st, idx, listed = self.target(op[2])
            q = Pl()
            q.raw = self.params(op[1], E)
            q.target = (E, st, idx, listed)
            q.model = Model(W, q.raw, self.scheme, self.defaults, idx,
                            listed)
            q.colors = (self.scheme, dict(self.defaults))
            q.shape = self.shape_of(q, op[2])
            q.view = self.ax(q.model.is3d)
            q.gca = False
            ctx.probes['one_shot'] += 1
            arg, t = self.time_arg(self.np, op[3])
            kw = {} if op[3][0] == 3 and op[3][1] > 1 else {'time': arg}
            tm = op[3] if kw else [0, 0.0, 0.0]
            if kw and isinstance(arg, list) and len(arg) == 1:
                kw = {'time': arg[0]}
            kwargs = copy.deepcopy(q.raw)
            self.frame(q, tm, fn=lambda: self.create(q, kwargs, kw))
            return
        if k == 'colors':
            name = ('matplotlib', 'UniYork', 'ImperialLondon')[op[1]]
            ctx.call('setDefaultColors', lambda: self.cp.setDefaultColors(
                name, **{op[2]: op[3]}))
            self.scheme = name
            self.defaults[op[2]] = op[3]
            ctx.probes['colors_changed'] += 1
            return
        if k == 'unlink':
            for i, e in enumerate(W.ev):
                if op[1] >> (i % 9) & 1:
                    ctx.call('unlink', e.unlink)
            ctx.probes['unlinked'] += 1
            return
        if k == 'baddims':
            self.bad_dims(op[1], op[2])
            return
        if k == 'link':
            for e in W.ev:
                ctx.call('link', e.link)
            return
        if not self.pl:
            return
        q = self.pl[op[1] % len(self.pl)]
        if k == 'mutate':
            # the caller's own dictionaries, not those of the library
            for key in ('links', 'events', 'labels', 'pastcones',
                        'futurecones'):
                d = q.caller.get(key)
                if isinstance(d, dict):
                    v = (.0625, .9)[op[2] % 2]
                    for x in (d, q.now[key]):
                        if key == 'labels':
                            x['fontsize'] = 11 + op[2]
                        else:
                            x['alpha'] = v
                    ctx.probes['caller_mutates'] += 1
            return
        if k == 'frame':
            ctx.stats['swept_time_eighths'] += abs(int(
                8 * (op[2][1] - op[2][2])))
            self.frame(q, op[2])
        elif k == 'fault':
            self.frame(q, op[2], fail_at=op[3])


def body(ctx, case, real):
    R = Run(ctx, case, real)
    R.install('matplotlib', DEFAULTS)
    try:
        for t, op in enumerate(case['ops']):
            ctx.step = t
            ctx.stats['steps'] += 1
            R.step(op)
        for q in R.pl:
            ctx.check(q.caller == q.now, 'caller', 'the dictionaries of the '
                      'caller were changed by the plotter')
    finally:
        R.install('matplotlib', DEFAULTS)
        if real:
            R.plt.close('all')
    return R


def run(ctx, case):
    ctx.nt = False
    real = case['axes'] == 'real'
    try:
        R = body(ctx, case, real)
    except Unknown as e:
        ctx.stats['repeated_on_real_axes'] += 1
        ctx.log('unknown', str(e))
        R = body(ctx, case, True)
    ctx.nt = R.nontrivial


def configure(lib):
    lib.spacetimes.default_samplingsize = 9
    if hasattr(lib.shapes, 'default_samplingsize'):
        lib.shapes.default_samplingsize = 9


def nontrivial(ctx):
    return ctx.nt
