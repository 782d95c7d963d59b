import math

from .. import spacemodel as sm
from ..engine import Violation, short
from ..model import Poset, bits
from ..seams import mix
from .common import HIST_ASSUME
ID = 'C08'
COUNT = {'quick': 250000, 'thorough': 700000}
CAP = {'quick': 50, 'thorough': 1500}
MIN_RUNS = 400
LISTS = ('ops',)
RULE = ('One run = one seeded history of create, add, discard, embed, '
        'disembed, relabel, relate, disjoin and link-cache operations on up '
        'to three embedded causets that share events, in one spacetime per '
        'causet (flat 1-4D, periodic, de Sitter, Anti-de Sitter, black hole '
        'in both charts). Relations, links, labels and coordinates are '
        'compared with an independent causality after every operation. '
        'Non-trivial: a causet with related and unrelated events checked '
        'after at least two mutating operations; distinct by event-log '
        'digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = 'distinct (spacetime, labelled order) reached by a causet'
REAL = ['embeddedcauset.py', 'spacetimes.py Causality functions',
        'causetevent.py', 'causet.py']
STUB = ['CausetEvent.__hash__ (seeded)']
ASSUMPTIONS = HIST_ASSUME[:1] + [
    'Pairs within rounding of the light cone (relative 1e-9) are not judged, '
    'except on dyadic coordinates in flat spacetime where all arithmetic is '
    'exact.', 'Coincident points are not judged.',
    'Up to 16 events per causet.']
KINDS = ('flat', 'flat', 'periodic', 'ds', 'ads', 'ef', 'schwarz')
PROBES = KINDS + ('exact_null', 'shared_event', 'stale_then_related',
                  'double_embed', 'unembedded_read', 'restricted_check',
                  'horizon_pair', 'ctor_accepted', 'ctor_rejected',
                  'spacetime_rejected')


def gen(rng, i):
    dim = rng.choice((1, 2, 2, 2, 3, 3, 4))
    cs = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        k = rng.choice(KINDS)
        d = dim if rng.random() < .85 else rng.choice((1, 2, 3, 4))
        if k in ('ef', 'schwarz'):
            d = 2
        elif k != 'flat' and d == 1:
            k = 'flat'
        if len(cs) == 0 and rng.random() < .35:
            k = rng.choice(KINDS)
            d = 2
        cs.append([k, d, rng.randrange(1 << 16), rng.randrange(4)])
    ops = []

    def rows(n):
        return [[rng.randrange(1 << 20) for _ in range(5)] for _ in range(n)]
    w = {'create': 8, 'relate': 3, 'add': 2, 'discard': 3, 'embed': 4,
         'disembed': 1.5, 'relabel': 2, 'free': 1, 'disjoin': .7, 'link': 1.5,
         'unlink': 1.5, 'read': 3, 'perm': .4, 'conf': .8, 'st': .4}
    w = {k: v for k, v in w.items() if k == 'create' or rng.random() < .8}
    ks = list(w)
    ws = [w[k] for k in ks]
    for _ in range(rng.randrange(4, 26)):
        k = rng.choices(ks, ws)[0]
        c = rng.randrange(3)
        e = rng.randrange(100)
        if k == 'create':
            op = [k, c, rows(rng.choice((0, 1, 1, 2, 3, 4, 6))),
                  rng.randrange(4), rng.random() < .8, rng.randrange(4)]
        elif k == 'relate':
            op = [k, c, rng.randrange(3)]
        elif k in ('add', 'discard'):
            op = [k, c, [rng.randrange(100)
                         for _ in range(rng.choice((1, 1, 2, 3)))],
                  rng.randrange(3)]
        elif k == 'embed':
            op = [k, e, rows(1)[0], rng.randrange(3)]
        elif k == 'relabel':
            op = [k, c, rng.randrange(4), rng.randrange(2)]
        elif k == 'free':
            op = [k, rows(1)[0], c]
        elif k == 'conf':
            op = [k, rng.choice((None, None, 'flat', 'Minkowski', 'dS',
                                 'de Sitter', 'AdS', 'Anti-de Sitter',
                                 'black hole', 'Schwarzschild', 'nonsense',
                                 'obj', 'obj', 'obj')), rng.choice(KINDS),
                  rng.randrange(1 << 16),
                  rng.choice((None, None, 'obj', 'diamond', 'bicone', 'ball',
                              'cylinder', 'cube', 'cuboid', 'prism')),
                  rng.choice((None, 'list', 'rows', 'array', 'flat')),
                  rng.choice((-1, -1, 0, 1, 2, 2, 3, 4)),
                  [dim if rng.random() < .85 else rng.randrange(1, 5)
                   for _ in range(3)], rows(rng.randrange(1, 5)),
                  rng.random() < .1]
        elif k == 'perm':
            op = [k, [rng.randrange(100) for _ in range(rng.randrange(7))],
                  rng.randrange(3), rng.randrange(4)]
        else:
            op = [k, e]
        ops.append(op)
        if k == 'embed' and rng.random() < .5:
            ops.append(['relate', c, rng.randrange(3)])
    return {'causets': cs, 'ops': ops}


class World:
    def __init__(self, ctx, kind, d, par, form):
        self.kind, self.d = kind, d
        S = ctx.lib.spacetimes
        a = (0.5, 1.0, 2.0, 1.25, 0.7, 3.1)[par % 6]
        self.a = a
        self.periods = None
        name = None
        if kind == 'flat':
            st = S.FlatSpacetime(d)
            name = ('flat', 'Minkowski')[form % 2]
        elif kind == 'periodic':
            if form % 2 or d == 2:
                p = (1.0, 2.0, 4.0)[par % 3]
                self.periods = [p] * (d - 1)
                st = S.FlatSpacetime(d, p)
            else:
                self.periods = [(0.0, 1.0, 2.0, 4.0)[(par >> 2 * j) % 4]
                                for j in range(d - 1)]
                if not any(self.periods):
                    self.periods[0] = 2.0
                st = S.FlatSpacetime(d, tuple(self.periods))
        elif kind == 'ds':
            st = S.deSitterSpacetime(d, a)
        elif kind == 'ads':
            st = S.AntideSitterSpacetime(d, a)
        else:
            self.metric = 'Schwarzschild' if kind == 'schwarz' \
                else 'Eddington-Finkelstein'
            st = S.BlackHoleSpacetime(2, a, self.metric)
        if name and form == 3:
            self.real = ctx.lib.EC(name, dim=d)
        elif name and form == 2 and d == 2:
            self.real = ctx.lib.EC()
        else:
            self.real = ctx.lib.EC(st)
        self.members = []           # event ids
        self.clean = True           # pairs of members are up to date
        self.exact = True           # and nothing else is related to them

    def coords(self, u):
        d, a = self.d, self.a
        v = [x / float(1 << 20) for x in u]
        exact = u[4] % 2
        if self.kind in ('flat', 'periodic'):
            out = []
            for j in range(d):
                lo, w = -2.0, 4.0
                if j and self.periods and self.periods[j - 1]:
                    w = self.periods[j - 1]
                    lo = 0.0 if u[4] % 4 < 2 else -w / 2
                    lo = -w / 2 if self.kind == 'periodic' else lo
                    if u[4] % 8 == 5:       # beyond one period
                        lo, w = 2.75 * lo, 3.5 * w
                x = lo + w * v[j]
                if exact:
                    g = (4, 2, 1)[u[4] % 3]
                    x = math.floor(x * g) / g
                else:
                    x = lo + w * ((v[j] * 0.9871234) % 1.0)
                out.append(x)
            return out
        if self.kind == 'ds':
            x = [a * (2 * q - 1) * (1.0 if u[4] % 7 == 0 else
                                    1.0 / math.sqrt(d - 1) * .999)
                 for q in v[1:d]]
            return [a * (6 * v[0] - 3)] + x
        if self.kind == 'ads':
            w = 1.0 if u[4] % 2 else 3.0
            return [a * (12 * v[0] - 6) / w] + \
                [a * (4 * q - 2) / w for q in v[1:d]]
        r = a * (3 * v[1] if u[4] % 2 else 1.4 * v[1]) + 1e-3
        if u[4] % 5 == 0:
            r = -r
        return [a * (6 * v[0] - 3), r]

    def causal(self, x, y):
        if self.kind in ('flat', 'periodic'):
            return sm.flat(x, y, self.periods)
        if self.kind == 'ds':
            return sm.desitter(x, y, self.a)
        if self.kind == 'ads':
            return sm.antidesitter(x, y, self.a)
        return sm.blackhole(x, y, self.a, self.metric)


class Run:
    def __init__(self, ctx, case):
        self.ctx, self.lib = ctx, ctx.lib
        self.ev, self.co, self.lab, self.idx = [], [], [], {}
        self.W = [World(ctx, *c) for c in case['causets']]
        self.rich = 0
        self.muts = 0

    def reg(self, e, co, lab):
        self.idx[id(e)] = len(self.ev)
        self.ev.append(e)
        self.co.append(co)
        self.lab.append(lab)
        return len(self.ev) - 1

    def stale(self, i, why=None):
        for w in self.W:
            if i in w.members:
                w.clean = w.exact = False

    def related(self, w):
        if not w.clean:
            self.ctx.probes['stale_then_related'] += 1
        w.clean = w.exact = True
        mem = set(w.members)
        for x in self.W:
            if x is not w and mem & set(x.members):
                x.clean = x.exact = False
                self.ctx.probes['shared_event'] += 1

    def ok(self, w):
        """relate() is defined: everything embedded with w's dimension"""
        return all(self.co[i] is not None and len(self.co[i]) == w.d
                   for i in w.members)

    def pick(self, e):
        return e % len(self.ev) if self.ev else None

    # ------------------------------------------------------------------ ops
    def op_create(self, c, rows, form, relate, fmt):
        w = self.W[c % len(self.W)]
        if len(w.members) + len(rows) > 16 or len(self.ev) > 60:
            return
        if not self.ok(w):
            relate = False
        ctx, np = self.ctx, self.lib.np
        co = [w.coords(u) for u in rows]
        n0 = len(w.members)
        if form == 0:
            arg = [list(x) for x in co]
        elif form == 1:
            arg = [np.array(x) for x in co]
        else:
            arg = np.array(co).reshape(len(co), w.d)
        lf = (None, None, 'e{:d}', '')[fmt]
        a = [arg]
        k = {}
        if lf is not None:
            a.append(lf)
        if not relate:
            k['relate'] = False
        got = ctx.call('create', w.real.create, *a, **k)
        # the caller reuses its arrays afterwards
        if form >= 1 and len(co):
            arg[0][0] = 99.0
        elif co:
            arg[0][0] = 99.0
        got = list(ctx.call('create', lambda: set(got)))
        ctx.eq(len(got), len(co), 'create:count', 'number of events returned')
        for e in got:
            ctx.check(id(e) not in self.idx, 'create:old',
                      'create returned an existing event')
        want = {}
        for j, x in enumerate(co):
            l = n0 + 1 + j
            want.setdefault(l if lf is None else lf.format(l), []).append(x)
        for e in got:
            l = e.Label
            x = ctx.call('Coordinates', lambda: [
                float(q) for q in e.Coordinates])
            ctx.check(l in want and x in want[l], 'create:label', lambda: (
                'created event has label %r and coordinates %s, rows are %s, '
                'first label %d' % (l, x, co, n0 + 1)))
            want[l].remove(x)
        # register in row order
        order = sorted(got, key=lambda e: co.index([
            float(q) for q in e.Coordinates]))
        for e in order:
            x = [float(q) for q in e.Coordinates]
            w.members.append(self.reg(e, x, e.Label))
        if relate:
            self.related(w)
        elif co:
            w.clean = w.exact = False
        self.muts += 1
        ctx.log('create', c, co, relate, lf)

    def op_perm(self, L, lf, r):
        if len(self.ev) > 50 or len(self.W) >= 4:
            return
        n, np = len(L), self.lib.np
        P = [0] * n
        for k, i in enumerate(sorted(range(n), key=lambda i: (L[i], i))):
            P[i] = k + 1
        radius = (1.0, 2.0, 0.5, 1.7)[r]
        args = [P, (None, 'p{:d}', None)[lf]]
        if r:
            args.append(radius)
        c = self.ctx.call('FromPermutation', self.lib.EC.FromPermutation,
                          *args)
        w = World.__new__(World)
        w.kind, w.d, w.a, w.periods, w.real = 'flat', 2, 1.0, None, c
        w.members, w.clean, w.exact = [], True, True
        by = {}
        for e in c:
            by[str(e.Label).lstrip('p')] = e
        self.ctx.eq(len(by), n, 'perm:card', 'FromPermutation')
        for k in range(n):
            e = by[str(k + 1)]
            x = [float(q) for q in e.Coordinates]
            w.members.append(self.reg(e, x, e.Label))
            rad = args[2] if r else 1.0
            self.ctx.check(abs(x[0]) + abs(x[1]) <= rad * (1 + 1e-6),
                           'perm:outside', lambda: '%s lies outside of the '
                           'diamond of radius %s' % (x, rad))
            self.ctx.eq((c.Shape.Name, float(c.Shape.Parameter('radius'))),
                        ('bicone', float(np.float32(rad))), 'perm:shape')
        # integers in light-cone coordinates: the order of the permutation
        for i in range(n):
            for j in range(n):
                exp = i < j and P.index(i + 1) < P.index(j + 1)
                got = self.ctx.call('<', lambda: self.ev[w.members[i]] <
                                    self.ev[w.members[j]])
                self.ctx.eq(bool(got), exp, 'perm:order', 'order of %s' % P)
        self.W.append(w)
        self.ctx.log('perm', P)

    BAD = (('FlatSpacetime', 0), ('FlatSpacetime', -1),
           ('FlatSpacetime', 3, (1.0,)), ('FlatSpacetime', 3, (1.0,) * 3),
           ('FlatSpacetime', 2, 'x'), ('FlatSpacetime', 2, [1.0]),
           ('deSitterSpacetime', 1), ('deSitterSpacetime', 2, 0.0),
           ('deSitterSpacetime', 3, -1.0), ('AntideSitterSpacetime', 1),
           ('AntideSitterSpacetime', 2, 0.0),
           ('AntideSitterSpacetime', 4, -.5), ('BlackHoleSpacetime', 1),
           ('BlackHoleSpacetime', 3), ('BlackHoleSpacetime', 2, 0.0),
           ('BlackHoleSpacetime', 2, -1.0),
           ('BlackHoleSpacetime', 2, .5, 'Kerr'))

    def op_st(self, e):
        ctx = self.ctx
        b = self.BAD[e % len(self.BAD)]
        try:
            getattr(self.lib.spacetimes, b[0])(*b[1:])
        except ValueError:
            ctx.probes['spacetime_rejected'] += 1
        except Exception as x:
            ctx.fail('spacetime:error', '%s%s raised %r instead of '
                     'ValueError' % (b[0], b[1:], x))
        else:
            ctx.fail('spacetime:accepted', '%s%s was accepted' % (
                b[0], b[1:]))
        w = self.W[e % len(self.W)]
        s = w.real.Spacetime
        r = ctx.call('repr', repr, s)
        ctx.check(type(s).__name__ in r and str(w.d) in r, 'spacetime:repr',
                  lambda: 'repr of a %s spacetime is %s' % (w.kind, r))
        ctx.eq(ctx.call('str', str, s), '%d-dimensional %s spacetime' % (
            w.d, s.Name), 'spacetime:str')
        ctx.eq(s.Dim, w.d, 'spacetime:dim')
        if w.kind == 'ds':
            p = s.Parameter('r_dS')
        elif w.kind == 'ads':
            p = s.Parameter('r_AdS')
        elif w.kind in ('ef', 'schwarz'):
            p = s.Parameter('r_S')
            ctx.eq(s.MetricName, w.metric, 'spacetime:metric')
        else:
            p = None
            ctx.eq(bool(s.Parameter('isPeriodic')), bool(w.periods),
                   'spacetime:periodic')
            if w.periods:
                ctx.eq(list(map(float, s.Parameter('period'))), w.periods,
                       'spacetime:period')
        if p is not None:
            ctx.eq(float(p), w.a, 'spacetime:parameter')
        ctx.log('st', r)

    NAMES = {'flat': 'flat', 'Minkowski': 'flat', 'dS': 'ds',
             'de Sitter': 'ds', 'AdS': 'ads', 'Anti-de Sitter': 'ads',
             'black hole': 'ef', 'Schwarzschild': 'ef'}

    def op_conf(self, name, kind, par, shape, form, dim, dims, rows, ragged):
        """The constructor: dimensions agree or ValueError is raised."""
        if len(self.ev) > 50 or len(self.W) >= 5:
            return
        ctx, np = self.ctx, self.lib.np
        k = {}
        w = World.__new__(World)
        w.periods, w.a, w.kind = None, .5, 'flat'
        w.metric = 'Eddington-Finkelstein'
        w.members, w.clean, w.exact = [], True, True
        d = 0
        if name == 'obj':
            if kind in ('ef', 'schwarz'):
                d = 2
            else:
                d = max(dims[0], 1 if kind == 'flat' else 2)
            o = World(ctx, kind, d, par, 0)
            w.kind, w.a, w.periods = kind, o.a, o.periods
            w.metric = getattr(o, 'metric', w.metric)
            k['spacetime'] = o.real.Spacetime
        elif name:
            k['spacetime'] = name
            w.kind = self.NAMES.get(name, '')
            w.a = 1.0 if w.kind == 'ds' else .5
        D = dim if dim > 0 else d
        if shape == 'obj':
            k['shape'] = self.lib.Shape(dims[1], ('ball', 'cube')[par % 2])
            D = D or dims[1]
        elif shape:
            k['shape'] = shape
        rd = dims[2]
        if form:
            D = D or rd
        D = D or 2
        if dim != -1 or par % 3 == 0:
            k['dim'] = dim
        bad = name == 'nonsense' or name == 'obj' and d != D or \
            shape == 'prism' or shape == 'obj' and dims[1] != D or \
            w.kind == 'ef' and D != 2 or w.kind in ('ds', 'ads') and D < 2
        co = []
        w.d = rd
        if form:
            w2 = w if w.kind and not (w.kind in ('ef', 'schwarz') or
                                      w.periods) or rd == D else None
            if w2 is None:
                rd, w.d = D, D
            if w.kind in ('ds', 'ads', 'ef', 'schwarz') and rd < 2 or \
                    w.kind in ('ef', 'schwarz') and rd != 2 or bad:
                co = [[.5 * j] * rd for j in range(len(rows))]
            else:
                co = [w.coords(u) for u in rows]
            if form == 'array':
                k['coordinates'] = np.array(co)
            elif form == 'flat':
                k['coordinates'] = np.array(co[0])
                # a vector is no matrix of rows
                if dim <= 0 and not d and shape != 'obj':
                    return
                bad = True
            else:
                if ragged and len(co) > 1:
                    co[-1] = co[-1] + [0.0]
                    bad = True
                k['coordinates'] = [np.array(x) for x in co] \
                    if form == 'rows' else [list(x) for x in co]
            bad = bad or rd != D
        what = 'EmbeddedCauset(%s)' % short(k)
        ctx.stats['lib_calls'] += 1
        try:
            c = self.lib.EC(**k)
        except ValueError as e:
            ctx.check(bad, 'ctor:rejected', lambda: '%s raised %r' % (
                what, e))
            ctx.probes['ctor_rejected'] += 1
            ctx.log('conf', 'rejected')
            return
        except Exception as e:
            ctx.fail('ctor:error', '%s raised %r%s' % (
                what, e, ' instead of ValueError' if bad else ''))
        ctx.check(not bad, 'ctor:accepted', lambda: (
            '%s was accepted, its dimensions do not agree' % what))
        ctx.probes['ctor_accepted'] += 1
        w.d, w.real = D, c
        ctx.eq((c.Dim, c.Spacetime.Dim, c.Shape.Dim), (D, D, D), 'ctor:dim',
               what)
        ctx.eq(c.Spacetime.Name, {'flat': 'flat', 'periodic': 'flat',
                                  'ds': 'de Sitter', 'ads': 'Anti-de Sitter',
                                  'ef': 'black hole', 'schwarz':
                                  'black hole'}[w.kind], 'ctor:spacetime',
               what)
        ctx.eq(c.Shape.Name, ('ball', 'cube')[par % 2] if shape == 'obj' else
               'bicone' if shape == 'diamond' else shape if shape else
               {'flat': 'bicone', 'periodic': 'cube'}.get(
                   w.kind, 'cylinder'), 'ctor:shape', what)
        ctx.eq(c.Card, len(co), 'ctor:card', what)
        left = list(enumerate(co))
        for e in sorted(c, key=lambda e: e.Label):
            x = [float(q) for q in e.Coordinates]
            j = e.Label - 1
            ctx.check(j == left[0][0] and x == left[0][1], 'ctor:events',
                      lambda: '%s has event %r at %s' % (what, e.Label, x))
            left.pop(0)
            w.members.append(self.reg(e, x, e.Label))
        self.W.append(w)
        ctx.log('conf', what)

    def op_free(self, row, c):
        w = self.W[c % len(self.W)]
        if len(self.ev) > 60:
            return
        x = w.coords(row)
        if row[4] % 3 == 0:
            e = self.ctx.call('CausetEvent', self.lib.E, label=7)
            x = None
        else:
            e = self.ctx.call('CausetEvent', self.lib.E, label=7,
                              coordinates=tuple(x))
        self.reg(e, x, 7)
        self.ctx.log('free', x)

    def op_relate(self, c, link):
        w = self.W[c % len(self.W)]
        if not self.ok(w):
            return
        if link == 2:
            self.ctx.call('relate', w.real.relate, link=False)
        else:
            self.ctx.call('relate', w.real.relate)
        self.related(w)
        self.muts += 1
        self.ctx.log('relate', c, link)

    def op_add(self, c, L, form):
        w = self.W[c % len(self.W)]
        ids = []
        for e in L:
            i = self.pick(e)
            if i is not None and self.co[i] is not None and \
                    len(self.co[i]) == w.d and i not in ids:
                ids.append(i)
        new = [i for i in ids if i not in w.members]
        if len(w.members) + len(new) > 16:
            return
        arg = [self.ev[i] for i in ids]
        self.ctx.call('add', w.real.add, set(arg) if form else arg)
        w.members += new
        if new:
            w.clean = w.exact = False
        self.muts += 1
        self.ctx.log('add', ids)

    def op_discard(self, c, L, form):
        w = self.W[c % len(self.W)]
        if not w.members:
            return
        ids = sorted({w.members[e % len(w.members)] for e in L})
        arg = [self.ev[i] for i in ids]
        self.ctx.call('discard', w.real.discard, set(arg) if form else arg)
        w.members = [i for i in w.members if i not in ids]
        w.exact = False
        self.muts += 1
        self.ctx.log('discard', ids)

    def op_embed(self, e, row, re):
        i = self.pick(e)
        if i is None:
            return
        own = [w for w in self.W if i in w.members]
        w = own[0] if own else self.W[0]
        x = w.coords(row)
        E = self.ev[i]
        if self.co[i] is not None and not re:
            self.ctx.probes['double_embed'] += 1
            self.raises('embed', E.embed, x)
            return
        form = row[4] % 3
        arg = x if form == 0 else tuple(x) if form == 1 \
            else self.lib.np.array(x)
        if re:
            self.ctx.call('embed', E.embed, arg, reembed=True)
        else:
            self.ctx.call('embed', E.embed, arg)
        if form == 0:
            x = list(x)
            arg.append(5.0)
        self.co[i] = x
        self.stale(i)
        self.muts += 1
        self.ctx.log('embed', i, x)

    def op_disembed(self, e):
        i = self.pick(e)
        if i is None:
            return
        if self.co[i] is None:
            self.ctx.probes['unembedded_read'] += 1
            self.raises('disembed', self.ev[i].disembed)
            return
        self.ctx.call('disembed', self.ev[i].disembed)
        self.co[i] = None
        self.stale(i)
        self.muts += 1
        self.ctx.log('disembed', i)

    def raises(self, name, fn, *a):
        self.ctx.stats['lib_calls'] += 1
        try:
            fn(*a)
        except AttributeError:
            return
        except Exception as e:
            self.ctx.fail(name + ':error', '%s raised %r instead of '
                          'AttributeError' % (name, e))
        self.ctx.fail(name + ':accepted', '%s did not raise AttributeError'
                      % name)

    def op_read(self, e):
        i = self.pick(e)
        if i is None:
            return
        E, x = self.ev[i], self.co[i]
        if x is None:
            self.ctx.probes['unembedded_read'] += 1
            self.raises('Coordinates', lambda: E.Coordinates)
        self.ctx.eq(bool(self.ctx.call('isEmbedded', lambda: E.isEmbedded)),
                    x is not None, 'isEmbedded', 'isEmbedded')
        self.ctx.eq(self.ctx.call('dim', lambda: E.CoordinatesDim),
                    0 if x is None else len(x), 'CoordinatesDim')
        self.ctx.log('read', i)

    def op_relabel(self, c, dim, desc):
        w = self.W[c % len(self.W)]
        if not self.ok(w):
            return
        dim %= w.d
        args = ([] if dim == 0 and not desc else
                [dim] if not desc else [dim, True])
        self.ctx.call('relabel', w.real.relabel, *args)
        n = len(w.members)
        labs = {i: self.ev[i].Label for i in w.members}
        self.ctx.eq(sorted(map(str, labs.values())),
                    sorted(map(str, range(1, n + 1))), 'relabel:labels',
                    'labels after relabel')
        seq = [self.co[i][dim] for i in
               sorted(w.members, key=lambda i: int(labs[i]))]
        self.ctx.eq(seq, sorted(seq, reverse=bool(desc)), 'relabel:order',
                    'coordinates in label order')
        for i in w.members:
            self.lab[i] = labs[i]
        self.ctx.log('relabel', c, dim, desc)

    def op_disjoin(self, e):
        i = self.pick(e)
        if i is None:
            return
        self.ctx.call('disjoin', self.ev[i].disjoin)
        # its relatives lose it: also those outside
        for w in self.W:
            if i in w.members:
                w.clean = w.exact = False
        self.ctx.log('disjoin', i)

    def op_link(self, e):
        w = self.W[e % len(self.W)]
        self.ctx.call('link', w.real.link)

    def op_unlink(self, e):
        w = self.W[e % len(self.W)]
        self.ctx.call('unlink', w.real.unlink)

    # --------------------------------------------------------------- checks
    def check(self):
        ctx = self.ctx
        for i, e in enumerate(self.ev):
            x = self.co[i]
            if x is not None:
                got = ctx.call('Coordinates', lambda: [
                    float(q) for q in e.Coordinates])
                ctx.eq(got, x, 'coordinates', lambda: (
                    'coordinates of event %d' % i))
            if bool(e.isEmbedded) != (x is not None):
                ctx.fail('isEmbedded', 'isEmbedded of event %d is %s' % (
                    i, e.isEmbedded))
            ctx.eq(e.Label, self.lab[i], 'label', 'label of event %d' % i)
        for c, w in enumerate(self.W):
            got = []
            for e in ctx.call('iter', lambda: list(w.real)):
                ctx.check(id(e) in self.idx, 'members:foreign',
                          'a causet holds an unknown event')
                got.append(self.idx[id(e)])
            ctx.eq(sorted(got), sorted(w.members), 'members',
                   'events of causet %d' % c)
            if w.clean:
                self.check_causet(c, w)

    def check_causet(self, c, w):
        ctx = self.ctx
        mem = w.members
        n = len(mem)
        pos = {i: k for k, i in enumerate(mem)}
        P = [0] * n
        skip = False
        amb = [0] * n
        nrel = nun = 0
        for a in range(n):
            for b in range(a + 1, n):
                s = w.causal(self.co[mem[a]], self.co[mem[b]])
                if s is None:
                    skip = True
                    amb[a] |= 1 << b
                    amb[b] |= 1 << a
                elif s > 0:
                    P[b] |= 1 << a
                    nrel += 1
                elif s < 0:
                    P[a] |= 1 << b
                    nrel += 1
                else:
                    nun += 1
        F = [0] * n
        for j in range(n):
            for i in bits(P[j]):
                F[i] |= 1 << j
        for k, i in enumerate(mem):
            e = self.ev[i]
            for nm, exp in (('Past', P[k]), ('Future', F[k])):
                got = 0
                for x in ctx.call(nm, lambda: list(getattr(e, nm))):
                    j = self.idx.get(id(x))
                    if j in pos:
                        got |= 1 << pos[j]
                    elif w.exact:
                        ctx.fail('relation:foreign', '%s of event %d of a '
                                 'freshly related causet holds an event that '
                                 'is not a member' % (nm, i))
                d = (got ^ exp) & ~amb[k]
                if d:
                    b = mem[bits(d)[0]]
                    ctx.fail('causality:' + w.kind, '%s causet: events at %s '
                             'and %s: %s says %s' % (
                                 w.kind, self.co[i], self.co[b], nm,
                                 bool(got >> pos[b] & 1)))
        ctx.probes[w.kind] += 1
        if not w.exact:
            ctx.probes['restricted_check'] += 1
        if w.exact and not skip:
            q = Poset()
            q.past, q.fut = P, F
            for k, i in enumerate(mem):
                e = self.ev[i]
                for nm, exp in (('LinkPast', q.lpast(k)),
                                ('LinkFuture', q.lfut(k))):
                    got = 0
                    for x in ctx.call(nm, lambda: list(getattr(e, nm))):
                        j = self.idx.get(id(x))
                        ctx.check(j in pos, 'links:foreign',
                                  'a link to an event outside')
                        got |= 1 << pos[j]
                    ctx.eq(bits(got), bits(exp), 'links', lambda: (
                        '%s of event %d in a %s causet' % (nm, i, w.kind)))
        if nrel and nun:
            self.rich += 1
            ctx.state((w.kind, w.d, tuple(P)))
        if w.kind in ('ef', 'schwarz'):
            ins = {abs(self.co[i][1]) < w.a for i in mem}
            ctx.probes['horizon_pair'] += len(ins) == 2
        if w.kind == 'flat' and w.d > 1:
            for a in range(n):
                for b in bits(P[a]):
                    x, y = self.co[mem[a]], self.co[mem[b]]
                    if (x[0] - y[0]) ** 2 == sum(
                            (p - q) ** 2 for p, q in zip(x[1:], y[1:])):
                        ctx.probes['exact_null'] += 1
        ctx.log('rel', c, P if not skip else 'amb')


def run(ctx, case):
    ctx.rich = ctx.muts = 0
    R = Run(ctx, case)
    for t, op in enumerate(case['ops']):
        ctx.step = t
        ctx.stats['steps'] += 1
        ctx.stats['op:' + op[0]] += 1
        getattr(R, 'op_' + op[0])(*op[1:])
        R.check()
    ctx.rich, ctx.muts = R.rich, R.muts


def nontrivial(ctx):
    return ctx.rich >= 1 and ctx.muts >= 2
