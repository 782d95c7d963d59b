from .. import seams
from ..engine import short
from ..seams import mix
from ..shapemodel import Geo, gen_shape, make
from .common import HIST_ASSUME
ID = 'C09'
COUNT = {'quick': 250000, 'thorough': 1500000}
CAP = {'quick': 50, 'thorough': 1500}
MIN_RUNS = 400
LISTS = ('ops',)
RULE = ('One run = one seeded history of sprinkle, intensify, create and '
        'discard calls on up to four sprinkled causets (all shapes, 1-5 '
        'dimensions, shifted and hollow) taking turns on shared simulated '
        'generators and the default generators; with seeded probability a '
        'draw is replaced by an extreme value of its range. Twin calls '
        'repeat a sprinkle with an equal generator on another causet. '
        'Non-trivial: at least two sprinkle calls that created events; '
        'distinct by event-log digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = 'distinct (shape, dimension, hollow, extreme draws) sprinkled'
REAL = ['sprinkledcauset.py', 'shapes.py', 'embeddedcauset.py',
        'spacetimes.py', 'causet.py', 'causetevent.py']
STUB = ['numpy.random.default_rng and generator arguments (SimRng: a numpy '
        'Generator whose draws are recorded and may be pushed to the ends '
        'of their range)', 'CausetEvent.__hash__ (seeded)']
ASSUMPTIONS = HIST_ASSUME[:1] + [
    'Rounding tolerance 5e-6 relative (coordinates are single precision).',
    'Extreme draws are the ends of the half-open range of the draw and '
    'values 1e-9 away from them; normal variates of +-8 and +-1e-12.',
    'Hollow one-dimensional cylinders (empty volume) are excluded.']
PROBES = ('extreme', 'default_rng', 'twin', 'explicit_shape', 'hollow',
          'zero', 'after_discard', 'd1', 'constructor')


def gen(rng, i):
    dims = rng.choice((1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7))
    cs = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        s = gen_shape(rng, dims if rng.random() < .7 else None)
        cs.append([s, rng.choice((0, 0, 0, 1, 2)), rng.randrange(6)])
    ext = rng.choice((0, 0, 0, .05, .3))
    ops = []
    for _ in range(rng.randrange(2, 14)):
        k = rng.choices(('sprinkle', 'intensify', 'twin', 'create',
                         'discard', 'relate'), (8, 5, 4, 2, 2, .5))[0]
        c = rng.randrange(4)
        if k in ('sprinkle', 'twin'):
            op = [k, c, rng.choice((0, 1, 1, 2, 3, 5, 8, 16)),
                  rng.randrange(4), None if rng.random() < .7
                  else rng.randrange(1 << 30)]
        elif k == 'intensify':
            op = [k, c, rng.choice((0.0, 0.3, 1.0, 3.0, 6.5)),
                  rng.randrange(4), None if rng.random() < .7
                  else rng.randrange(1 << 30)]
        elif k == 'create':
            op = [k, c, [[rng.randrange(64) for _ in range(8)]
                         for _ in range(rng.randrange(3))]]
        else:
            op = [k, c, [rng.randrange(100)
                         for _ in range(rng.randrange(1, 4))]]
        ops.append(op)
    return {'causets': cs, 'ops': ops, 'ext': ext}


def simplify(case):
    if len(case['causets']) > 1:
        for k in range(len(case['causets'])):
            yield dict(case, causets=case['causets'][:k] +
                       case['causets'][k + 1:])
    if case['ext']:
        yield dict(case, ext=0)


class S:
    pass


def run(ctx, case):
    import random
    lib, np = ctx.lib, ctx.lib.np
    ctx.batches = 0
    seed = case['seed']
    plan = {'extreme': case['ext']} if case['ext'] else {}
    rngs = [lib.SimRng(mix(seed, 31, k), plan) for k in range(3)]
    if plan:
        for r in seams._registry:
            r.plan = plan
    sets = []
    seen = []          # coordinate batches by generator class

    def counts():
        return sum(sum(r.poissons) for r in seams._registry) + \
            sum(sum(r.poissons) for r in rngs)

    def ndraws():
        return sum(len(r.poissons) for r in seams._registry) + \
            sum(len(r.poissons) for r in rngs)

    def coords(e):
        return [float(v) for v in e.Coordinates]

    def batch(s, geo, got, n, tag, before_card):
        """the events created by one call"""
        got = ctx.call(tag + ':set', lambda: list(got))
        if n is not None:
            ctx.eq(len(got), n, tag + ':count', lambda: (
                'events created by %s in a %s' % (tag, geo.name)))
        n = len(got)
        for e in got:
            ctx.check(id(e) not in s.idx, tag + ':old',
                      'an existing event was returned as new')
        got.sort(key=lambda e: e.Label if isinstance(e.Label, int) else 0)
        ctx.eq([e.Label for e in got],
               list(range(before_card + 1, before_card + 1 + n)),
               tag + ':labels', 'labels of the new events')
        rows = []
        for e in got:
            x = coords(e)
            why = geo.inside(x)
            ctx.check(why is None, tag + ':outside', lambda: (
                'a point %s of a sprinkle in %s (r=%s hollow=%s center=%s '
                'edges=%s duration=%s) %s' % (
                    x, geo.name, geo.r, geo.h, geo.c, geo.edges, geo.dur,
                    why)))
            rows.append(x)
            s.idx[id(e)] = len(s.ev)
            s.ev.append(e)
            s.co.append(x)
        if n:
            ctx.batches += 1
            ctx.state((geo.name, geo.d, geo.h, geo.r, bool(plan)))
            ctx.probes['hollow'] += geo.h > 0
            ctx.probes['d1'] += geo.d == 1
        else:
            ctx.probes['zero'] += 1
        if not plan and n:
            ext = geo.extents()
            # single precision must resolve the shape, and the comparisons
            # below must have a negligible chance (< 1e-15) of coincidence
            cells = 1.0
            for e, c in zip(ext, geo.c):
                cells *= e * (1 - geo.h) / (1.2e-7 * (abs(c) + e))
            if geo.d > 1 and cells > 1e12 * n * n:
                ctx.check(len(set(map(tuple, rows))) == n, tag + ':repeated',
                          lambda: 'a sprinkle holds equal points: %s' % rows)
            if n * geo.d >= 6 and geo.h <= .9 and all(
                    e > 3e-3 * abs(c) for e, c in zip(ext, geo.c)):
                key = [round(v / e, 4) for r in rows
                       for v, e in zip(geo.rel(r), ext)]
                for old in seen:
                    m = min(len(old), len(key))
                    if m >= 6:
                        ctx.check(old[:m] != key[:m], tag + ':same-points',
                                  'two sprinkles gave the same points %s' %
                                  short(rows))
                seen.append(key)
        return rows

    def members(s):
        got = ctx.call('iter', lambda: list(s.real))
        ids = []
        for e in got:
            ctx.check(id(e) in s.idx, 'members:foreign', 'unknown event')
            ids.append(s.idx[id(e)])
        ctx.eq(sorted(ids), sorted(s.mem), 'members', 'events of the causet')
        ctx.eq(s.real.Card, len(s.mem), 'Card', 'Card')
        for k, e in enumerate(s.ev):
            ctx.eq(coords(e), s.co[k], 'moved', 'coordinates of an earlier '
                   'event')

    for k, (spec, how, par) in enumerate(case['causets']):
        s = S()
        s.geo = Geo(spec)
        s.spec = spec
        s.idx, s.ev, s.co, s.mem = {}, [], [], []
        shape = make(lib, spec)
        kw = {'shape': shape}
        c0, d0 = counts(), ndraws()
        if how == 1:
            kw['card'] = par
        elif how == 2:
            kw['intensity'] = float(par)
        s.real = ctx.call('SprinkledCauset', lib.SC, **kw)
        if how:
            n = par if how == 1 and par > 0 else \
                counts() - c0 if ndraws() > d0 else None
            rows = batch(s, s.geo, list(s.real), n, 'constructor', 0)
            s.mem = list(range(len(rows)))
            ctx.probes['constructor'] += 1
        sets.append(s)
        members(s)

    for t, op in enumerate(case['ops']):
        ctx.step = t
        ctx.stats['steps'] += 1
        k = op[0]
        ctx.stats['op:' + k] += 1
        s = sets[op[1] % len(sets)]
        card = len(s.mem)
        if k in ('sprinkle', 'intensify', 'twin'):
            g = op[3]
            geo, shape = s.geo, None
            if op[4] is not None:
                spec = gen_shape(random.Random(op[4]), s.geo.d)
                geo, shape = Geo(spec), make(lib, spec)
                ctx.probes['explicit_shape'] += 1
            if card > 40:
                continue
            if k == 'twin':
                g = -1
            before = seams.ambient_states(lib)
            others = [r.sim_state() for j, r in enumerate(rngs)
                      if g == 3 or j != g]
            draws0 = sum(r.extremes for r in rngs) + \
                sum(r.extremes for r in seams._registry)
            kw = {}
            if k == 'twin':
                ts = mix(seed, 47, t)
                r1, r2 = lib.SimRng(ts, plan), lib.SimRng(ts, plan)
                kw['rng'] = r1
            elif g < 3:
                kw['rng'] = rngs[g]
            else:
                ctx.probes['default_rng'] += 1
            if shape is not None:
                kw['shape'] = shape
            c0, d0 = counts(), ndraws()
            if k == 'intensify':
                got = ctx.call('intensify', s.real.intensify, op[2], **kw)
                n = counts() - c0 if ndraws() > d0 else None
            else:
                got = ctx.call('sprinkle', s.real.sprinkle, op[2], **kw)
                n = op[2]
            n0 = len(s.ev)
            rows = batch(s, geo, got, n, k, card)
            s.mem += list(range(n0, len(s.ev)))
            after = seams.ambient_states(lib)
            if g != 3:
                # only the given generator is consumed
                ctx.check(before == after, 'other-generator', lambda: (
                    '%s(rng=...) consumed another generator' % k))
            else:
                ctx.check(before[1:] == after[1:], 'global-generator',
                          'the global random state was consumed')
            now = [r.sim_state() for j, r in enumerate(rngs)
                   if g == 3 or j != g]
            ctx.check(others == now, 'foreign-generator',
                      'a generator that was not given was consumed')
            ex = sum(r.extremes for r in rngs) + \
                sum(r.extremes for r in seams._registry) - draws0
            if ex:
                ctx.faults['extreme_draws'] += ex
                ctx.probes['extreme'] += 1
            if k == 'twin':
                # an equal generator, another causet with another history
                w = ctx.call('SprinkledCauset', lib.SC,
                             shape=make(lib, s.spec))
                if t % 2:
                    ctx.call('create', w.create, [[0.25] * s.geo.d] * 2)
                pre = w.Card
                kw['rng'] = r2
                got2 = list(ctx.call('sprinkle', w.sprinkle, op[2], **kw))
                got2.sort(key=lambda e: e.Label)
                ctx.eq([coords(e) for e in got2], rows, 'reproducible',
                       'points of two sprinkles with equal generators')
                ctx.eq([e.Label for e in got2], list(range(
                    pre + 1, pre + 1 + len(rows))), 'twin:labels')
                ctx.check(r1.sim_state() == r2.sim_state(), 'rng-state',
                          'equal generators end in different states')
                ctx.faults['extreme_draws'] += r1.extremes + r2.extremes
                ctx.probes['twin'] += 1
            ctx.log(k, rows)
        elif k == 'create':
            co = [[s.geo.c[j] + r[j] / 64.0 for j in range(s.geo.d)]
                  for r in op[2]]
            if card + len(co) > 40:
                continue
            got = ctx.call('create', s.real.create, co)
            n0 = len(s.ev)
            L = sorted(got, key=lambda e: e.Label)
            ctx.eq([e.Label for e in L], list(range(
                card + 1, card + 1 + len(co))), 'create:labels')
            for e in L:
                s.idx[id(e)] = len(s.ev)
                s.ev.append(e)
                s.co.append(coords(e))
                s.mem.append(len(s.ev) - 1)
        elif k == 'discard':
            if not s.mem:
                continue
            ids = sorted({s.mem[x % len(s.mem)] for x in op[2]})
            ctx.call('discard', s.real.discard, {s.ev[x] for x in ids})
            s.mem = [x for x in s.mem if x not in ids]
            ctx.probes['after_discard'] += 1
        elif k == 'relate':
            ctx.call('relate', s.real.relate)
        for x in sets:
            members(x)


def nontrivial(ctx):
    return ctx.batches >= 2
