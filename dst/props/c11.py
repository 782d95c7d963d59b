import random

from .. import seams
from ..engine import short
from ..seams import mix
from ..shapemodel import Geo, gen_shape, make
from .common import HIST_ASSUME
ID = 'C11'
COUNT = {'quick': 250000, 'thorough': 1500000}
CAP = {'quick': 45, 'thorough': 1500}
MIN_RUNS = 400
LISTS = ('ops',)
RULE = ('One run = one seeded history of sprinkle, intensify, create, add '
        'and discard calls on up to three sprinkled causets (constructed '
        'empty, with a cardinality or an intensity) that share events, plus '
        'an embedded causet. Rejected arguments and a failure of the '
        'generator at a seeded draw are injected. Intensity, density, '
        'length scale, events, relations, labels and coordinates are '
        'compared with the model after every operation. Non-trivial: at '
        'least three mutating operations on non-empty causets; distinct by '
        'event-log digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = 'distinct (operation, kept fraction or failure point) seen'
REAL = ['sprinkledcauset.py', 'embeddedcauset.py', 'shapes.py Volume',
        'causet.py', 'causetevent.py']
STUB = ['numpy.random.default_rng and generator arguments (SimRng: numpy '
        'Generator that raises at a seeded draw)',
        'CausetEvent.__hash__ (seeded)']
ASSUMPTIONS = HIST_ASSUME[:1] + [
    'Relative tolerance 1e-9 for intensities, 1e-4 for densities and length '
    'scales (shape parameters are single precision).',
    'Volumes as given by the independent formulas in dst/shapemodel.py.']
PROBES = ('draw_failed', 'draw_failed_late', 'negative', 'too_large', 'nan',
          'discard_all', 'discard_partial', 'discard_foreign', 'add_foreign',
          'add_present', 'constructor_card', 'constructor_intensity',
          'explicit_shape', 'default_rng', 'embedded', 'empty_length')
EXC = ('inj', 'int', 'mem', 'val', 'os')


def gen(rng, i):
    d = rng.choice((1, 2, 2, 2, 2, 3, 3, 4, 4, 6))
    cs = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        while True:
            s = gen_shape(rng, d)
            if not (s[1] == 'cylinder' and d == 1):
                break
        cs.append([s, rng.choice((0, 0, 0, 1, 2)),
                   rng.choice((0, 0.5, 1, 2.25, 3, 4, 7))])
    ops = []
    w = {'sprinkle': 5, 'intensify': 5, 'create': 3, 'add': 4, 'discard': 5,
         'reject': 2, 'fail': 3, 'ecreate': 1, 'ediscard': 1, 'link': .5}
    w = {k: v for k, v in w.items() if rng.random() < .85 or
         k == 'sprinkle'}
    for _ in range(rng.randrange(2, 18)):
        k = rng.choices(list(w), list(w.values()))[0]
        op = [k, rng.randrange(3)]
        if k == 'sprinkle':
            op += [rng.choice((0, 1, 2, 3, 5)), rng.randrange(3),
                   None if rng.random() < .7 else rng.randrange(1 << 30)]
        elif k == 'intensify':
            op += [rng.choice((0.0, 0.25, 1.0, 2.5, 4.0)), rng.randrange(3),
                   None if rng.random() < .7 else rng.randrange(1 << 30)]
        elif k in ('create', 'ecreate'):
            op += [[[rng.randrange(64) for _ in range(6)]
                    for _ in range(rng.randrange(4))],
                   rng.random() < .8, rng.random() < .5]
        elif k == 'add':
            op += [rng.randrange(4), [rng.randrange(1000) for _ in range(
                rng.randrange(5))], rng.random() < .3]
        elif k in ('discard', 'ediscard'):
            op += [rng.choice(('some', 'some', 'all', 'half')),
                   [rng.randrange(1000) for _ in range(rng.randrange(4))],
                   rng.random() < .3]
        elif k == 'reject':
            op += [rng.choice(('s-1', 's-7', 'i-1', 'i-tiny', 'i-huge',
                               'i-nan', 'i-inf')), rng.randrange(2)]
        elif k == 'fail':
            op += [rng.choice(('s', 'i')), rng.choice((1, 2, 3, 5)),
                   rng.choice((1, 1, 2, 2, 3, 4, 5, 7, 9, 12)),
                   rng.choice(EXC), rng.randrange(2),
                   None if rng.random() < .7 else rng.randrange(1 << 30)]
        ops.append(op)
    return {'d': d, 'causets': cs, 'ops': ops}


def simplify(case):
    if len(case['causets']) > 1:
        for k in range(len(case['causets'])):
            yield dict(case, causets=case['causets'][:k] +
                       case['causets'][k + 1:])


class S:
    pass


def close(a, b, rel):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-12


def run(ctx, case):
    lib, np = ctx.lib, ctx.lib.np
    d = case['d']
    ctx.mut = 0
    ev, co, idx = [], [], {}
    rngs = [lib.SimRng(mix(case['seed'], 31, k)) for k in range(2)]
    sets = []

    def register(got):
        L = sorted(got, key=lambda e: ctx.call('Label', lambda: str(e.Label)))
        for e in L:
            if id(e) not in idx:
                idx[id(e)] = len(ev)
                ev.append(e)
                co.append([float(v) for v in e.Coordinates])
        return {idx[id(e)] for e in got}

    def poissons():
        R = rngs + list(seams._registry)
        return (sum(len(r.poissons) for r in R),
                sum(sum(r.poissons) for r in R))

    def verify(s, tag):
        r = s.real
        mem = set()
        for e in ctx.call('iter', lambda: list(r)):
            ctx.check(id(e) in idx, tag + ':foreign', 'unknown event')
            mem.add(idx[id(e)])
        ctx.eq(mem, s.mem, tag + ':events', lambda: 'events after ' + tag)
        ctx.eq(r.Card, len(s.mem), tag + ':Card', 'Card')
        V = s.geo.volume()
        rho = ctx.call('Density', lambda: r.Density)
        L = ctx.call('LengthScale', lambda: r.LengthScale)
        if s.sprinkled:
            x = ctx.call('Intensity', lambda: r.Intensity)
            ctx.check(close(x, s.lam, 1e-9), tag + ':intensity', lambda: (
                'Intensity after %s is %r, expected %r' % (tag, x, s.lam)))
        want = s.lam if s.sprinkled else len(s.mem)
        if want > 1e-12 or want == 0:
            ctx.check(close(rho, want / V, 1e-4), tag + ':density', lambda: (
                'Density of %s after %s is %r, expected %r' % (
                    s.geo.name, tag, rho, want / V)))
            wl = 0.0 if want == 0 else (V / want) ** (1.0 / d)
            ctx.check(close(L, wl, 1e-4), tag + ':length', lambda: (
                'LengthScale of %s after %s is %r, expected %r' % (
                    s.geo.name, tag, L, wl)))
        if want == 0:
            ctx.probes['empty_length'] += 1

    def snapshot(s):
        E = sorted(s.mem)
        return ([ev[i].Label for i in E],
                [[ev[i] < ev[j] for j in E] for i in E],
                [ev[i].LinkFuture == ev[i].LinkFuture and
                 sorted(idx.get(id(x), -1) for x in ev[i].LinkFuture)
                 for i in E],
                [[float(v) for v in ev[i].Coordinates] for i in E],
                s.real.Intensity, s.real.Card)

    def added(s, got, n, tag):
        got = set(ctx.call(tag + ':set', lambda: list(got)))
        old = set(idx.values())
        if n is not None:
            ctx.eq(len(got), n, tag + ':count', 'number of new events')
        g = register(got)
        ctx.check(not g & old, tag + ':old', 'an old event was returned')
        s.mem |= g
        return g

    for spec, how, par in case['causets']:
        s = S()
        s.geo, s.spec, s.sprinkled, s.mem = Geo(spec), spec, True, set()
        kw = {'shape': make(lib, spec)}
        n = None
        if how == 1:
            kw['card'] = n = int(par)
            s.lam = float(int(par))
            ctx.probes['constructor_card'] += 1
        elif how == 2:
            kw['intensity'] = par
            s.lam = par
            ctx.probes['constructor_intensity'] += 1
        else:
            s.lam, n = 0.0, 0
        s.real = ctx.call('SprinkledCauset', lib.SC, **kw)
        added(s, s.real, n, 'constructor')
        sets.append(s)
        verify(s, 'constructor')
    emb = S()
    emb.geo, emb.spec = Geo(case['causets'][0][0]), case['causets'][0][0]
    emb.sprinkled, emb.mem = False, set()
    emb.real = ctx.call('EmbeddedCauset', lib.EC, shape=make(lib, emb.spec))
    sets.append(emb)

    for t, op in enumerate(case['ops']):
        ctx.step = t
        ctx.stats['steps'] += 1
        k = op[0]
        ctx.stats['op:' + k] += 1
        s = sets[op[1] % (len(sets) - 1)]
        if k in ('ecreate', 'ediscard'):
            s, k = emb, k[1:]
            ctx.probes['embedded'] += 1
        card = len(s.mem)
        if k in ('sprinkle', 'intensify'):
            if card > 20:
                continue
            kw = {}
            if op[3] < 2:
                kw['rng'] = rngs[op[3]]
            else:
                ctx.probes['default_rng'] += 1
            if op[4] is not None:
                kw['shape'] = make(lib, gen_shape(random.Random(op[4]), d))
                ctx.probes['explicit_shape'] += 1
            p0 = poissons()
            got = ctx.call(k, getattr(s.real, k), op[2], **kw)
            n = op[2]
            if k == 'intensify':
                p1 = poissons()
                n = p1[1] - p0[1] if p1[0] == p0[0] + 1 else None
            added(s, got, n, k)
            s.lam += op[2]
            ctx.mut += 1
            ctx.state((k, op[2], card))
        elif k == 'create':
            if card > 20:
                continue
            rows = [[s.geo.c[j] + r[j] / 64.0 for j in range(d)]
                    for r in op[2]]
            kw = {}
            if not op[3]:
                kw['relate'] = False
            if op[4]:
                kw['labelFormat'] = 'c%d_%%d' % t
            got = ctx.call('create', s.real.create, rows, **kw)
            n = len(added(s, got, len(rows), 'create'))
            if s.sprinkled:
                s.lam += n
            ctx.mut += 1
        elif k == 'add':
            src = sets[op[2] % len(sets)]
            pool = sorted(src.mem)
            ids = {pool[x % len(pool)] for x in op[3]} if pool else set()
            new = ids - s.mem
            ctx.probes['add_foreign'] += bool(new)
            ctx.probes['add_present'] += len(new) < len(ids)
            kw = {'unlink': True} if op[4] else {}
            ctx.call('add', s.real.add, {ev[i] for i in ids}, **kw)
            s.mem |= ids
            s.lam = s.lam + len(new) if s.sprinkled else None
            ctx.mut += 1
            ctx.state(('add', len(new), len(ids), card))
        elif k == 'discard':
            pool = sorted(s.mem)
            if op[2] == 'all':
                ids = set(pool)
                ctx.probes['discard_all'] += bool(ids)
            elif op[2] == 'half':
                ids = set(pool[::2])
            else:
                ids = {x % len(ev) for x in op[3]} if ev else set()
            ctx.probes['discard_foreign'] += bool(ids - s.mem)
            kept = s.mem - ids
            if kept and len(kept) < card:
                ctx.probes['discard_partial'] += 1
            kw = {'unlink': True} if op[4] else {}
            ctx.call('discard', s.real.discard, {ev[i] for i in ids}, **kw)
            if s.sprinkled and card:
                s.lam *= len(kept) / card
            s.mem = kept
            ctx.mut += bool(card)
            ctx.state(('discard', len(kept), card))
        elif k == 'link':
            ctx.call('link', s.real.link)
        elif k == 'reject':
            before = ctx.call('snapshot', snapshot, s)
            fn, arg = {
                's-1': (s.real.sprinkle, -1), 's-7': (s.real.sprinkle, -7),
                'i-1': (s.real.intensify, -1.0),
                'i-tiny': (s.real.intensify, -1e-9),
                'i-huge': (s.real.intensify, 1e30),
                'i-nan': (s.real.intensify, float('nan')),
                'i-inf': (s.real.intensify, float('inf'))}[op[2]]
            try:
                fn(arg, rng=rngs[op[3]])
            except ValueError:
                pass
            except Exception as e:
                ctx.fail('reject:exception', '%s(%s) raised %r' % (
                    fn.__name__, arg, e))
            else:
                ctx.fail('reject:accepted', '%s(%s) did not raise' % (
                    fn.__name__, arg))
            ctx.probes['negative' if '-' in str(arg) else
                       'nan' if arg != arg else 'too_large'] += 1
            ctx.faults['rejected_argument'] += 1
            ctx.eq(snapshot(s), before, 'reject:changed', lambda: (
                'state after %s(%s) raised' % (fn.__name__, arg)))
            ctx.state(('reject', op[2], card))
        elif k == 'fail':
            if card > 20:
                continue
            before = ctx.call('snapshot', snapshot, s)
            r = lib.SimRng(mix(case['seed'], 47, t),
                           {'fail_at': op[4], 'exc': op[5]})
            kw = {'rng': r}
            if op[7] is not None:
                kw['shape'] = make(lib, gen_shape(random.Random(op[7]), d))
            fn = s.real.sprinkle if op[2] == 's' else s.real.intensify
            try:
                got = fn(op[3] if op[2] == 's' else float(op[3]), **kw)
            except (seams.Injected, seams.InjectedInterrupt, MemoryError,
                    ValueError, OSError) as e:
                ctx.check(r.fired and 'injected' in str(e), 'fail:other',
                          lambda: '%s raised %r' % (fn.__name__, e))
                ctx.faults['draw_failed:' + op[5]] += 1
                ctx.probes['draw_failed'] += 1
                ctx.probes['draw_failed_late'] += op[4] > 2
                ctx.eq(snapshot(s), before, 'fail:changed', lambda: (
                    'state after %s failed at draw %d' % (
                        fn.__name__, op[4])))
                ctx.state(('fail', op[2], op[4], card))
            else:
                ctx.check(not r.fired, 'fail:swallowed', lambda: (
                    '%s swallowed a failure of its generator' %
                    fn.__name__))
                added(s, got, op[3] if op[2] == 's' else
                      sum(r.poissons) if len(r.poissons) == 1 else None,
                      'late')
                s.lam += op[3]
                ctx.mut += 1
        for x in sets:
            verify(x, k if x is s else 'other')
        ctx.log(k, [(sorted(x.mem), x.sprinkled and x.lam) for x in sets])
    for i, e in enumerate(ev):
        ctx.eq([float(v) for v in e.Coordinates], co[i], 'moved',
               'coordinates')


def nontrivial(ctx):
    return ctx.mut >= 3
