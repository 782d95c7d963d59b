from .. import spacemodel as sm
from ..engine import Ctx, Violation
from ..model import Poset, bits
from ..seams import Injected, InjectedInterrupt, LineTracer, mix
from . import hist
from .common import *
ID = 'C12'
COUNT = {'quick': 250000, 'thorough': 1500000}
CAP = {'quick': 45, 'thorough': 1500}
MIN_RUNS = 500
LISTS = ('ops',)
RULE = ('One run = one seeded history in which queries, link/unlink calls '
        'and path generators are interrupted by an exception injected at a '
        'seeded executed line or bytecode instruction of library code, after '
        'which the history goes on with order changes, further queries and '
        'cache operations; every later answer, the order, the membership and '
        'finally all links are compared with the reference poset. A failing '
        'history is repeated without interruptions and only counts if it '
        'then passes. One run in four is a history of an embedded causet '
        'whose create and relate calls are interrupted and repeated. '
        'Non-trivial: at least one interruption happened and was followed by '
        'a checked operation; distinct by event-log digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = 'distinct (interrupted function, reference order) pairs'
REAL = HIST_REAL + ['embeddedcauset.py', 'spacetimes.py (flat)']
STUB = HIST_STUB
ASSUMPTIONS = HIST_ASSUME + [
    'Interruptions happen between two lines or two bytecode instructions of '
    'library code, not inside one C-level set operation.',
    'After an interrupted create or relate only a completed relate() restores '
    'the answers; nothing is judged in between.']
PROBES = ('line', 'opcode', 'in_link', 'in_unlink', 'in_causet_link',
          'in_generator', 'in_query', 'then_mutation', 'in_create',
          'in_relate', 'relate_repeated')
W = {'new': 9, 'perm': 1, 'chain': .7, 'fence': .5, 'simplex': .5,
     'matrix': 1, 'causet': 3, 'pmerge': 2, 
     'merge': 3, 'disjoin': 3, 'add': 1,
     'discard': 1, 'link': 3, 'unlink': 2, 'clink': 3, 'cunlink': 1,
     'gstart': 2, 'gnext': 4, 'q': 16}
Q = {'lpast': 4, 'lfut': 4, 'lcone': 2, 'lcards': 2, 'islink': 4,
     'lcount': 2, 'lmatrix': 1, 'perim': 2, 'interval': 1, 'of': 1, 'inf': 1,
     'is': 2, 'disjoint': 1, 'central': 1, 'sorted': 1, 'matrix': 1,
     'smallest': 1, 'paths': 3, 'rank': 2, 'layers': 1.5, 'numbers': 1,
     'layered': 1, 'sets': .5, 'setop': 1, 'member': .5, 'find': 1}
STOP = ('q', 'link', 'unlink', 'clink', 'cunlink', 'gstart', 'gnext')


class All:
    def __contains__(self, x):
        return True


def gen(rng, i):
    if i % 4 == 3:
        return gen_embedded(rng)
    nmax = rng.choice((4, 5, 6, 8, 10, 12))
    ops = hist.gen_ops(rng, hist.swarm(rng, W), Q, rng.randrange(6, 40), nmax)
    p = rng.choice((.15, .4, .8))
    out = []
    for op in ops:
        if op[0] in STOP and rng.random() < p:
            op = ['int', op, int(2 ** (rng.random() * rng.choice((3, 6, 9)))),
                  rng.randrange(4)]
        out.append(op)
    return {'kind': 'history', 'ops': out, 'nmax': nmax,
            'final_seed': rng.randrange(10 ** 6)}


def gen_embedded(rng):
    d = rng.choice((1, 2, 2, 3))
    ops = []
    for _ in range(rng.randrange(3, 16)):
        k = rng.choices(('create', 'relate', 'discard', 'read', 'link',
                         'unlink'), (6, 5, 2, 3, 1, 1))[0]
        at = int(2 ** (rng.random() * rng.choice((4, 8, 11)))) \
            if rng.random() < .5 else 0
        if k == 'create':
            op = [k, at, rng.randrange(4),
                  [[rng.randrange(-16, 17) for _ in range(d)]
                   for _ in range(rng.randrange(1, 5))]]
        elif k == 'relate':
            op = [k, at, rng.randrange(4), rng.randrange(3)]
        else:
            op = [k, at, rng.randrange(4),
                  [rng.randrange(1000) for _ in range(3)]]
        ops.append(op)
    return {'kind': 'embedded', 'd': d, 'ops': ops}


def tracer(at, mode):
    return LineTracer(at, InjectedInterrupt if mode & 1 else Injected,
                      opcodes=bool(mode & 2))


def history(ctx, case, interrupts):
    M = hist.Machine(ctx, All(), case['nmax'])
    pending = False
    for t, op in enumerate(case['ops']):
        ctx.step = t
        ctx.stats['steps'] += 1
        if op[0] == 'int':
            _, op, at, mode = op
            if interrupts:
                gens = [g for g in M.gens if not g['done']]
                lengths = [len(g['seen']) for g in gens]
                T = tracer(at, mode)
                try:
                    with T:
                        M.step(op)
                except (Injected, InjectedInterrupt):
                    pass
                if T.fired:
                    ctx.faults['interrupt:' + T.fired[1]] += 1
                    ctx.probes['opcode' if mode & 2 else 'line'] += 1
                    ctx.probes[{'link': 'in_link', 'unlink': 'in_unlink',
                                'cunlink': 'in_unlink',
                                'clink': 'in_causet_link',
                                'gnext': 'in_generator',
                                'gstart': 'in_generator'}.get(
                                    op[0], 'in_query')] += 1
                    ctx.state((T.fired, M.m.signature()))
                    pending = True
                    ctx.log('interrupted', op[0], T.fired, T.count)
                    if op[0] == 'gnext' and M.gens:
                        M.gens.pop(op[1] % len(M.gens))
                    M.check_order('order')
                    M.check_members('sets')
                    if mix(at, t) % 3 == 0:
                        M.check_links(mix(at, t, 1))
                        M.check_members('sets')
                    continue
                del gens, lengths
            else:
                M.step(op)
        else:
            M.step(op)
        if pending:
            ctx.followed += 1
            if op[0] in hist.ORDER_OPS:
                ctx.probes['then_mutation'] += 1
        if op[0] in hist.ORDER_OPS:
            M.check_order('order')
            M.check_copies()
        elif op[0] in ('add', 'discard', 'causet'):
            M.check_members('sets')
    ctx.step = len(case['ops'])
    M.finish_gens()
    M.check_order('order')
    M.check_members('sets')
    M.check_links(case['final_seed'])
    M.check_order('links')
    ctx.followed += pending
    ctx.log('end', M.m.signature(), [c[1] for c in M.causets])


def embedded(ctx, case, interrupts):
    lib = ctx.lib
    d = case['d']
    c = ctx.call('EmbeddedCauset', lib.EC, dim=d)
    ev, co, idx = [], [], {}
    fresh = True          # relations are up to date

    def interrupted(at, mode, name, fn):
        """True if the call was interrupted"""
        T = tracer(at if interrupts else 0, mode)
        try:
            with T:
                ctx.call(name, fn)
        except (Injected, InjectedInterrupt):
            ctx.faults['interrupt:' + T.fired[1]] += 1
            ctx.probes['opcode' if mode & 2 else 'line'] += 1
            ctx.log(name, 'interrupted', T.fired, T.count)
            ctx.state((T.fired, name, len(ev)))
            return True
        return False

    def present():
        out = []
        for e in ctx.call('iter', lambda: list(c)):
            if id(e) not in idx:
                idx[id(e)] = len(ev)
                ev.append(e)
                co.append([float(v) for v in e.Coordinates])
            out.append(idx[id(e)])
        ctx.eq(c.Card, len(out), 'Card')
        return sorted(out)

    def verify(tag):
        L = present()
        P = Poset()
        for i in range(len(ev)):
            P.past.append(0)
            P.fut.append(0)
        for i in L:
            for j in L:
                s = sm.flat(co[i], co[j])
                if s == 1:
                    P.fut[i] |= 1 << j
                    P.past[j] |= 1 << i

        def mask(xs):
            r = 0
            for e in xs:
                ctx.check(id(e) in idx, tag + ':stranger',
                          'an event of the causet is related or linked to '
                          'an unknown event')
                r |= 1 << idx[id(e)]
            return r
        for i in L:
            e = ev[i]
            for nm, want in (('Past', P.past[i]), ('Future', P.fut[i]),
                             ('LinkPast', P.lpast(i)),
                             ('LinkFuture', P.lfut(i))):
                got = ctx.call(nm, lambda: mask(getattr(e, nm)))
                ctx.eq(bits(got), bits(want), tag + ':' + nm, lambda: (
                    '%s of the event at %s %s' % (nm, co[i], tag)))
        ctx.log(tag, L, P.past)

    seen = set()
    for t, op in enumerate(case['ops']):
        ctx.step = t
        ctx.stats['steps'] += 1
        k, at, mode, arg = op
        before = present()
        if k == 'create':
            rows = []
            for r in arg:
                x = tuple(v / 8.0 for v in r)
                if x not in seen and len(ev) + len(rows) < 16:
                    rows.append(list(x))
                    seen.add(x)
            if not rows:
                continue
            if interrupted(at, mode, 'create', lambda: c.create(rows)):
                ctx.probes['in_create'] += 1
                fresh = False
                after = present()
                ctx.check(set(before) <= set(after), 'create:lost',
                          'an interrupted create removed events')
                for i in after:
                    if i not in before:
                        ctx.check(co[i] in rows, 'create:coordinates',
                                  'an event with coordinates that were not '
                                  'requested')
            else:
                ctx.eq(len(present()), len(before) + len(rows),
                       'create:count')
                fresh = True
        elif k == 'relate':
            link = {} if arg == 0 else {'link': arg == 1}
            if interrupted(at, mode, 'relate', lambda: c.relate(**link)):
                ctx.probes['in_relate'] += 1
                fresh = False
            else:
                ctx.probes['relate_repeated'] += not fresh
                fresh = True
            ctx.eq(present(), before, 'relate:events', 'events after relate')
        elif k == 'discard':
            L = [before[x % len(before)] for x in arg] if before else []
            ctx.call('discard', c.discard, {ev[i] for i in L})
            # related to events outside now; only judged after relate()
            fresh = fresh and not L
        elif k in ('link', 'unlink'):
            interrupted(at, mode, k, getattr(c, k))
        elif k == 'read' and before:
            e = ev[before[arg[0] % len(before)]]
            interrupted(at, mode, 'read', lambda: (
                e.LinkPast, e.LinkFuture, e.LinkCone)[arg[1] % 3])
        if fresh:
            verify('after ' + k)
            ctx.followed += bool(ctx.faults)
    if not fresh:
        ctx.call('relate', c.relate)
        ctx.probes['relate_repeated'] += 1
        ctx.followed += bool(ctx.faults)
        verify('after the last relate')


def run(ctx, case):
    ctx.followed = 0
    body = history if case['kind'] == 'history' else embedded
    try:
        body(ctx, case, True)
    except Violation as v:
        # is it the interruption?
        from .. import seams
        seams.begin_case(ctx.lib, case['seed'],
                         case.get('hash_mode', 'scramble'),
                         case.get('hash_seed', case['seed']))
        twin = Ctx(ctx.lib, {k: x for k, x in case.items() if k != '_trace'})
        twin.followed = 0
        try:
            body(twin, case, False)
        except (Violation, hist.Abort):
            ctx.stats['aborted_outside_domain'] += 1
            ctx.log('abort', v.key)
            ctx.followed = 0
            return
        raise


def nontrivial(ctx):
    return ctx.followed > 0
