import copy

from .. import seams
from ..engine import Ctx, Violation
from ..sched import Sched, gen_focus
from . import hist
from .common import *
ID = 'C13'
COUNT = {'quick': 250000, 'thorough': 1500000}
CAP = {'quick': 70, 'thorough': 1500}
MIN_RUNS = 300
LISTS = ('ops', 'plan', 't0', 't1', 't2', 't3')
RULE = ('One run = a seeded history that leaves the link caches in some '
        'partially filled state, then two to four threads that query the '
        'same events and causets (all order, link, path, rank, layer and set '
        'queries, link() of events and causets) under a seeded schedule that '
        'preempts the running thread at given numbers of executed bytecode '
        'instructions of library code. Every answer is compared with the '
        'reference poset, afterwards order, membership and all links. A '
        'failing run is repeated with one thread after the other and only '
        'counts if it then passes. Non-trivial: at least two preemptions '
        'inside library calls took place; distinct by event-log digest, '
        'which contains the schedule.')
SIMTIME = 'simulated time is counted as executed library bytecode ' \
    'instructions (stats: instructions)'
STATE_MEASURE = 'distinct (preempted function, resumed thread function) ' \
    'pairs per reference order'
REAL = HIST_REAL + ['threading.Thread (real threads, one runs at a time)']
STUB = HIST_STUB + ['thread switching (explicit seeded plan)',
                    'threading.Lock/RLock if the library uses them']
ASSUMPTIONS = HIST_ASSUME + [
    'Preemption between any two bytecode instructions of library code; one '
    'C-level set operation is atomic (global interpreter lock).',
    'Nobody changes the order while threads query; unlink() is not called '
    'by the threads.']
PROBES = ('preempt:link', 'preempt:query', 'cold_caches', 'warm_caches',
          'half_caches', 'three_threads', 'paths_preempted', 'hot', 'target')
W = {'new': 10, 'perm': 1.5, 'chain': .7, 'fence': .7, 'simplex': .7,
     'matrix': 1.5, 'causet': 4, 'merge': 2, 'disjoin': 1, 'link': 2,
     'unlink': 1, 'clink': .7, 'cunlink': 1, 'q': 3}
QB = {'lpast': 4, 'lfut': 4, 'islink': 4}
Q = {'cmp': .5, 'sets': .5, 'lpast': 5, 'lfut': 5, 'lcone': 4, 'lcards': 4,
     'islink': 5, 'lcount': 3, 'lmatrix': 2, 'perim': 3, 'interval': 1,
     'of': 1, 'spaceto': .5, 'inf': 1, 'is': 3, 'disjoint': 1, 'central': 1.5,
     'sorted': 1.5, 'matrix': 1, 'smallest': 1, 'paths': 5, 'rank': 3,
     'layers': 3, 'numbers': 2, 'layered': 2, 'setop': 1, 'member': .5,
     'find': 1}
TQ = ('rank', 'paths', 'perim', 'interval', 'cmp', 'islink')
T = {'q': 14, 'link': 3, 'clink': 1.5, 'gstart': 1, 'gnext': 2}


class All:
    def __contains__(self, x):
        return True


def bursts(rng, plan, scale):
    """close switches also late in the calls: quiet times in between"""
    if rng.random() < .6:
        for _ in range(rng.choice((1, 1, 2, 4))):
            plan[rng.randrange(len(plan))][0] += int(
                2 ** (rng.random() * scale))
        if rng.random() < .5:
            plan[0][0] += int(2 ** (rng.random() * scale))


def gen(rng, i):
    nmax = rng.choice((4, 6, 8, 10, 12, 14, 24))
    ops = hist.gen_ops(rng, hist.swarm(rng, W), QB, rng.randrange(3, 16),
                       nmax)
    if not any(o[0] == 'causet' for o in ops):
        ops.append(['causet', [rng.randrange(1000) for _ in range(5)], 0])
    x = rng.random()
    if x < .35:          # all caches empty
        ops += [['cold']]
    elif x < .45:
        ops += [['clink', k] for k in range(4)]
    n = rng.choice((2, 2, 2, 3, 4))
    q = {k: v for k, v in Q.items() if rng.random() < .6 or k == 'lpast'}
    t = hist.swarm(rng, T, must=('q',))
    case = {'ops': ops, 'nmax': nmax, 'threads': n, 'first': rng.randrange(4)}
    same = rng.random() < .4
    for k in range(4):
        case['t%d' % k] = hist.gen_ops(rng, t, q, rng.randrange(1, 7), nmax) \
            if k < n else []
    if same:             # the threads ask for the same things
        for k in range(1, n):
            case['t%d' % k] = copy.deepcopy(case['t0'])
    scale = rng.choice((4, 6, 8, 10))
    case['plan'] = [[1 + int(2 ** (rng.random() * scale)), rng.randrange(6)]
                    for _ in range(rng.choice((1, 2, 3, 5, 8, 15, 40, 100)))]
    case['final_seed'] = rng.randrange(10 ** 6)
    if rng.random() < .3:
        # few kinds of queries of the same events, many close switches
        q = dict.fromkeys(rng.sample(sorted(Q), rng.choice((1, 1, 2))), 1)
        t = {'q': 8, 'link': rng.random() < .5, 'gnext': .01}
        case['hot'] = 1
        case['nmax'] = nmax = 24
        wide = [['matrix', rng.randrange(7), 4 * rng.randrange(10 ** 6),
                 rng.randrange(2)]]
        case['ops'] = (wide if rng.random() < .6 else []) + \
            case['ops'][:rng.randrange(12)] + \
            (wide if rng.random() < .3 else []) + \
            ([['cold']] if rng.random() < .5 else [])
        for k in range(case['threads']):
            case['t%d' % k] = hist.gen_ops(rng, t, q, rng.randrange(1, 5),
                                           nmax)
        scale = rng.choice((3, 4, 5, 6, 7))
        case['plan'] = [[1 + int(2 ** (rng.random() * scale)),
                         rng.randrange(6)]
                        for _ in range(rng.choice((10, 40, 100, 300)))]
    elif rng.random() < .25:
        # all threads ask for ways to the same event of a tall poset
        case['target'] = 1
        case['nmax'] = nmax = 24
        case['ops'] = [rng.choice((
            ['chain', 5, 0], ['chain', 5, 0],
            ['matrix', 6, 4 * rng.randrange(10 ** 6) + 1, 0]))
            for _ in range(rng.choice((1, 2)))] + \
            hist.gen_ops(rng, {'new': 8, 'link': 1}, QB,
                         rng.randrange(2, 12), nmax) + \
            ([['cold']] if rng.random() < .3 else [])
        q = {k: rng.random() + .1 for k in TQ if rng.random() < .4} or \
            {'rank': 1}
        for k in range(case['threads']):
            case['t%d' % k] = hist.gen_ops(rng, {'q': 1}, q,
                                           rng.randrange(1, 4), nmax)
        scale = rng.choice((4, 5, 6, 7, 8))
        case['plan'] = [[1 + int(2 ** (rng.random() * scale)),
                         rng.randrange(6)]
                        for _ in range(rng.choice((10, 40, 100, 300)))]
    bursts(rng, case['plan'], 11)
    case['focus'] = gen_focus(rng, ('causet.py', 'causetevent.py'))
    return case


def aim(M, op):
    """the same query of pairs that end at the event with the largest past"""
    if op[0] != 'q' or op[1] not in TQ or not M.m.n:
        return op
    m = M.m
    size = [bin(p).count('1') for p in m.past]
    top = max(range(m.n), key=lambda i: (size[i], -i))
    below = [i for i in range(m.n) if m.past[top] >> i & 1]
    if not below:
        return op
    below.sort(key=lambda i: (size[i], i))
    op = list(op)
    op[2] = below[op[2] % max(1, len(below) // 2)]
    op[3] = top
    if op[1] in ('rank', 'paths'):
        op[4] -= op[4] % 6      # this very pair
    return op


def heat(M, op):
    """the same operation on the events with most relations"""
    if op[0] not in ('q', 'link'):
        return op
    m = M.m
    by = sorted(range(m.n), key=lambda i: -max(
        bin(m.past[i]).count('1'), bin(m.fut[i]).count('1')))[:2]
    k = 1 if op[0] == 'link' else 2
    op = list(op)
    for x in range(k, k + 2):
        if x < len(op) and op[x] % 4 and by:
            op[x] = by[op[x] % 4 // 3 % len(by)]
    return op


def body(ctx, case, preempt):
    M = hist.Machine(ctx, All(), case['nmax'])
    for t, op in enumerate(case['ops']):
        ctx.step = t
        ctx.stats['steps'] += 1
        if op[0] == 'cold':
            for e in M.ev:
                M.call('links', 'unlink', e.unlink)
            ctx.probes['cold_caches'] += 1
        else:
            M.step(op)
    M.check_order('order')
    filled = sum(e.hasBeenLinked() for e in M.ev)
    ctx.probes['warm_caches'] += bool(M.ev) and filled == len(M.ev)
    ctx.probes['half_caches'] += 0 < filled < len(M.ev)
    clients = []
    for k in range(case['threads']):
        N = hist.Machine(ctx, All(), case['nmax'])
        N.m, N.ev, N.idx, N.labels, N.causets = \
            M.m, M.ev, M.idx, M.labels, M.causets
        clients.append(N)

    def script(k):
        def f():
            for op in case['t%d' % k]:
                ctx.stats['steps'] += 1
                ctx.log('thread', k, op[0])
                clients[k].step(heat(M, op) if case.get('hot') else
                                aim(M, op) if case.get('target') else op)
            clients[k].finish_gens()
        return f
    ctx.probes['three_threads'] += case['threads'] > 2
    ctx.probes['hot'] += bool(case.get('hot'))
    ctx.probes['target'] += bool(case.get('target'))
    S = Sched(case['plan'] if preempt else None,
              extra=(hist.Machine.mask.__code__,),
              focus=case.get('focus'))
    ctx.step = len(case['ops'])
    try:
        S.run([script(k) for k in range(case['threads'])], case['first'])
    finally:
        ctx.stats['instructions'] += S.ticks
        ctx.preempted += len(S.switches)
        sig = M.m.signature()
        for a, b, fn in S.switches:
            ctx.faults['preempted:' + fn] += 1
            ctx.probes['preempt:link' if fn == 'link' else
                       'preempt:query'] += 1
            ctx.probes['paths_preempted'] += 'Paths' in fn
            ctx.state((fn, a, b, sig))
        ctx.log('schedule', S.switches, S.ticks)
    M.check_order('order')
    M.check_members('sets')
    M.check_links(case['final_seed'])
    M.check_order('links')
    ctx.log('end', M.m.signature())


def run(ctx, case):
    ctx.preempted = 0
    try:
        body(ctx, case, True)
    except (Violation, seams.NoProgress) as v:
        # locks and flags of the failed run are not left to the repetition
        seams.load_package(ctx.lib)
        seams.begin_case(ctx.lib, case['seed'],
                         case.get('hash_mode', 'scramble'),
                         case.get('hash_seed', case['seed']))
        twin = Ctx(ctx.lib, {k: x for k, x in case.items() if k != '_trace'})
        twin.preempted = 0
        try:
            body(twin, case, False)
        except (Violation, seams.NoProgress, hist.Abort):
            ctx.stats['aborted_outside_domain'] += 1
            ctx.log('abort', str(v))
            ctx.preempted = 0
            return
        raise


def nontrivial(ctx):
    return ctx.preempted > 1
