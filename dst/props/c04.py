from . import hist
from .common import *
ID = 'C04'
COUNT = {'quick': 250000, 'thorough': 1500000}
CAP = {'quick': 45, 'thorough': 1500}
MIN_RUNS = 500
RULE = ('One run = one seeded history in which several path generators are '
        'created, advanced in turns, suspended across queries and cache '
        'operations, and abandoned or exhausted, interleaved with rank and '
        'layer queries and order changes; every answer is compared with an '
        'independent enumeration on the reference poset. Non-trivial: at '
        'least 3 path/rank/layer operations on an order with an event between '
        'two others; distinct by event-log digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = STATE
REAL, STUB, ASSUMPTIONS = HIST_REAL, HIST_STUB, HIST_ASSUME
PROBES = ('interleaved_generators', 'abandoned_generator')
W = {'new': 9, 'perm': 2, 'chain': 1, 'fence': 1, 'simplex': 1, 'matrix': 2,
     'causet': 3, 'merge': 2, 'disjoin': 1, 'link': 1.5, 'unlink': 1.5,
     'clink': .7, 'cunlink': 1, 'gstart': 6, 'gnext': 14, 'gclose': 1,
     'q': 18}
Q = {'paths': 4, 'rank': 3, 'layers': 4, 'numbers': 3, 'layered': 3,
     'lpast': 1, 'lfut': 1, 'islink': 1}


def gen(rng, i):
    if i % 400 == 7:
        return hist.huge(rng, hist.swarm(rng, W), Q)
    nmax = rng.choice((5, 6, 8, 9, 10, 12, 13))
    nops = rng.randrange(10, 50)
    front = hist.gen_ops(rng, {'new': 8, 'perm': 2, 'matrix': 2, 'merge': 1,
                               'causet': 1, 'chain': 1}, Q,
                         rng.randrange(3, 12), nmax)
    return {'ops': front + hist.gen_ops(rng, hist.swarm(rng, W), Q, nops,
                                        nmax),
            'nmax': nmax}


def run(ctx, case):
    M = hist.run_history(ctx, case, {'paths'}, {'order': 'paths'}, ('gens',))
    ctx.deep = any(M.m.past[i] & M.m.union(M.m.past[j], M.m.fut)
                   for j in range(M.m.n) for i in hist.bits(M.m.fut[j]))


def nontrivial(ctx):
    s = ctx.stats
    k = s['op:gstart'] + sum(s['q:' + q] for q in (
        'paths', 'rank', 'layers', 'numbers', 'layered'))
    return k >= 3 and getattr(ctx, 'deep', False)
