from . import hist
from .common import *
ID = 'C19'
COUNT = {'quick': 250000, 'thorough': 1500000}
CAP = {'quick': 45, 'thorough': 1500}
MIN_RUNS = 500
RULE = ('One run = one seeded history in which distance matrices of seeded '
        'antichains (partial and maximal, in any order) and antipath '
        'generators, advanced in turns and suspended across other queries '
        'and cache operations, are interleaved with order changes; every '
        'answer is compared with neighbour graphs computed on the reference '
        'poset. Non-trivial: at least 3 distance or antipath operations on an '
        'antichain of two or more events; distinct by event-log digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = STATE
REAL, STUB, ASSUMPTIONS = HIST_REAL, HIST_STUB, HIST_ASSUME
PROBES = ('interleaved_generators', 'abandoned_generator', 'antichain_hops',
          'antichain_unconnected', 'several_antipaths')
W = {'new': 9, 'perm': 2, 'anti': 1, 'fence': 3, 'simplex': .7, 'matrix': 2,
     'causet': 3, 'merge': 1, 'pmerge': 1, 'disjoin': 1, 'discard': 1,
     'link': 1.5, 'unlink': 1.5, 'clink': .7, 'cunlink': 1, 'apstart': 6,
     'gnext': 12, 'gclose': 1, 'q': 16}
Q = {'dmatrix': 6, 'antipaths': 5, 'smallest': 1, 'layers': 1, 'lpast': .5,
     'lfut': .5, 'cmp': .5}


def gen(rng, i):
    if i % 1200 == 7:
        return hist.huge(rng, hist.swarm(rng, W), Q)
    nmax = rng.choice((5, 6, 8, 10, 12, 14, 16, 20))
    nops = rng.randrange(8, 40)
    front = hist.gen_ops(rng, {'new': 8, 'perm': 2, 'matrix': 2, 'fence': 3,
                               'causet': 1, 'anti': 1}, Q,
                         rng.randrange(3, 14), nmax)
    return {'ops': front + hist.gen_ops(rng, hist.swarm(rng, W), Q, nops,
                                        nmax),
            'nmax': nmax}


def run(ctx, case):
    M = hist.run_history(ctx, case, {'anti'}, {'order': 'anti'}, ('gens',))
    ctx.wide = any(not M.m.cone(i) >> j & 1
                   for j in range(M.m.n) for i in range(j))


def nontrivial(ctx):
    s = ctx.stats
    k = s['op:apstart'] + s['q:dmatrix'] + s['q:antipaths']
    return k >= 3 and getattr(ctx, 'wide', False)
