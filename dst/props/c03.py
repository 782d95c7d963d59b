from . import hist
from .common import *
ID = 'C03'
COUNT = {'quick': 250000, 'thorough': 1500000}
CAP = {'quick': 45, 'thorough': 1500}
MIN_RUNS = 500
RULE = ('One run = one seeded history of order changes interleaved with order '
        'queries on random pairs, subsets and causets under a seeded set '
        'iteration order, each answer compared with its definition evaluated '
        'on the reference poset; the order is re-checked after every query. '
        'Non-trivial: at least 5 order queries and one related pair; distinct '
        'by event-log digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = STATE
REAL, STUB, ASSUMPTIONS = HIST_REAL, HIST_STUB, HIST_ASSUME
PROBES = ('merge_related', 'disjoin_inner', 'path_of_3', 'sorted_labels')
W = {'new': 8, 'perm': 2, 'chain': 1, 'anti': 1, 'fence': 1, 'simplex': .5,
     'matrix': 2, 'causet': 5, 'pmerge': 1, 'ecauset': .3, 
     'merge': 2, 'disjoin': 1.5, 'add': 2,
     'discard': 2, 'link': 1, 'unlink': 1, 'clink': .5, 'cunlink': .5,
     'q': 30}
Q = {'interval': 3, 'of': 4, 'spaceto': 2, 'inf': 2, 'is': 5, 'disjoint': 3,
     'central': 3, 'sorted': 4, 'matrix': 2, 'smallest': 3, 'lpast': .5,
     'lfut': .5}


def gen(rng, i):
    if i % 400 == 7:
        return hist.huge(rng, hist.swarm(rng, W), Q)
    big = rng.random() < 0.05
    nmax = rng.choice((25, 36)) if big else rng.choice((4, 6, 8, 10, 14))
    nops = rng.randrange(8, 45) if not big else rng.randrange(30, 70)
    return {'ops': hist.gen_ops(rng, hist.swarm(rng, W), Q, nops, nmax),
            'nmax': nmax}


def run(ctx, case):
    M = hist.run_history(ctx, case, {'query'}, {'order': 'query'}, ())
    ctx.related = any(M.m.past)


def nontrivial(ctx):
    return ctx.stats['op:q'] >= 5 and getattr(ctx, 'related', False)
