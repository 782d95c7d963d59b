from . import hist
from .common import *
ID = 'C01'
COUNT = {'quick': 250000, 'thorough': 1500000}
CAP = {'quick': 45, 'thorough': 1500}
MIN_RUNS = 500
RULE = ('One run = one seeded history of operations by three interleaved '
        'clients on shared events, with seeded set iteration order, checked '
        'against a bit-mask poset after every operation. Non-trivial: at '
        'least 3 order-changing operations and one related pair; distinct by '
        'event-log digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = STATE
REAL, STUB, ASSUMPTIONS = HIST_REAL, HIST_STUB, HIST_ASSUME
PROBES = ('merge_related', 'merge_overlap', 'disjoin_inner', 'clink_nonclosed')
LISTS = ('ops',)

W = {'new': 10, 'perm': 1, 'chain': 1, 'anti': 1, 'fence': 1, 'simplex': .5,
     'matrix': 1, 'causet': 3, 'pmerge': 3, 'ecauset': .3, 'hmut': .3, 
     'merge': 4, 'disjoin': 3, 'add': 1,
     'discard': 1, 'link': 2, 'unlink': 1, 'clink': 1, 'cunlink': 1,
     'copy': 1, 'q': 8}
Q = {'cmp': 3, 'sets': 3, 'lpast': 2, 'lfut': 2, 'lcone': 1, 'islink': 1}


def gen(rng, i):
    if i % 400 == 7:
        return hist.huge(rng, hist.swarm(rng, W), Q)
    big = rng.random() < 0.06
    nmax = rng.choice((25, 40)) if big else rng.choice((4, 6, 8, 10, 14))
    nops = rng.randrange(6, 40) if not big else rng.randrange(30, 70)
    return {'ops': hist.gen_ops(rng, hist.swarm(rng, W), Q, nops, nmax),
            'nmax': nmax}


def run(ctx, case):
    M = hist.run_history(ctx, case, {'order', 'mutator'}, {'order': 'order'},
                         ('symmetry',) if case['nmax'] <= 14 else ())
    ctx.related = any(M.m.past)


def nontrivial(ctx):
    s = ctx.stats
    return sum(s['op:' + o] for o in hist.ORDER_OPS) >= 3 and \
        getattr(ctx, 'related', False)
