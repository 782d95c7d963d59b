from . import hist
from .common import *
ID = 'C05'
COUNT = {'quick': 250000, 'thorough': 1500000}
CAP = {'quick': 45, 'thorough': 1500}
MIN_RUNS = 500
RULE = ('One run = one seeded history of construction, add, discard, merge '
        'and set operations on up to eight causets that share events, with '
        'arguments and results mutated by the client afterwards; members of '
        'all causets are compared with reference sets after every operation. '
        'Non-trivial: at least two causets and three set operations; distinct '
        'by event-log digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = STATE
REAL, STUB, ASSUMPTIONS = HIST_REAL, HIST_STUB, HIST_ASSUME
PROBES = ('result_mutated', 'merge_related')
W = {'new': 6, 'perm': 1, 'chain': 1, 'anti': 1, 'fence': .5, 'matrix': 1,
     'causet': 6, 'pmerge': 1, 'ecauset': 2, 'hmut': 2, 
     'merge': 3, 'disjoin': 1, 'add': 6, 'discard': 6,
     'link': .5, 'unlink': .5, 'clink': .3, 'cunlink': .3, 'q': 20}
Q = {'setop': 8, 'member': 3, 'find': 4}


def gen(rng, i):
    if i % 400 == 7:
        return hist.huge(rng, hist.swarm(rng, W), Q)
    nmax = rng.choice((4, 6, 8, 10, 14, 20))
    nops = rng.randrange(8, 45)
    return {'ops': hist.gen_ops(rng, hist.swarm(rng, W), Q, nops, nmax),
            'nmax': nmax}


def run(ctx, case):
    M = hist.run_history(ctx, case, {'sets', 'mutator'}, {}, ())
    ctx.nc = len(M.causets)


def nontrivial(ctx):
    s = ctx.stats
    return getattr(ctx, 'nc', 0) >= 2 and \
        s['op:add'] + s['op:discard'] + s['q:setop'] >= 3
