from . import hist
from .common import *
ID = 'C02'
COUNT = {'quick': 250000, 'thorough': 1500000}
CAP = {'quick': 45, 'thorough': 1500}
MIN_RUNS = 500
RULE = ('One run = one seeded history mixing order changes, cache operations '
        '(link/unlink of events and causets) and link queries on random '
        'subsets (a query fills a cache, so queries are part of the '
        'schedule); at the end all links of all events are compared with the '
        'covering relation of the reference order. Non-trivial: a link query '
        'or cache fill happened before an order change; distinct by event-log '
        'digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = STATE
REAL, STUB, ASSUMPTIONS = HIST_REAL, HIST_STUB, HIST_ASSUME
PROBES = ('merge_related', 'disjoin_inner', 'clink_nonclosed')
W = {'new': 10, 'perm': 1, 'chain': 1, 'fence': .5, 'simplex': .5,
     'matrix': 1, 'causet': 3, 'pmerge': 2, 
     'merge': 4, 'disjoin': 4, 'add': 1,
     'discard': 1, 'link': 4, 'unlink': 2, 'clink': 2, 'cunlink': 1,
     'copy': .7, 'q': 14}
Q = {'lpast': 5, 'lfut': 5, 'lcone': 3, 'lcards': 3, 'islink': 5,
     'lcount': 3, 'lmatrix': 1, 'perim': 2, 'sets': .5}


def gen(rng, i):
    if i % 400 == 7:
        return hist.huge(rng, hist.swarm(rng, W), Q)
    big = rng.random() < 0.05
    nmax = rng.choice((25, 40)) if big else rng.choice((4, 5, 6, 8, 10, 14))
    nops = rng.randrange(6, 45) if not big else rng.randrange(30, 80)
    return {'ops': hist.gen_ops(rng, hist.swarm(rng, W), Q, nops, nmax),
            'nmax': nmax, 'final_seed': rng.randrange(10 ** 6)}


def run(ctx, case):
    hist.run_history(ctx, case, {'links', 'mutator'}, {}, ('links',))
    seen = False
    ctx.mixed = False
    for op in case['ops']:
        if op[0] in ('q', 'link', 'clink'):
            seen = True
        elif seen and op[0] in ('new', 'merge', 'disjoin'):
            ctx.mixed = True


def nontrivial(ctx):
    return getattr(ctx, 'mixed', False)
