from . import hist
from .common import *
ID = 'C16'
COUNT = {'quick': 250000, 'thorough': 1500000}
CAP = {'quick': 45, 'thorough': 1500}
MIN_RUNS = 500
RULE = ('One run = one seeded history of named constructors (all arguments '
        'up to about 30 events, all label formats, list and tuple arguments '
        'that the caller changes afterwards), some of them first interrupted '
        'at a seeded bytecode instruction, between operations that change, '
        'merge, take apart and link what earlier calls returned, in a seeded '
        'hash order. Each result is compared with the documented poset and '
        'labels and must share no event with an earlier one. Non-trivial: at '
        'least two constructor calls and one change of an earlier result; '
        'distinct by event-log digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = 'distinct (constructor, resulting order) reached'
REAL, STUB = HIST_REAL, HIST_STUB + ['sys.settrace (an exception at a seeded '
                                     'bytecode instruction)']
ASSUMPTIONS = HIST_ASSUME[:1] + [
    'Unlabelled results are compared up to an isomorphism invariant.',
    'Fences are numbered level by level, simplices by their vertex numbers.']
PROBES = ('argument_changed', 'unlabelled', 'ctor:perm', 'ctor:chain',
          'ctor:anti', 'ctor:fence', 'ctor:crown', 'ctor:simplex')
W = {'ctor': 16, 'new': 3, 'causet': 1, 'merge': 2, 'pmerge': 1,
     'disjoin': 3, 'add': 2, 'discard': 2, 'link': 1, 'unlink': 1,
     'clink': 1, 'cunlink': 1, 'copy': 1, 'q': 2}
Q = {'lpast': 1, 'layers': 1, 'setop': 1}


def gen(rng, i):
    nmax = rng.choice((10, 20, 40, 60, 90))
    return {'ops': hist.gen_ops(rng, hist.swarm(rng, W, must=('ctor',)), Q,
                                rng.randrange(3, 24), nmax),
            'nmax': nmax}


def run(ctx, case):
    hist.run_history(ctx, case, {'ctor'}, {}, ())


def nontrivial(ctx):
    s = ctx.stats
    return s['op:ctor'] >= 2 and any(s['op:' + o] for o in (
        'new', 'merge', 'pmerge', 'disjoin', 'discard', 'add', 'copy'))
