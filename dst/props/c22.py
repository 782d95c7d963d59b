import os
import shutil
import sys
import tempfile

from .. import seams
from ..engine import Ctx, Violation, short
from ..sched import Sched, focused, gen_focus, observe
from ..seams import FS, mix
from ..shapemodel import gen_shape
from . import hist
from .c13 import All, bursts
from .c14 import StubAxes
from .common import HIST_ASSUME
ID = 'C22'
COUNT = {'quick': 250000, 'thorough': 1500000}
CAP = {'quick': 90, 'thorough': 1500}
MIN_RUNS = 300
COLD = .2
LISTS = ('c0', 'c1', 'c2', 'plan')
RULE = ('One run = two or three clients, each with its own events, causets, '
        'generators, files, axes and floating-point error state, that build, '
        'change and query posets, sprinkle, embed, import, save and load, '
        'draw frames and cones and compute; either in threads under a seeded '
        'plan that preempts the running client at given numbers of executed '
        'bytecode instructions of library code, or nested (as in a signal '
        'handler or finaliser): the other clients\' calls run inside a call '
        'of the first one. Each answer must equal the one the client gets '
        'alone; posets are compared with the reference model, the error '
        'states must survive. A failing run is repeated without switches and '
        'only counts if it then passes. Non-trivial: at least two switches '
        'inside library calls; distinct by event-log digest.')
SIMTIME = 'simulated time is counted as executed library bytecode ' \
    'instructions (stats: instructions)'
STATE_MEASURE = 'distinct (function preempted, task resumed) pairs'
REAL = ['all modules of the library', 'threading.Thread (real threads, one '
        'runs at a time)', 'numpy error state']
STUB = ['CausetEvent.__hash__ (seeded)', 'thread switching (explicit seeded '
        'plan)', 'nested calls (injected from sys.settrace)', 'generators '
        '(SimRng)', 'drawing axes (recorder)', 'files inside a scratch '
        'directory', 'threading.Lock/RLock if the library uses them']
ASSUMPTIONS = HIST_ASSUME[:1] + [
    'Clients share no events, causets or axes; they may share spacetimes and '
    'shapes, which have no mutators.',
    'No client changes the global colour scheme or the default colours.',
    'numpy\'s error state belongs to the thread.']
PROBES = ('threads', 'nested', 'three_clients', 'error_states',
          'shared_geometry', 'task:hist', 'task:sprinkle', 'task:file',
          'task:frame', 'task:cone', 'task:harm', 'task:newton',
          'task:matrix', 'task:embed', 'task:perm', 'task:shape',
          'task:params', 'task:antipaths', 'duel', 'cold')
ERR = ({}, {'all': 'raise'}, {'divide': 'raise', 'invalid': 'ignore'},
       {'all': 'print'}, {'over': 'raise', 'divide': 'ignore'})
W = {'new': 10, 'perm': 1.5, 'chain': .5, 'fence': .7, 'simplex': .5,
     'matrix': 1, 'causet': 4, 'merge': 2, 'pmerge': 1, 'disjoin': 2,
     'add': 1, 'discard': 1, 'link': 1.5, 'unlink': 1, 'clink': .7,
     'cunlink': 1, 'copy': 1, 'q': 6, 'gstart': 1, 'gnext': 2}
Q = {'cmp': .5, 'lpast': 2, 'lfut': 2, 'lcone': 1, 'lcards': 1, 'islink': 2,
     'lcount': 1, 'lmatrix': 1, 'perim': 1, 'interval': 1, 'inf': 1, 'is': 1,
     'disjoint': 1, 'central': 1, 'sorted': 1, 'matrix': 1, 'smallest': 1,
     'paths': 2, 'rank': 1, 'layers': 1, 'numbers': 1, 'layered': 1,
     'setop': 1, 'find': 1, 'dmatrix': 1, 'antipaths': 1}
COLORS = ('cs:blue', 'cs:green', 'red', 'cs:core', 'cs:gray')
SCHEMES = ('matplotlib', 'UniYork', 'ImperialLondon')
_dir = None


def setup_worker(lib):
    global _dir
    _dir = os.path.realpath(tempfile.mkdtemp(prefix='dst-c22-'))
    FS.root = _dir


def teardown_worker():
    global _dir
    FS.root = None
    if _dir:
        shutil.rmtree(_dir, ignore_errors=True)
    _dir = None


# ---------------------------------------------------------------- generation
def task(rng, kinds):
    k = rng.choice(kinds)
    s = rng.randrange(1 << 30)
    if k == 'hist':
        return ['hist', hist.gen_ops(rng, hist.swarm(rng, W), Q,
                                     rng.randrange(2, 10), 9)]
    if k == 'sprinkle':
        return [k, s, rng.randrange(1, 9), rng.choice((2, 2, 3, 4)),
                gen_shape(rng, None)[1:], rng.randrange(3)]
    if k == 'harm':
        return [k, rng.randrange(4), rng.randrange(0, 130),
                rng.choice((1, 5, 50, 100))]
    if k == 'newton':
        return [k, rng.randrange(3), round(rng.uniform(.5, 4), 3)]
    if k in ('matrix', 'file', 'antipaths'):
        return [k, s, rng.randrange(2, 9)]
    if k == 'perm':
        p = list(range(1, rng.randrange(2, 8)))
        rng.shuffle(p)
        return [k, p, rng.randrange(5)]
    if k == 'embed':
        return [k, s, rng.choice((1, 2, 3, 5, 6, 9)), rng.randrange(5)]
    if k == 'frame':
        return [k, s, rng.randrange(1, 6), rng.randrange(8)]
    if k == 'cone':
        return [k, s, rng.choice((0, 1, 2, 3, 4, 5, 6, 6, 7, 7)),
                rng.randrange(4),
                rng.choice((8, 8, 5, 12)), rng.randrange(3)]
    if k == 'shape':
        return [k, gen_shape(rng), rng.randrange(4)]
    return ['params', s]


KINDS = ('hist', 'hist', 'hist', 'sprinkle', 'harm', 'newton', 'matrix',
         'file', 'antipaths', 'perm', 'embed', 'frame', 'cone', 'shape',
         'params')


DUELS = tuple(sorted(set(KINDS) - {'hist'})) + ('embed', 'cone', 'frame', 'harm')


def gen(rng, i):
    n = rng.choice((2, 2, 2, 3))
    kinds = KINDS if rng.random() < .5 else [
        rng.choice(KINDS) for _ in range(rng.choice((1, 2, 3)))]
    case = {'mode': rng.choice(('threads', 'threads', 'nested')),
            'clients': n, 'first': rng.randrange(3),
            'err': [rng.randrange(len(ERR)) if rng.random() < .4 else 0
                    for _ in range(3)],
            'share': rng.random() < .4}
    same = rng.random() < .3
    for k in range(3):
        case['c%d' % k] = [task(rng, kinds) for _ in range(
            rng.choice((1, 1, 2, 3)))] if k < n else []
    if same:
        case['c1'] = [list(t) for t in case['c0']]
        for t in case['c1']:
            if len(t) > 2 and isinstance(t[1], int) and rng.random() < .7:
                t[1] = rng.randrange(1 << 30)
    if rng.random() < .35:
        # the same kind of call, at the same time, with other arguments
        k = rng.choice(DUELS)
        t = task(rng, (k,))
        u = rng.random()
        for c in range(n):
            v = task(rng, (k,))
            if u < .7 and len(t) > 2:   # one or two other arguments
                keep = set(range(1, len(t))) - {
                    rng.randrange(1, len(t)), rng.randrange(1, len(t))}
                if k not in ('harm', 'newton', 'perm', 'shape') and \
                        rng.random() < .85:
                    keep.discard(1)         # the seed
                for j in keep:
                    v[j] = t[j]
            case['c%d' % c] = [v] + [task(rng, (k,)) for _ in range(
                rng.choice((0, 0, 1)))]
        case['share'] = rng.random() < .6
        case['mode'] = rng.choice(('threads', 'threads', 'threads', 'nested'))
        case['duel'] = 1
    elif case['share'] and rng.random() < .6:
        # all clients use one geometry at the same time
        t = task(rng, ('embed', 'embed', 'embed', 'cone', 'cone', 'shape',
                       'sprinkle', 'frame'))
        for k in range(n):
            u = list(t)
            if isinstance(u[1], int):
                u[1] = rng.randrange(1 << 30)
            case['c%d' % k] = [u]
    scale = rng.choice((4, 5, 6, 7, 8) if case.get('duel') else
                       (4, 6, 8, 10, 12))
    case['plan'] = [[1 + int(2 ** (rng.random() * scale)), rng.randrange(6)]
                    for _ in range(rng.choice((1, 2, 3, 5, 8, 15, 40, 100)))]
    bursts(rng, case['plan'], 15)
    case['focus'] = gen_focus(rng)
    return case


# --------------------------------------------------------------------- tasks
def rnd(seed):
    import random
    return random.Random(seed)


def order_of(events, key):
    """relation of events, each named by a key"""
    E = sorted(events, key=key)
    names = [key(e) for e in E]
    return names, [[j for j, b in enumerate(E) if b < a] for a in E], \
        [[j for j, b in enumerate(E) if b in a.LinkPast] for a in E]


class Client:
    def __init__(self, ctx, k, tasks, share):
        self.ctx, self.lib, self.k, self.tasks = ctx, ctx.lib, k, tasks
        self.share = share
        self.np = self.lib.np
        self.out = []
        self.err = None

    def shape(self, d, name, p):
        key = (d, name, repr(p))
        if key not in self.share:
            S = self.lib.Shape(d, name, **p)
            if self.share.get('off'):
                return S
            self.share[key] = S
        return self.share[key]

    def spacetime(self, key, make):
        if key not in self.share:
            S = make()
            if self.share.get('off'):
                return S
            self.share[key] = S
        return self.share[key]

    def flat(self, d, period=0.0):
        return self.spacetime(('flat', d, period),
                              lambda: self.lib.spacetimes.FlatSpacetime(
                                  d, period))

    def run(self, upto=None):
        old = getattr(seams.HASH.local, 'key', None)
        seams.HASH.local.key = (self.phase, self.k)
        try:
            self.go(upto)
        finally:
            seams.HASH.local.key = old

    def go(self, upto):
        np = self.np
        with np.errstate(**self.state):
            before = np.geterr()
            while len(self.out) < len(self.tasks):
                t = self.tasks[len(self.out)]
                self.out.append(None)
                self.ctx.stats['steps'] += 1
                self.ctx.stats['task:' + t[0]] += 1
                try:
                    r = getattr(self, 't_' + t[0])(*t[1:])
                except (Violation, hist.Abort, seams.NoProgress):
                    raise
                except Exception as e:
                    r = ('raised', type(e).__name__, str(e))
                self.out[self.out.index(None)] = repr(r)
                after = np.geterr()
                if after != before:
                    self.ctx.fail('error-state:' + t[0],
                                  'client %d: %s changed the numpy error '
                                  'state from %s to %s' % (
                                      self.k, t[0], before, after))
                if upto is not None:
                    return

    # ----------------------------------------------------------- task bodies
    def t_hist(self, ops):
        M = hist.Machine(self.ctx, All(), 9)
        for op in ops:
            M.step(op)
            if op[0] in hist.ORDER_OPS:
                M.check_order('order')
        M.finish_gens()
        M.check_order('order')
        M.check_copies()
        M.check_members('sets')
        M.check_links(1)
        return M.m.signature(), [c[1] for c in M.causets]

    def t_sprinkle(self, seed, n, d, shp, how):
        name, p = shp
        p = {k: v for k, v in p.items() if k not in ('center', 'edges')}
        if name == 'cylinder' and d == 1:
            p.pop('hollow', None)
        S = self.shape(d, name, p)
        C = self.lib.SC(spacetime=self.flat(d), shape=S)
        rng = self.lib.SimRng(seed)
        if how == 1:
            C.intensify(float(n), rng=rng)
        else:
            C.sprinkle(n, rng=rng)
        if how == 2:
            C.sprinkle(2, rng=rng)
        return (order_of(C, lambda e: tuple(map(float, e.Coordinates))),
                C.Intensity, float(C.Density), float(C.LengthScale),
                rng.sim_state())

    def t_harm(self, which, n, a):
        c = self.lib_calc()
        if which == 0:
            return [float(x) for x in c.HarmonicNumbers(n, a)]
        if which == 1:
            return float(c.HarmonicNumber(n, a))
        if which == 2:
            return str(c.HarmonicNumberFraction(n % 40))
        return [str(x) for x in c.HarmonicNumberFractions(n % 40)]

    def lib_calc(self):
        return sys.modules['causets.calculations']

    def t_newton(self, which, y):
        c = self.lib_calc()
        f = (lambda x: x * x, lambda x: x ** 3 + x,
             lambda x: self.np.exp(x))[which]
        d = (lambda x: 2 * x, lambda x: 3 * x * x + 1,
             lambda x: self.np.exp(x))[which]
        return float(c.NewtonsMethod(f, d, 1.0, y))

    def t_matrix(self, seed, n):
        r = rnd(seed)
        A = self.np.zeros((n, n), dtype=bool)
        p = list(range(n))
        r.shuffle(p)
        for i in range(n):
            for j in range(i):
                A[p[i], p[j]] = r.random() < .35
        C = self.lib.C.FromPastMatrix(A) if seed % 2 else \
            self.lib.C.FromFutureMatrix(A)
        o = order_of(C, lambda e: e.Label)
        L = C.sortedByLabels()
        return (o, C.PastMatrix(L).tolist(), C.LinkPastMatrix(L).tolist(),
                C.LinkCount())

    def t_file(self, seed, n):
        r = rnd(seed)
        p = list(range(1, n + 1))
        r.shuffle(p)
        C = self.lib.C.FromPermutation(p)
        path = os.path.join(_dir, 'client%d' % self.k)
        C.saveAsCSV(path)
        D = self.lib.C.FromTextFile(path)
        os.remove(path)
        return (sorted((e.PastCard, e.FutureCard) for e in D),
                sorted((e.PastCard, e.FutureCard, e.Label) for e in C),
                D.LinkCount())

    def t_antipaths(self, seed, n):
        C = self.lib.C.NewFence(n, 1, closed=bool(seed & 1))
        A = [C.find(k) for k in range(1, n + 1)]
        rnd(seed).shuffle(A)
        D = C.DistanceMatrix(A)
        return D.tolist(), sorted([e.Label for e in p] for p in
                                  C.Antipaths(A[0], A[-1], A))

    def t_perm(self, p, f):
        fmt = (None, 'e{}', '', '{}', 'x')[f]
        C = self.lib.C.FromPermutation(list(p), fmt)
        D = self.lib.EC.FromPermutation(list(p))
        return (sorted((str(e.Label), e.PastCard, e.FutureCard,
                        len(e.LinkPast)) for e in C),
                order_of(D, lambda e: tuple(map(float, e.Coordinates))))

    def t_embed(self, seed, n, which):
        r = rnd(seed)
        sp = self.lib.spacetimes
        d = 2
        if which == 0:
            st = self.flat(2)
        elif which == 1:
            st, d = self.flat(3, 1.5), 3
        elif which == 2:
            st = self.spacetime('ds', lambda: sp.deSitterSpacetime(2, 1.5))
        elif which == 3:
            st = self.spacetime('ads',
                                lambda: sp.AntideSitterSpacetime(2, 1.5))
        else:
            st = self.spacetime('bh', lambda: sp.BlackHoleSpacetime(2, .5))
        z = r.choice((1., 3.)) if which == 3 else 1.
        x = [[r.uniform(-z, z) for _ in range(d)] for _ in range(n)]
        C = self.lib.EC(spacetime=st, shape='cylinder', coordinates=x)
        new = C.create([[r.uniform(-z, z) for _ in range(d)]])
        o = order_of(C, lambda e: tuple(map(float, e.Coordinates)))
        C.relabel(r.randrange(d), r.random() < .5)
        lab = sorted((e.Label, tuple(map(float, e.Coordinates))) for e in C)
        C.relate(link=r.random() < .5)
        return (o, lab, len(new),
                order_of(C, lambda e: tuple(map(float, e.Coordinates))))

    def arts(self, ax):
        self.np.set_printoptions()
        return [(a.kind, [tuple(round(v, 9) for v in q) for q in a.pts],
                 sorted((k, str(v)) for k, v in a.props.items()))
                for a in ax.arts], sorted(ax.limits.items())

    def t_frame(self, seed, n, which):
        r = rnd(seed)
        E = []
        for k in range(n):
            x = [k / 2. + r.random(), r.uniform(-1, 1)]
            E.append(self.lib.E(
                label=k, past=[e for e in E if r.random() < .4],
                coordinates=x))
        kw = {}
        if which & 1:
            kw.update(timedepth=r.choice((1.5, -2.0)),
                      timefade=r.choice(('linear', 'exponential')))
        if which & 2:
            kw.update(pastcones=True, futurecones={'alpha': .5},
                      conetimedepth=3.0, conetimefade='linear')
        if which & 4:
            kw.update(links={'color': r.choice(COLORS), 'linewidth': 1.0},
                      events={'markersize': r.choice((2.0, 4.0))})
        ax = StubAxes(self.ctx, False)
        P = self.lib.plotting.Plotter(E, ax, self.flat(2), **kw)
        h = P([r.uniform(-1, 2)] * 2)
        P([r.uniform(-1, 2), r.uniform(-1, 2)])
        return self.arts(ax), sorted((k, len(v)) for k, v in h.items())

    def t_cone(self, seed, which, sign, ss, axes):
        r = rnd(seed)
        sp = self.lib.spacetimes
        if which < 2:
            st, d = self.flat(3, (1.0, 2.0) if which else 0.0), 3
        elif which < 4:
            st, d = self.spacetime(
                'ds3', lambda: sp.deSitterSpacetime(3, 1.5)), 3
        elif which < 6:
            m = ('Eddington-Finkelstein', 'Schwarzschild')[which - 4]
            st, d = self.spacetime(m, lambda: sp.BlackHoleSpacetime(
                2, .5, m)), 2
        else:
            st, d = self.flat(4, 0.0 if which > 6 else 1.5), 4
        dims = r.choice((([0, 1], [1, 0]), ([1, 2], [2, 1]), (
            [0, 1, 2], [1, 2, 0]))[axes]) if d > 2 else [1, 0]
        if d == 4 and axes == 2:
            dims = r.choice(([1, 2, 3], [3, 1, 2], [0, 2, 3]))
        ax = StubAxes(self.ctx, len(dims) == 3)
        f = st.ConePlotter(dims, {'alpha': .3}, 1 if sign & 1 else -1, ax,
                           dynamicAlpha=(lambda v: .5 / (1 + v))
                           if sign & 2 else None, samplingsize=ss)
        out = []
        for _ in range(2):
            x = [r.uniform(-.5, .5)] + [r.uniform(.1, .9)
                                        for _ in range(d - 1)]
            h = f(self.np.array(x), r.uniform(-1, 1) if r.random() < .2 else
                  x[0] + (1 if sign & 1 else -1) * r.uniform(.1, 1.2))
            out.append(h is None)
        return out, self.arts(ax)

    def t_shape(self, spec, how):
        d, name, p = spec
        S = self.shape(d, name, p)
        out = [float(S.Volume), [tuple(map(float, S.Limits(k)))
                                 for k in range(d)], str(S), repr(S)]
        if how and d > 1:
            n = 3 if how == 3 and d > 2 else 2
            ax = StubAxes(self.ctx, n == 3)
            dims = [(k + how) % d for k in range(n)]
            S.plot(dims, ax)
            out.append(self.arts(ax))
        return out

    def t_params(self, seed):
        r = rnd(seed)
        col = self.lib.colors
        s = r.choice(SCHEMES)
        kw = {}
        for k in ('links', 'events', 'labels', 'pastcones', 'futurecones'):
            x = r.random()
            if x < .3:
                kw[k] = {'color': r.choice(COLORS), 'alpha': r.random()}
            elif x < .5:
                kw[k] = r.random() < .5
        p = self.lib.plotting.plot_parameters(**kw)
        return (sorted((k, repr(v)) for k, v in p.items()),
                [col.getColor(c, s) for c in COLORS],
                col.convertColorsInList(list(COLORS), s),
                sorted(col.convertColorsInDict(
                    {'a': r.choice(COLORS), 'b': 1}, s).items()))


# ------------------------------------------------------------------- nesting
class Nester:
    """Runs the next task of the other clients inside library calls of the
    first one, after the numbers of instructions given by the plan."""

    def __init__(self, plan, others, focus=None, budget=3_000_000):
        self.focus = focused(focus)
        self.plan, self.others = plan, others
        self.pos = 0
        self.left = plan[0][0] if plan else -1
        self.ticks = 0
        self.budget = budget
        self.switches = []
        self.error = None

    def _instr(self, code, offset):
        if self.error is not None:
            return
        self.ticks += 1
        if self.ticks > self.budget:
            raise seams.NoProgress('more than %d instructions' % self.budget)
        if self.focus is None or self.focus(code):
            self.left -= 1
        if self.left == 0:
            choice = self.plan[self.pos][1]
            self.pos += 1
            self.left = self.plan[self.pos][0] \
                if self.pos < len(self.plan) else -1
            todo = [c for c in self.others if len(c.out) < len(c.tasks)]
            if todo:
                c = todo[choice % len(todo)]
                self.switches.append((0, c.k, code.co_name))
                try:
                    c.run(1)
                except BaseException as e:
                    self.error = e

    def run(self, fn):
        with observe(self._instr):
            fn()
        if self.error is not None:
            raise self.error
        for c in self.others:
            c.run()


class Alone:
    """each client in a process of its own, as far as the library can tell"""

    def __init__(self, lib, clients):
        self.lib, self.clients = lib, clients
        self.switches, self.ticks = [], 0

    def run(self):
        for c in self.clients:
            seams.load_package(self.lib)
            c.run()


# ----------------------------------------------------------------------- run
def clients_of(ctx, case, share):
    out = []
    for k in range(case['clients']):
        c = Client(ctx, k, case['c%d' % k], share)
        c.state = ERR[case['err'][k]]
        c.phase = ctx.step
        out.append(c)
    return out


def body(ctx, case, switch):
    np = ctx.lib.np
    before = np.geterr()
    share = {} if case['share'] and (switch or not case.get('cold')) \
        else {'off': True}
    ctx.step = 0
    alone = clients_of(ctx, case, {'off': True})
    for c in alone:
        if case.get('cold'):
            seams.load_package(ctx.lib)
        c.run()
    if case.get('cold'):
        seams.load_package(ctx.lib)
        ctx.probes['cold'] += 1
    if np.geterr() != before:
        raise hist.Abort('error state')
    ctx.step = 1
    together = clients_of(ctx, case, share)
    plan = case['plan'] if switch else []
    ctx.probes['three_clients'] += case['clients'] > 2
    ctx.probes['duel'] += bool(case.get('duel'))
    ctx.probes['shared_geometry'] += bool(case['share'])
    ctx.probes['error_states'] += any(case['err'])
    ctx.probes[case['mode']] += 1
    for c in together:
        for t in c.tasks:
            ctx.probes['task:' + t[0]] += 1
    if not switch and case.get('cold'):
        S = Alone(ctx.lib, together)
        go = S.run
    elif case['mode'] == 'threads':
        S = Sched(plan, extra=(hist.Machine.mask.__code__,),
                  focus=case.get('focus'))
        go = lambda: S.run([c.run for c in together], case['first'])
    else:
        S = Nester(plan, together[1:], case.get('focus'))
        go = lambda: S.run(together[0].run)
    try:
        go()
    finally:
        ctx.stats['instructions'] += S.ticks
        ctx.switched += len(S.switches)
        for a, b, fn in S.switches:
            ctx.faults['preemption' if case['mode'] == 'threads'
                       else 'nested_call'] += 1
            t = together[b].tasks
            ctx.state((case['mode'], fn, t[0][0] if t else ''))
        ctx.log('schedule', S.switches, S.ticks)
        now = np.geterr()
        np.seterr(**before)
    ctx.eq(now, before, 'error-state', 'numpy error state of the caller')
    for a, b in zip(alone, together):
        for t, x, y in zip(a.tasks, a.out, b.out):
            ctx.eq(y, x, 'interference:' + t[0],
                   lambda: 'client %d: %s' % (a.k, short(t, 120)))
        ctx.log('answers', a.out)


def run(ctx, case):
    ctx.switched = 0
    try:
        body(ctx, case, True)
    except hist.Abort as v:
        ctx.stats['aborted_outside_domain'] += 1
        ctx.log('abort', str(v))
    except (Violation, seams.NoProgress) as v:
        if ctx.step == 0:      # fails alone: other properties judge that
            ctx.stats['aborted_outside_domain'] += 1
            ctx.log('abort', str(v))
            ctx.switched = 0
            return
        # locks and flags of the failed run are not left to the repetition
        seams.load_package(ctx.lib)
        seams.begin_case(ctx.lib, case['seed'],
                         case.get('hash_mode', 'scramble'),
                         case.get('hash_seed', case['seed']))
        twin = Ctx(ctx.lib, {k: x for k, x in case.items() if k != '_trace'})
        twin.switched = 0
        try:
            body(twin, case, False)
        except (Violation, seams.NoProgress, hist.Abort):
            ctx.stats['aborted_outside_domain'] += 1
            ctx.log('abort', str(v))
            ctx.switched = 0
            return
        raise


def nontrivial(ctx):
    return ctx.switched > 1
