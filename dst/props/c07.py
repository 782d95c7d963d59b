import os
import pathlib
import shutil
import tempfile

from .. import seams, textfmt
from ..model import Poset, bits, transitive_closure
from ..seams import mix
from .common import HIST_ASSUME
ID = 'C07'
COUNT = {'quick': 250000, 'thorough': 900000}
CAP = {'quick': 45, 'thorough': 1500}
MIN_RUNS = 400
LISTS = ('ops',)
RULE = ('One run = one stream of imports of relation matrices (arrays of '
        'several types and memory layouts, closed, link-only, arbitrary '
        'relations with and without loops, any event order) and of text '
        'files (several delimiters) hit by byte corruption, lost and '
        'duplicated bytes or lines; every result is compared with an '
        'independent parser and transitive closure, earlier imports are '
        're-checked afterwards. Non-trivial: at least one import accepted '
        'with a relation and at least one other import; distinct by '
        'event-log digest.')
SIMTIME = 'no clock in this component; simulated time counted as imports'
STATE_MEASURE = 'distinct imported orders or rejection reasons'
REAL = ['causet.py FromPastMatrix/FromFutureMatrix/FromTextFile',
        'causetevent.py', 'numpy.genfromtxt']
STUB = ['open() inside a scratch directory (FaultyFileIO)',
        'CausetEvent.__hash__ (seeded)']
ASSUMPTIONS = HIST_ASSUME[:1] + [
    'Text files use the entry syntax of plain decimal integers and the '
    "comment character '#'.", 'Matrices of up to 12 columns (arrays up to '
    '24).']
PROBES = ('loop_rejected', 'bad_rejected', 'corrupted_accepted',
          'links_only', 'rows_lt_cols', 'rows_gt_cols', 'future')
DELIMS = (',', ',', ',', ';', '\t', ' ', '|')
ALPHA = '01012345678 9,-#.x\n;e'
_dir = None


def setup_worker(lib):
    global _dir
    _dir = os.path.realpath(tempfile.mkdtemp(prefix='dst-c07-'))
    seams.FS.root = _dir


def teardown_worker():
    global _dir
    seams.FS.root = None
    if _dir:
        shutil.rmtree(_dir, ignore_errors=True)
    _dir = None


def relation(rng, n):
    """past masks of a relation in some event order"""
    kind = rng.choice(('closed', 'links', 'dag', 'dag', 'digraph', 'loop',
                       'empty', 'chain'))
    order = list(range(n))
    if rng.random() < .8:
        rng.shuffle(order)
    P = [0] * n
    dens = rng.choice((.1, .25, .4, .7))
    if kind == 'digraph':
        for i in range(n):
            for j in range(n):
                if (i != j or rng.random() < .1) and rng.random() < dens / 2:
                    P[i] |= 1 << j
        return kind, P
    for b in range(n):
        for a in range(b):
            if (kind == 'chain' and a == b - 1) or \
                    (kind not in ('chain', 'empty') and rng.random() < dens):
                P[order[b]] |= 1 << order[a]
    if kind == 'loop' and n:
        # close one long loop
        k = rng.randrange(1, n + 1)
        c = rng.sample(range(n), k)
        for x in range(k):
            P[c[x]] |= 1 << c[x - 1]
    if kind == 'closed':
        P = transitive_closure(P)
    if kind == 'links':
        q = Poset()
        q.past = transitive_closure(P)
        q.fut = [0] * n
        for j in range(n):
            for i in bits(q.past[j]):
                q.fut[i] |= 1 << j
        P = [q.lpast(j) for j in range(n)]
    return kind, P


def corrupt(rng, t):
    k = rng.choice(('byte', 'byte', 'del', 'ins', 'dupline', 'delline',
                    'swap', 'trunc'))
    if not t:
        return rng.choice(ALPHA), k
    i = rng.randrange(len(t))
    if k == 'byte':
        return t[:i] + rng.choice(ALPHA) + t[i + 1:], k
    if k == 'del':
        return t[:i] + t[i + 1:], k
    if k == 'ins':
        return t[:i] + rng.choice(ALPHA) + t[i:], k
    if k == 'trunc':
        return t[:i], k
    L = t.split('\n')
    a = rng.randrange(len(L))
    if k == 'dupline':
        L.insert(a, L[a])
    elif k == 'delline':
        del L[a]
    else:
        b = rng.randrange(len(L))
        L[a], L[b] = L[b], L[a]
    return '\n'.join(L), k


def gen(rng, i):
    ops = []
    for _ in range(rng.randrange(2, 9)):
        n = rng.choice((0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 12))
        if rng.random() < .04:
            n = 24
        kind, P = relation(rng, n)
        cut = rng.choice((0, 0, 0, 0, 1, 2, n)) if n else 0
        cut = min(cut, n)
        more = 0
        if rng.random() < .08:
            cut, more = 0, rng.randrange(1, 3)
        if rng.random() < .5:
            ops.append(['arr', n, P, cut, more, rng.randrange(6),
                        rng.randrange(5), rng.randrange(2),
                        rng.randrange(2)])
        else:
            n = min(n, 12)
            P = [p & ((1 << n) - 1) for p in P[:n]]
            d = rng.choice(DELIMS)
            one = rng.choice(('1', '1', '1', '2', '7', '10'))
            rows = textfmt.from_masks(P, n, None, one)
            past = rng.randrange(2)
            if not past:
                rows = [list(r) for r in zip(*rows)]
            if cut and past:
                rows = rows[:n - cut]
            if more:
                rows += [['0'] * n for _ in range(more)]
            pad = rng.choice(('', '', '', ' '))
            t = ''.join((d + pad if d != ' ' else d).join(r) + '\n'
                        for r in rows)
            if rng.random() < .15 and t:
                t = t[:-1]
            how = []
            for _ in range(rng.choice((0, 0, 1, 1, 2, 2, 3))):
                t, k = corrupt(rng, t)
                how.append(k)
            ops.append(['file', t, d, past, how, rng.randrange(4)])
    return {'ops': ops}


def simplify(case):
    for a, op in enumerate(case['ops']):
        if op[0] == 'file':
            L = op[1].split('\n')
            for b in range(len(L)):
                t = '\n'.join(L[:b] + L[b + 1:])
                yield dict(case, ops=case['ops'][:a] +
                           [[op[0], t] + op[2:]] + case['ops'][a + 1:])


def verify(ctx, c, n, P, tag, what):
    """c must be exactly the poset P (closed) with labels 1..n"""
    L = ctx.call('iter', lambda: list(c))
    ctx.eq(len(L), n, tag + ':card', what)
    labels = [e.Label for e in L]
    ctx.check(sorted(str(x) for x in labels) ==
              sorted(str(x) for x in range(1, n + 1)),
              tag + ':labels', lambda: '%s: labels %s' % (what, labels))
    ev = [None] * n
    for e in L:
        ev[int(e.Label) - 1] = e
    ix = {id(e): k for k, e in enumerate(ev)}
    q = Poset()
    q.past = list(P)
    q.fut = [0] * n
    for j in range(n):
        for i in bits(P[j]):
            q.fut[i] |= 1 << j

    def m(xs):
        r = 0
        for e in xs:
            if id(e) not in ix:
                ctx.fail(tag + ':foreign', '%s: unknown event' % what)
            r |= 1 << ix[id(e)]
        return r
    for k in range(n):
        e = ev[k]
        ctx.eq(m(ctx.call('Past', lambda: e.Past)), q.past[k],
               tag + ':past', '%s: past of %d' % (what, k + 1))
        ctx.eq(m(ctx.call('Future', lambda: e.Future)), q.fut[k],
               tag + ':future', '%s: future of %d' % (what, k + 1))
    for k in range(n):
        e = ev[k]
        ctx.eq(m(ctx.call('LinkPast', lambda: e.LinkPast)), q.lpast(k),
               tag + ':links', '%s: link past of %d' % (what, k + 1))
    return ev


def run(ctx, case):
    np = ctx.lib.np
    C = ctx.lib.C
    kept = []
    ctx.accepted = ctx.total = 0
    path = os.path.join(_dir, 'm.txt')
    for t, op in enumerate(case['ops']):
        ctx.step = t
        ctx.stats['steps'] += 1
        ctx.stats['op:' + op[0]] += 1
        ctx.total += 1
        if op[0] == 'arr':
            _, n, P, cut, more, dt, lay, fut, again = op
            dtype = (bool, np.int64, np.int8, np.uint8, bool, np.int32)[dt]
            val = 1 if dtype is bool or dt % 2 else 3
            full = np.zeros((n + more, n), dtype=dtype)
            for i in range(n - cut):
                for j in bits(P[i]):
                    full[i, j] = val
            A = full[:n + more - cut if cut else n + more, :]
            if lay == 1:
                A = np.asfortranarray(A)
            elif lay == 2:
                big = np.zeros((2 * A.shape[0] + 1, 2 * n + 1), dtype=dtype)
                big[:2 * A.shape[0]:2, :2 * n:2] = A
                A = big[:2 * A.shape[0]:2, :2 * n:2]
            elif lay == 3:
                A = A.copy()
                A.flags.writeable = False
            if fut:
                A = A.T
                ctx.probes['future'] += 1
            before = A.copy()
            rel = [P[i] if i < n - cut else 0 for i in range(n)]
            verdict = None
            if more:
                verdict, Q = 'rows_gt_cols', []
            else:
                Q = transitive_closure(rel)
                if any(Q[i] >> i & 1 for i in range(n)):
                    verdict = 'loop_rejected'
            if cut:
                ctx.probes['rows_lt_cols'] += 1
            what = 'matrix %dx%d' % A.shape
            fn = C.FromFutureMatrix if fut else C.FromPastMatrix
            outs = []
            for rep in range(1 + again):
                outs.append(attempt(ctx, fn, A))
                ctx.check(bool((A == before).all()), 'input-modified',
                          'the input matrix was modified')
        else:
            _, text, d, past, how, form = op
            for k in how:
                ctx.faults['corrupt:' + k] += 1
            with seams._real_open(path, 'w', newline='') as f:
                f.write(text)
            kind, rows = textfmt.parse(text, d)
            verdict = None
            if kind == 'bad':
                verdict = 'bad_rejected'
                n, Q = 0, []
            else:
                r = textfmt.masks(rows, bool(past))
                if r is None:
                    verdict, n, Q = 'rows_gt_cols', 0, []
                else:
                    n, Q = r
                    Q = transitive_closure(Q)
                    if any(Q[i] >> i & 1 for i in range(n)):
                        verdict = 'loop_rejected'
            if how and verdict is None:
                ctx.probes['corrupted_accepted'] += 1
            what = 'file %r' % text
            name = pathlib.Path(path) if form == 3 else path
            args = [bool(past)] if not past or form & 1 else []
            kw = {} if d == ',' and form & 1 else {'delimiter': d}
            outs = [attempt(ctx, C.FromTextFile, name, *args, **kw)]
            with seams._real_open(path, newline='') as f:
                ctx.check(f.read() == text, 'file-modified',
                          'the imported file was modified')
        for kind, c in outs:
            if verdict is None:
                ctx.check(kind == 'ok', 'rejected', lambda: (
                    '%s holds a valid relation but was rejected: %s' % (
                        what, c)))
                ev = verify(ctx, c, n, Q, 'import', what)
                for _, _, c0, ev0 in kept:
                    ctx.check(not ({id(e) for e in ev} &
                                   {id(e) for e in ev0}), 'shared',
                              'two imports share an event')
                kept.append((n, Q, c, ev))
                ctx.accepted += bool(any(Q))
                ctx.state(tuple(Q))
            else:
                ctx.probes[verdict] += 1
                ctx.check(kind != 'ok', 'accepted', lambda: (
                    '%s must be rejected (%s) but was accepted' % (
                        what, verdict)))
                ctx.check(kind == 'ValueError', 'wrong-error', lambda: (
                    '%s must raise ValueError (%s) but raised %s' % (
                        what, verdict, c)))
                ctx.state(verdict)
        ctx.log(op[0], verdict, n, Q)
    for n, Q, c, ev in kept:
        verify(ctx, c, n, Q, 'later', 'an earlier import')


def attempt(ctx, fn, *a, **k):
    ctx.stats['lib_calls'] += 1
    try:
        return 'ok', fn(*a, **k)
    except ValueError as e:
        return 'ValueError', str(e)
    except Exception as e:
        return 'error', '%s: %s' % (type(e).__name__, e)


def nontrivial(ctx):
    return ctx.accepted >= 1 and ctx.total >= 2
