import os
import pathlib
import shutil
import tempfile

from .. import seams, textfmt
from ..engine import Violation
from ..model import bits, isomorphic, transitive_closure
from ..seams import FS, mix
from . import hist
from .common import HIST_ASSUME
ID = 'C06'
COUNT = {'quick': 250000, 'thorough': 900000}
CAP = {'quick': 50, 'thorough': 1500}
MIN_RUNS = 400
RULE = ('One run = one seeded history of order changes, saves and loads of '
        'several causets on three shared files, with single faults (failing '
        'open, write at a byte, close, read at a byte; short reads; a crash '
        'that keeps a prefix of the file and drops all causets in memory). '
        'After every operation the file bytes, the order in memory and the '
        'loaded causets are compared with the model. Non-trivial: a '
        'completed save of an order with at least one relation that was '
        'loaded back, plus at least one fault or one further save; distinct '
        'by event-log digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = 'distinct orders saved, loaded or torn'
REAL = ['causet.py saveAsCSV/FromTextFile/FromPastMatrix/PastMatrix/'
        'sortedByCausality', 'causetevent.py', 'numpy.savetxt/genfromtxt',
        "Python's buffered text I/O"]
STUB = ['raw file I/O inside a scratch directory (FaultyFileIO below '
        'the buffers)', 'CausetEvent.__hash__ (seeded)']
ASSUMPTIONS = HIST_ASSUME[:1] + [
    'A crash keeps a byte prefix of the file being written (no reordered '
    'sectors).', 'Causets of up to 90 events.']
PROBES = ('torn_loaded', 'torn_rejected', 'torn_subset_relation',
          'save_failed', 'load_failed', 'overwrite_torn', 'reload_saved',
          'unlabelled', 'empty', 'single', 'not_closed', 'future')
LISTS = ('ops',)
W = {'new': 8, 'perm': 2, 'chain': 1.5, 'anti': 1.5, 'fence': .5,
     'matrix': 1.5, 'causet': 3, 'merge': 1.5, 'disjoin': 1, 'add': 1,
     'discard': 2, 'clink': .5, 'cunlink': .5}
SAVE_FAULTS = ('open', 'write', 'write', 'write', 'close')
LOAD_FAULTS = ('open', 'read', 'read', 'shortread')
_dir = None


def setup_worker(lib):
    global _dir
    _dir = os.path.realpath(tempfile.mkdtemp(prefix='dst-c06-'))
    FS.root = _dir


def teardown_worker():
    global _dir
    FS.root = None
    if _dir:
        shutil.rmtree(_dir, ignore_errors=True)
    _dir = None


def gen(rng, i):
    nmax = rng.choice((4, 6, 8, 10, 14, 20))
    ops = hist.gen_ops(rng, {'new': 8, 'perm': 3, 'matrix': 3, 'chain': .5,
                             'anti': .3, 'causet': 3}, {},
                       rng.randrange(3, 12), nmax)
    last = 0
    mut = hist.swarm(rng, W)
    frate = rng.choice((0, .2, .4, .7))
    for _ in range(rng.randrange(3, 18)):
        x = rng.random()
        if x < .35:
            ops += hist.gen_ops(rng, mut, {}, 1, nmax)
        elif x < .65:
            f = None
            if rng.random() < frate:
                f = [rng.choice(SAVE_FAULTS), rng.choice(
                    (rng.randrange(4), rng.randrange(40),
                     rng.randrange(10 ** 6))), rng.randrange(4)]
            last = rng.randrange(3)
            ops.append(['save', rng.randrange(8), last, f])
        elif x < .93:
            f = None
            if rng.random() < frate * .6:
                f = [rng.choice(LOAD_FAULTS), rng.choice(
                    (rng.randrange(4), rng.randrange(40),
                     rng.randrange(10 ** 6))), rng.randrange(4)]
            ops.append(['load', last if rng.random() < .7
                        else rng.randrange(3), rng.randrange(4), f])
        elif x < .98:
            last = rng.randrange(3)
            ops.append(['crash', rng.randrange(8), last, rng.choice(
                (rng.randrange(6), rng.randrange(60),
                 rng.randrange(10 ** 6)))])
        else:
            ops.append(['big', rng.randrange(20, 91), rng.randrange(10 ** 6)])
    return {'ops': ops, 'nmax': nmax}


def read(path):
    try:
        with seams._real_open(path, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def cutpos(data, at):
    """a cut position; every third one is at the end of a line"""
    ends = [i for i, b in enumerate(data) if b == 10]
    if at % 3 == 0 and ends:
        i = ends[-1 - (at // 3) % len(ends)] if at % 2 \
            else ends[-1 - (at // 3) % min(3, len(ends))]
        return max(0, i + (at // 7) % 3 - 1)
    return at % (len(data) + 1)


class File:
    def __init__(self, name):
        self.path = os.path.join(_dir, name)
        self.forget()

    def forget(self):
        # matrix: past masks by row of the last save that was completed or
        # attempted; whole: the bytes are those of a completed save
        self.matrix, self.whole, self.data = None, False, None


class IO(hist.Machine):
    def __init__(self, ctx, case):
        super().__init__(ctx, {'io'}, case.get('nmax', 12))
        self.files = [File('f%d.csv' % k) for k in range(3)]
        for f in self.files:
            if os.path.exists(f.path):
                os.remove(f.path)
        self.done = self.useful = 0

    # the causets in memory are as the model says
    def memory(self, why):
        try:
            for i in range(self.m.n):
                e = self.ev[i]
                if self.mask(e.Past, 'io') != self.m.past[i] or \
                        self.mask(e.Future, 'io') != self.m.fut[i]:
                    self.bad('io', 'memory:order', 'the order in memory '
                             'changed by ' + why)
                if e.Label != self.labels[i]:
                    self.bad('io', 'memory:label', 'a label in memory '
                             'changed by ' + why)
            for c, mem in self.causets:
                if self.mask(c, 'io') != mem:
                    self.bad('io', 'memory:members', 'the events of a causet '
                             'changed by ' + why)
        except (Violation, hist.Abort):
            raise
        except Exception as e:
            self.bad('io', 'memory:error', repr(e))

    def induced(self, mem):
        ix = bits(mem)
        pos = {k: i for i, k in enumerate(ix)}
        return [sum(1 << pos[j] for j in bits(self.m.past[k] & mem))
                for k in ix]

    def op_big(self, n, seed):
        if any(bin(c[1]).count('1') > 20 for c in self.causets):
            return
        order = sorted(range(n), key=lambda i: mix(seed, i))
        P = [0] * n
        for r, i in enumerate(order):
            P[i] = r + 1
        c = self.call('mutator', 'FromPermutation',
                      self.lib.C.FromPermutation, P)
        pos = {v: i for i, v in enumerate(P)}
        self.adopt(c, [(i + 1, sum(1 << j for j in range(i)
                                   if pos[j + 1] < pos[i + 1]))
                       for i in range(n)], 'FromPermutation')

    def expected_rows(self, data, mem):
        """the saved bytes must hold the causal past matrix of the causet"""
        try:
            kind, rows = textfmt.parse(data.decode('ascii'))
        except UnicodeDecodeError:
            kind, rows = 'bad', 'not a text file'
        if kind == 'bad':
            self.bad('io', 'saved:unreadable', 'saved file %r: %s' % (
                data[:200], rows))
        n = bin(mem).count('1')
        r = textfmt.masks(rows)
        if r is None or r[0] != n or len(rows) != n:
            self.bad('io', 'saved:size', 'saved matrix has %d rows for %d '
                     'events' % (len(rows), n))
        if not isomorphic(r[1], self.induced(mem)):
            self.bad('io', 'saved:order', 'the saved matrix %s is not the '
                     'past matrix of the causet %s' % (
                         r[1], self.induced(mem)))
        return r[1]

    def op_save(self, i, k, fault):
        x = self.cpick(i)
        if x is None:
            return
        c, mem = x
        f = self.files[k % 3]
        n = bin(mem).count('1')
        for nm, cond in (('empty', n == 0), ('single', n == 1),
                         ('not_closed', not self.m.closed(mem)),
                         ('unlabelled', any(self.labels[j] is None
                                            for j in bits(mem)))):
            self.ctx.probes[nm] += bool(cond)
        old = read(f.path)
        shadow = None
        plan = {}
        if fault:
            # what the save would write: needed to judge what is left over
            sh = os.path.join(_dir, 'shadow.csv')
            self.call('io', 'saveAsCSV', c.saveAsCSV, sh)
            shadow = read(sh)
            os.remove(sh)
            op, at, en = fault
            if op == 'write':
                at = cutpos(shadow, at)
            plan = dict(op=op, at=1 if op == 'open' else at, mode='w',
                        errno=seams.ERRNOS[en % 3] if op != 'open'
                        else seams.OPEN_ERRNOS[en % 4])
        FS.reset(plan)
        err = None
        try:
            self.ctx.stats['lib_calls'] += 1
            c.saveAsCSV(f.path)
        except Exception as e:
            err = e
        fired = list(FS.fired)
        FS.reset()
        for q in sorted(set(fired)):
            self.ctx.faults['save:' + q] += 1
        self.memory('a save')
        new = read(f.path)
        if fired:
            if err is None:
                self.bad('io', 'save:error-lost', 'an injected %s error (%s) '
                         'during the save was not reported' % (
                             fired[0], fault))
            self.ctx.probes['save_failed'] += 1
            if new != old:
                self.leftover(f, new, shadow, mem)
        else:
            if err is not None:
                self.bad('io', 'raises:saveAsCSV:' + type(err).__name__,
                         'saveAsCSV raised %r' % (err,))
            if new is None:
                self.bad('io', 'saved:missing', 'no file after a save')
            if f.data is not None and not f.whole:
                self.ctx.probes['overwrite_torn'] += 1
            f.matrix = self.expected_rows(new, mem)
            f.whole, f.data = True, new
            self.done += 1
        self.ctx.log('save', bits(mem), k, fired, new)

    def leftover(self, f, new, shadow, mem):
        f.whole, f.data = False, new
        f.matrix = None
        if new is None:
            f.forget()
        elif shadow is not None and shadow.startswith(new):
            f.matrix = self.expected_rows(shadow, mem)
            f.whole = new == shadow

    def op_crash(self, i, k, at):
        """The process dies while saving: a prefix of the bytes is on disk,
        everything in memory is gone."""
        x = self.cpick(i)
        if x is None:
            return
        c, mem = x
        f = self.files[k % 3]
        self.call('io', 'saveAsCSV', c.saveAsCSV, f.path)
        data = read(f.path)
        P = self.expected_rows(data, mem)
        cut = cutpos(data, at)
        with seams._real_open(f.path, 'wb') as h:
            h.write(data[:cut])
        f.data, f.whole, f.matrix = data[:cut], cut == len(data), P
        self.ctx.faults['crash'] += 1
        # restart
        self.m = type(self.m)()
        self.ev, self.idx, self.labels = [], {}, []
        self.causets, self.copies, self.gens = [], [], []
        self.ctx.log('crash', bits(mem), k, cut)

    def compare(self, c, P, what):
        """The loaded causet c is exactly the order P (by row index).
        Returns the events by row."""
        try:
            L = list(c)
            if len(L) != len(P):
                self.bad('io', 'loaded:card', '%s was loaded with %d events, '
                         'it holds %d' % (what, len(L), len(P)))
            by = {}
            for e in L:
                by[e.Label] = e
            ev = [by[k + 1] for k in range(len(P))]
            ix = {id(e): k for k, e in enumerate(ev)}
            for k, e in enumerate(ev):
                got = sum(1 << ix[id(a)] for a in e.Past)
                if got != P[k]:
                    self.bad('io', 'loaded:order', '%s: row %d is loaded with '
                             'the past %s, it holds %s' % (
                                 what, k + 1, bits(got), bits(P[k])))
        except (Violation, hist.Abort):
            raise
        except Exception as e:
            self.bad('io', 'loaded:broken', '%s: %r' % (what, e))
        return ev

    def op_load(self, k, form, fault):
        f = self.files[k % 3]
        before = read(f.path)
        plan = {}
        if fault:
            op, at, en = fault
            if op == 'read':
                at %= len(before or b'') + 1
            if op == 'shortread':
                at = at % 7 + 1
            plan = dict(op=op, at=1 if op == 'open' else at, mode='r',
                        errno=seams.ERRNOS[1] if op != 'open'
                        else seams.OPEN_ERRNOS[en % 3])
        past = form != 3
        name = pathlib.Path(f.path) if form == 2 else f.path
        FS.reset(plan)
        err = c = None
        try:
            self.ctx.stats['lib_calls'] += 1
            if past:
                c = self.lib.C.FromTextFile(name)
            else:
                c = self.lib.C.FromTextFile(name, False)
                self.ctx.probes['future'] += 1
        except Exception as e:
            err = e
        fired = list(FS.fired)
        FS.reset()
        for q in sorted(set(fired)):
            self.ctx.faults['load:' + q] += 1
        self.memory('a load')
        if read(f.path) != before:
            self.bad('io', 'load:file-changed', 'a load changed the file')
        hard = [q for q in fired if q != 'shortread']
        self.ctx.log('load', k, past, fired, err is None)
        if hard or before is None:
            if err is None:
                self.bad('io', 'load:error-lost', 'an error (%s) during the '
                         'load was not reported' % (hard or 'no such file'))
            self.ctx.probes['load_failed'] += 1
            return
        kind, rows = textfmt.parse(before.decode('ascii', 'replace'))
        r = textfmt.masks(rows, past) if kind == 'ok' else None
        P = transitive_closure(r[1]) if r else None
        if P is not None and any(P[i] >> i & 1 for i in range(len(P))):
            P = None
        if f.whole and f.data == before:
            # a completed save
            if err is not None:
                self.bad('io', 'raises:FromTextFile:' + type(err).__name__,
                         'loading the saved file %r raised %r' % (
                             before[:200], err))
            M = f.matrix
            if not past:
                M = [sum(1 << j for j in range(len(M)) if M[j] >> i & 1)
                     for i in range(len(M))]
            ev = self.compare(c, M, 'the saved file %r' % before[:200])
            self.ctx.probes['reload_saved'] += 1
            self.useful += bool(any(M))
        else:
            # whatever the bytes say, or an error
            if err is not None:
                self.ctx.probes['torn_rejected'] += 1
                if P is not None:
                    self.ctx.stats['readable_but_rejected'] += 1
                return
            if P is None:
                self.bad('io', 'load:accepted', 'the damaged file %r was '
                         'loaded' % before[:200])
            self.ctx.probes['torn_loaded'] += 1
            ev = self.compare(c, P, 'the file %r' % before[:200])
            M = P
            if f.matrix is not None:
                S = f.matrix
                if not past:
                    S = [sum(1 << j for j in range(len(S)) if S[j] >> i & 1)
                         for i in range(len(S))]
                self.ctx.probes['torn_subset_relation'] += bool(any(P))
                if len(P) > len(S) or any(P[i] & ~S[i]
                                          for i in range(len(P))):
                    self.bad('io', 'torn:relation', 'the torn file %r loads '
                             'with relations %s that were never saved (%s)' %
                             (before[:200], P, S))
        self.ctx.state(tuple(M))
        # the loaded causet lives on in memory
        if self.m.n + len(M) <= max(self.nmax, 24):
            if len(self.causets) >= 8:
                self.causets.pop(0)
            self.adopt(c, [(i + 1, M[i]) for i in range(len(M))], 'load')


def run(ctx, case):
    ctx.done = ctx.useful = 0
    M = IO(ctx, case)
    try:
        for t, op in enumerate(case['ops']):
            ctx.step = t
            ctx.stats['steps'] += 1
            ctx.stats['op:' + op[0]] += 1
            M.step(op)
            if op[0] in hist.ORDER_OPS:
                M.check_order()
            elif op[0] in ('add', 'discard', 'causet'):
                M.check_members()
    except hist.Abort as a:
        ctx.stats['aborted_outside_domain'] += 1
        ctx.log('abort', str(a))
    ctx.done, ctx.useful = M.done, M.useful


def nontrivial(ctx):
    return ctx.useful >= 1 and (bool(ctx.faults) or ctx.done >= 2)
