"""The history machine: several clients share a pool of events and causets and
take turns issuing operations; a bit-mask poset is the reference model.

Ops are plain JSON lists whose integer arguments are resolved modulo the
current state, so every sub-sequence of a history is again a history."""
import math

from ..engine import Violation, short
from .. import posets
from ..model import Poset, bits, transitive_closure
from ..seams import Injected, InjectedInterrupt, LineTracer, mix

NMAX_HARD = 250


class Abort(Exception):
    """The run left the domain of this property (another one is violated)."""


class Machine:
    def __init__(self, ctx, own, nmax):
        self.ctx, self.lib = ctx, ctx.lib
        self.own = own
        self.nmax = min(nmax, NMAX_HARD)
        self.m = Poset()
        self.ev = []            # real events by model id
        self.idx = {}
        self.labels = []
        self.causets = []       # [real, member mask]
        self.copies = []        # [event, past, future, links]
        self.held = []          # [set kept by the caller, member mask]
        self.gens = []
        self.counter = 0

    # ------------------------------------------------------------ reporting
    def bad(self, cat, key, msg):
        if cat in self.own:
            self.ctx.fail(key, msg)
        raise Abort(key)

    def want(self, cat, got, exp, key, what=''):
        if not (got == exp):
            self.bad(cat, key, '%s: got %s, expected %s' % (
                what or key, short(got), short(exp)))

    def call(self, cat, name, fn, *a, **k):
        self.ctx.stats['lib_calls'] += 1
        try:
            return fn(*a, **k)
        except (Violation, Abort, Injected):
            raise
        except Exception as e:
            from ..engine import where
            self.bad(cat, 'raises:%s:%s' % (name, type(e).__name__),
                     '%s raised %s: %s [%s]' % (
                         name, type(e).__name__, e, where(e)))

    def mask(self, xs, cat='order'):
        r = 0
        for e in xs:
            k = self.idx.get(id(e))
            if k is None:
                self.bad(cat, 'foreign-event', 'unknown event %r' % (type(e),))
            r |= 1 << k
        return r

    def ids(self, cat, name, fn, *a, **k):
        """call and convert the returned collection to a mask"""
        return self.call(cat, name, lambda: self.mask(fn(*a, **k), cat))

    # ------------------------------------------------------------ selection
    def pick(self, i):
        return i % self.m.n if self.m.n else None

    def picks(self, L):
        r = 0
        for i in L:
            if self.m.n:
                r |= 1 << (i % self.m.n)
        return r

    def evs(self, mask):
        return [self.ev[i] for i in bits(mask)]

    def form(self, mask, f):
        L = self.evs(mask)
        f %= 4
        if f == 0:
            return set(L)
        if f == 1:
            return L
        if f == 2:
            return (e for e in L)
        return tuple(L)

    def cpick(self, i):
        return self.causets[i % len(self.causets)] if self.causets else None

    # --------------------------------------------------------------- checks
    def check_order(self, cat='order'):
        m = self.m
        for i in range(m.n):
            e = self.ev[i]
            p = self.ids(cat, 'Past', lambda: e.Past)
            if p != m.past[i]:
                self.bad(cat, 'order:Past', 'Past of event %d is %s, expected '
                         '%s' % (i, bits(p), bits(m.past[i])))
            f = self.ids(cat, 'Future', lambda: e.Future)
            if f != m.fut[i]:
                self.bad(cat, 'order:Future', 'Future of event %d is %s, '
                         'expected %s' % (i, bits(f), bits(m.fut[i])))

    def check_members(self, cat='sets'):
        for k, (c, mem) in enumerate(self.causets):
            got = self.ids(cat, 'iter', lambda: list(c))
            if got != mem:
                self.bad(cat, 'members', 'causet %d has members %s, expected '
                         '%s' % (k, bits(got), bits(mem)))
            n = self.call(cat, 'Card', lambda: c.Card)
            self.want(cat, n, bin(mem).count('1'), 'Card')
        for h, mem in self.held:
            self.want(cat, self.call(cat, 'iter', lambda: self.mask(h, cat)),
                      mem, 'held-set-changed',
                      'a set the caller passed or was given')

    def hold(self, s, mem):
        """The caller keeps a set it passed to, or got from, the library."""
        if isinstance(s, set):
            self.held.append([s, mem])
            if len(self.held) > 6:
                self.held.pop(0)

    def op_hmut(self, i, L, how):
        """The caller changes one of its own sets."""
        if not self.held:
            return
        h = self.held[i % len(self.held)]
        w = self.picks(L)
        how %= 3
        if how == 0:
            h[0].clear()
            h[1] = 0
        elif how == 1:
            h[0].update(self.evs(w))
            h[1] |= w
        else:
            h[0].difference_update(self.evs(w))
            h[1] &= ~w
        self.ctx.log('hmut', bits(h[1]))

    def op_ecauset(self, kind):
        """A new empty causet (there may be several)."""
        if len(self.causets) >= 8:
            self.causets.pop(0)
        kind %= 3
        if kind == 0:
            c = self.call('sets', 'Causet()', self.lib.C)
        elif kind == 1:
            s = set()
            c = self.call('sets', 'Causet(set())', self.lib.C, s)
            self.hold(s, 0)
        else:
            c = self.call('sets', 'NewChain(0)', self.lib.C.NewChain, 0)
        self.causets.append([c, 0])
        self.ctx.log('ecauset')

    def check_copies(self):
        for e, p, f, lp, lf in self.copies:
            self.want('links', self.ids('links', 'LinkPast',
                                        lambda: e.LinkPast), lp,
                      'copy:LinkPast', 'links of a copied event')
            self.want('links', self.ids('links', 'LinkFuture',
                                        lambda: e.LinkFuture), lf,
                      'copy:LinkFuture', 'links of a copied event')
            self.want('order', self.ids('order', 'Past', lambda: e.Past), p,
                      'copy:Past', 'past of a copied event')
            self.want('order', self.ids('order', 'Future', lambda: e.Future),
                      f, 'copy:Future', 'future of a copied event')

    def check_links(self, rnd):
        """Every event, through a varying interface, in a varying order."""
        m = self.m
        order = sorted(range(m.n), key=lambda i: mix(rnd, i))
        for i in order:
            e = self.ev[i]
            w = mix(rnd, i, 3) % 4
            lp, lf = m.lpast(i), m.lfut(i)
            if w == 0 or w == 3:
                self.want('links', self.ids('links', 'LinkPast',
                                            lambda: e.LinkPast), lp,
                          'LinkPast', 'LinkPast of event %d' % i)
            if w == 1 or w == 3:
                self.want('links', self.ids('links', 'LinkFuture',
                                            lambda: e.LinkFuture), lf,
                          'LinkFuture', 'LinkFuture of event %d' % i)
            if w == 2:
                self.want('links', self.ids('links', 'LinkCone',
                                            lambda: e.LinkCone), lp | lf,
                          'LinkCone', 'LinkCone of event %d' % i)
        for i in order:      # now both sides of everything
            e = self.ev[i]
            self.want('links', self.ids('links', 'LinkPast',
                                        lambda: e.LinkPast), m.lpast(i),
                      'LinkPast', 'LinkPast of event %d' % i)
            self.want('links', self.ids('links', 'LinkFuture',
                                        lambda: e.LinkFuture), m.lfut(i),
                      'LinkFuture', 'LinkFuture of event %d' % i)

    # ------------------------------------------------------------- mutators
    def register(self, e, label):
        k = len(self.ev)
        self.ev.append(e)
        self.idx[id(e)] = k
        self.labels.append(label)

    def make_label(self, mode):
        self.counter += 1
        mode %= 6
        if mode in (0, 1, 2):
            return self.counter
        if mode == 3:
            return None
        if mode == 4:
            return 's%d' % (self.counter % 5)
        return self.counter % 4

    def op_new(self, past, fut, form, lab):
        m = self.m
        if m.n >= self.nmax:
            return
        p = self.picks(past)
        f = 0
        for i in bits(self.picks(fut)):
            if (p & ~m.past[i]) == 0 and not (p >> i & 1):
                f |= 1 << i
        if form & 16 and m.n > 2 and (past or fut):   # insert into links
            k = past[0] if past else fut[0]
            up = form >> 5 & 1
            side = m.lfut if up else m.lpast
            b = max(range(m.n), key=lambda i: (
                side(i).bit_count() if form >> 6 & 1 else 0, mix(k, i)))
            ends = side(b)
            drop = mix(k, *past, *fut)
            part = sum(1 << i for i in bits(ends) if mix(drop, i) % 4)
            if part:
                p, f = (1 << b, part) if up else (part, 1 << b)
        label = self.make_label(lab)
        kw = {}
        if p or form & 1:
            kw['past'] = self.form(p, form)
        if f or form & 2:
            kw['future'] = self.form(f, form >> 2)
        if label is not None or form & 4:
            kw['label'] = label
        e = self.call('mutator', 'CausetEvent', self.lib.E, **kw)
        k = m.new(p, f)
        self.register(e, label)
        self.dirty()
        self.ctx.log('new', k, bits(p), bits(f))

    def adopt(self, c, expected=None, key='constructor', label_key=None):
        """Register the events of a freshly built causet. expected: list of
        (label, past index mask) or None (adopt the order as found)."""
        L = self.call('mutator', 'iter', lambda: list(c))
        labs = [e.Label for e in L]
        if expected is not None:
            want = [x[0] for x in expected]
            if sorted(map(str, labs)) != sorted(map(str, want)):
                self.bad('ctor', key + ':labels', 'labels %s' % short(labs))
            L.sort(key=lambda e: want.index(e.Label))
        else:
            try:
                L.sort(key=lambda e: e.Label)
            except TypeError:
                pass
        base = self.m.n
        for e in L:
            if id(e) in self.idx:
                self.bad('mutator', 'constructor:shared',
                         'constructor returned an existing event')
            self.register(e, e.Label)
        for i, e in enumerate(L):
            self.m.past.append(0)
            self.m.fut.append(0)
        for i, e in enumerate(L):
            if expected is not None:
                self.m.past[base + i] = expected[i][1] << base
            else:
                self.m.past[base + i] = self.mask(e.Past)
        for i in range(len(L)):
            for j in bits(self.m.past[base + i]):
                self.m.fut[j] |= 1 << (base + i)
        if expected is None:
            for i in range(base, self.m.n):
                up = self.m.union(self.m.past[i], self.m.past)
                if self.m.past[i] >> i & 1 or up & ~self.m.past[i]:
                    self.bad('order', 'order:constructor',
                             'constructed order is not a partial order')
        mem = ((1 << len(L)) - 1) << base
        self.causets.append([c, mem])
        self.dirty()

    def op_perm(self, L, lf):
        n = len(L)
        if self.m.n + n > self.nmax:
            return
        P = [0] * n
        for r, i in enumerate(sorted(range(n), key=lambda i: (L[i], i))):
            P[i] = r + 1
        lf %= 3
        fmt = (None, '', 'e{:d}')[lf]
        c = self.call('mutator', 'FromPermutation',
                      self.lib.C.FromPermutation, P, fmt)
        exp = None
        if lf != 1:
            exp = []
            for i in range(n):
                past = 0
                for j in range(i):
                    if P.index(j + 1) < P.index(i + 1):
                        past |= 1 << j
                exp.append(((i + 1) if lf == 0 else 'e%d' % (i + 1), past))
        self.adopt(c, exp, 'FromPermutation')
        self.ctx.log('perm', P)

    def op_chain(self, n, lf):
        n %= 6
        if self.m.n + n > self.nmax:
            return
        c = self.call('mutator', 'NewChain', self.lib.C.NewChain, n)
        self.adopt(c, [(i + 1, (1 << i) - 1) for i in range(n)], 'NewChain')
        self.ctx.log('chain', n)

    def op_anti(self, n, lf):
        n %= 5
        if self.m.n + n > self.nmax:
            return
        c = self.call('mutator', 'NewAntichain', self.lib.C.NewAntichain, n)
        self.adopt(c, [(i + 1, 0) for i in range(n)], 'NewAntichain')
        self.ctx.log('anti', n)

    def op_fence(self, l, h, closed):
        l, h = l % 4 + 1, h % 3
        if self.m.n + l * (h + 1) > self.nmax:
            return
        c = self.call('mutator', 'NewFence', self.lib.C.NewFence, l, h,
                      bool(closed % 2))
        self.adopt(c, None, 'NewFence')
        self.ctx.log('fence', l, h)

    def op_simplex(self, d, central):
        d %= 3
        if self.m.n + (1 << (d + 1)) > self.nmax:
            return
        c = self.call('mutator', 'NewSimplex', self.lib.C.NewSimplex, d,
                      bool(central % 2))
        self.adopt(c, None, 'NewSimplex')
        self.ctx.log('simplex', d)

    def op_ctor(self, kind, n, L, flags, stop):
        """A named constructor with the documented result as oracle; stop:
        the constructor is first interrupted at that bytecode instruction."""
        C, T = self.lib.C, 'ctor'
        fmt = posets.FORMATS[flags % 6]
        kind = ('perm', 'perm', 'chain', 'anti', 'fence', 'crown',
                'simplex')[kind % 7]
        args, kw, P = (), {}, None
        if kind == 'perm':
            P = [0] * len(L)
            for r, i in enumerate(sorted(range(len(L)),
                                         key=lambda i: (L[i], i))):
                P[i] = r + 1
            keep = list(P)
            if flags // 6 % 3 == 0:
                P = tuple(P)
            args, exp = (P,), posets.permutation(P, fmt)
            fn = C.FromPermutation
        elif kind in ('chain', 'anti'):
            n = n // 3 % 40 if n % 3 == 0 else n // 3 % 9
            args = (n,)
            fn = C.NewChain if kind == 'chain' else C.NewAntichain
            exp = (posets.chain if kind == 'chain' else
                   posets.antichain)(n, fmt)
        elif kind == 'fence':
            l, h, cl = n % 10 - 1, n // 10 % 10 - 1, bool(n // 100 % 2)
            fn, fmt = C.NewFence, None
            exp = posets.fence(l, h, cl)
            args = (l,)
            if h != 1 or flags & 1:
                args += (h,)
            if not cl or flags & 2:
                kw['closed'] = cl
        elif kind == 'crown':
            n = n % 6 if n % 3 else n % 20
            fn, fmt = C.NewCrown, None
            args = () if n == 3 and flags & 1 else (n,)
            exp = posets.fence(n, 1, True)
        else:
            d, ce = n % 5, bool(n // 5 % 2)
            fn, fmt = C.NewSimplex, None
            exp = posets.simplex(d, ce)
            args = (d,)
            if not ce or flags & 1:
                kw['includeCentralFace'] = ce
        if kind in ('perm', 'chain', 'anti') and (fmt is not None or
                                                  flags & 32):
            kw['labelFormat'] = fmt
        if self.m.n + len(exp) > self.nmax:
            return
        if stop:
            tr = LineTracer(stop, opcodes=True)
            try:
                with tr:
                    fn(*args, **kw)
            except InjectedInterrupt:
                self.ctx.faults['interrupted_constructor'] += 1
            except Exception:
                if not tr.fired:
                    raise
        c = self.call(T, fn.__name__, fn, *args, **kw)
        if P is not None:
            self.want(T, list(P), keep, 'ctor:argument', 'the argument list')
            if isinstance(P, list):
                P.reverse()
                P.append(7)
                self.ctx.probes['argument_changed'] += 1
        evs = self.call(T, 'iter', lambda: list(c))
        what = '%s%r %r' % (fn.__name__, tuple(list(a) if isinstance(
            a, (list, tuple)) else a for a in (
                (keep,) if P is not None else args)), kw)
        self.want(T, len(evs), len(exp), 'ctor:size', what + ' size')
        for e in evs:
            if id(e) in self.idx:
                self.bad(T, 'ctor:shared', what + ' returned an event of an '
                         'earlier causet')
        pos = {id(e): k for k, e in enumerate(evs)}

        def find(x):
            if id(x) not in pos:
                self.bad(T, 'ctor:foreign', what + ': an event outside')
            return pos[id(x)]
        labels = self.call(T, 'Label', lambda: [e.Label for e in evs])
        if fmt == '':
            self.want(T, set(labels) - {None}, set(), 'ctor:labels',
                      what + ' labels')
        else:
            if sorted(map(repr, labels)) != sorted(
                    repr(x[0]) for x in exp):
                self.bad(T, 'ctor:labels', '%s: labels %s' % (
                    what, short(labels)))
            where = {x[0]: k for k, x in enumerate(exp)}
            order = sorted(range(len(evs)), key=lambda k: where[labels[k]])
            evs = [evs[k] for k in order]
            pos.update((id(e), k) for k, e in enumerate(evs))

        def sets(get):
            return [sum(1 << find(x) for x in get(e)) for e in evs]
        past = self.call(T, 'Past', sets, lambda e: e.Past)
        fut = self.call(T, 'Future', sets, lambda e: e.Future)
        n = len(evs)
        want = [x[1] for x in exp]
        if fmt == '':
            if posets.signature(past) != posets.signature(want):
                self.bad(T, 'ctor:order', '%s: pasts %s' % (
                    what, [bits(p) for p in past]))
            self.ctx.probes['unlabelled'] += n > 1
        else:
            self.want(T, [bits(p) for p in past], [bits(p) for p in want],
                      'ctor:order', what + ' pasts')
        for i in range(n):
            self.want(T, fut[i], sum(1 << j for j in range(n)
                                     if past[j] >> i & 1),
                      'ctor:future', what + ' futures')
        if n and flags // 64 % 2:
            q = Poset()
            q.past, q.fut = list(past), list(fut)
            self.want(T, self.call(T, 'LinkPast', sets,
                                   lambda e: e.LinkPast),
                      [q.lpast(i) for i in range(n)], 'ctor:links',
                      what + ' links')
        base = self.m.n
        for k, e in enumerate(evs):
            self.register(e, labels[k] if fmt == '' else e.Label)
            self.m.past.append(past[k] << base)
            self.m.fut.append(fut[k] << base)
        if len(self.causets) >= 8:
            self.causets.pop(0)
        self.causets.append([c, ((1 << n) - 1) << base])
        self.ctx.probes['ctor:' + kind] += 1
        self.ctx.state((kind, n, tuple(past)))
        self.dirty()
        self.ctx.log('ctor', kind, past)

    def op_matrix(self, n, seed, link_only):
        n %= 7
        wide = seed % 4 == 0 and self.m.n + n + 6 <= self.nmax
        if wide:
            n += 6
        if self.m.n + n > self.nmax or n == 0:
            return
        order = sorted(range(n), key=lambda i: mix(seed, i))
        rows = [0] * n
        if wide:            # few events above or below a large antichain
            few = 1 + mix(seed, 3) % 2
            for b in range(n):
                for a in range(b):
                    if (a < few <= b if mix(seed, 4) % 2 else
                            a < n - few <= b) and mix(seed, a, b, 9) % 9:
                        rows[order[b]] |= 1 << order[a]
        for b in range(0 if wide else n):
            for a in range(b):
                if mix(seed, a, b, 9) % 3 == 0:
                    rows[order[b]] |= 1 << order[a]
        closed = transitive_closure(rows)
        src = closed
        if link_only % 2:
            q = Poset()
            q.past = list(closed)
            q.fut = [0] * n
            for j in range(n):
                for i in bits(closed[j]):
                    q.fut[i] |= 1 << j
            src = [q.lpast(j) for j in range(n)]
        np = self.lib.np
        A = np.zeros((n, n), dtype=bool)
        for j in range(n):
            for i in bits(src[j]):
                A[j, i] = True
        c = self.call('mutator', 'FromPastMatrix',
                      self.lib.C.FromPastMatrix, A)
        self.adopt(c, [(i + 1, closed[i]) for i in range(n)],
                   'FromPastMatrix')
        self.ctx.log('matrix', closed)

    def op_big(self, n, seed, kind):
        """a causet of 60 to 200 events in one go"""
        n = 60 + n % 141
        if self.m.n + n > self.nmax:
            return
        order = sorted(range(n), key=lambda i: mix(seed, i))
        rows = [0] * n
        kind %= 4
        if kind < 2:                    # sparse random relations
            k = (n // 2, n)[kind]
            for b in range(1, n):
                for t in range(3):
                    a = mix(seed, b, t) % b
                    if mix(seed, b, t, 5) % (2 * n) < k:
                        rows[order[b]] |= 1 << order[a]
            rows = transitive_closure(rows)
        else:                           # two-dimensional order
            v = [mix(seed, i, 8) for i in range(n)]
            for b in range(n):
                for a in range(b):
                    if v[a] < v[b] and (kind == 2 or b - a < n // 2 or
                                        v[b] - v[a] > 1 << 20):
                        rows[order[b]] |= 1 << order[a]
            rows = transitive_closure(rows)
        A = self.lib.np.zeros((n, n), dtype=bool)
        for j in range(n):
            for i in bits(rows[j]):
                A[j, i] = True
        c = self.call('mutator', 'FromPastMatrix',
                      self.lib.C.FromPastMatrix, A)
        self.adopt(c, [(i + 1, rows[i]) for i in range(n)],
                   'FromPastMatrix')
        self.ctx.probes['big_causet'] += 1
        self.ctx.log('big', rows)

    def op_causet(self, L, kind):
        if len(self.causets) >= 8:
            self.causets.pop(0)
        want = self.picks(L)
        arg = set(self.evs(want))
        c = self.call('sets', 'Causet', self.lib.C, arg)
        got = self.ids('sets', 'iter', lambda: list(c))
        mem = self.m.closure(want)
        self.want('sets', got, mem, 'closure', 'closure of %s' % bits(want))
        if kind % 2:      # the argument must not be aliased
            arg.clear()
            arg.add('junk')
        else:
            self.hold(arg, want)
        self.causets.append([c, mem])
        self.ctx.log('causet', bits(want), bits(mem))

    def op_merge(self, i, j, disjoint, form):
        a, b = self.cpick(i), self.cpick(j)
        if a is None:
            return
        m = self.m
        ok = m.closed(a[1]) and m.closed(b[1]) and not a[1] & b[1]
        disjoint = bool(disjoint % 3 == 0) or not ok
        A = a[0] if form & 1 else self.form(a[1], form >> 2)
        B = b[0] if form & 2 else self.form(b[1], form >> 4)
        c = self.call('mutator', 'merge', self.lib.C.merge, A, B, disjoint)
        if not disjoint:
            m.relate_all(a[1], b[1])
            self.dirty()
            self.ctx.probes['merge_related'] += 1
        for x, y in ((A, a), (B, b)):
            self.hold(x, y[1])
        mem = m.closure(a[1] | b[1])
        if len(self.causets) >= 8:
            self.causets.pop(0)
        self.check_order('order')
        got = self.ids('sets', 'iter', lambda: list(c))
        self.want('sets', got, mem, 'merge:members')
        self.causets.append([c, mem])
        self.ctx.log('merge', bits(a[1]), bits(b[1]), disjoint)

    def op_pmerge(self, L1, L2, form):
        """Merge of a past-closed with a disjoint future-closed set: events
        of the two may be related already."""
        m = self.m
        if not m.n:
            return
        d = self.picks(L1)
        d |= m.union(d, m.past)
        u = self.picks(L2)
        u = (u | m.union(u, m.fut)) & ~d
        if form % 3 == 2:           # everything else is the future set
            u = ((1 << m.n) - 1) & ~d
        A = self.form(d, form >> 2)
        B = self.form(u, form >> 4)
        c = self.call('mutator', 'merge', self.lib.C.merge, A, B)
        if any(m.lt(i, j) for i in bits(d) for j in bits(u)):
            self.ctx.probes['merge_overlap'] += 1
        m.relate_all(d, u)
        self.dirty()
        self.hold(A, d)
        self.hold(B, u)
        mem = m.closure(d | u)
        if len(self.causets) >= 8:
            self.causets.pop(0)
        self.check_order('order')
        self.want('sets', self.ids('sets', 'iter', lambda: list(c)), mem,
                  'merge:members')
        self.causets.append([c, mem])
        self.ctx.log('pmerge', bits(d), bits(u))

    def op_disjoin(self, i):
        k = self.pick(i)
        if k is None:
            return
        if self.m.past[k] and self.m.fut[k]:
            self.ctx.probes['disjoin_inner'] += 1
        self.call('mutator', 'disjoin', self.ev[k].disjoin)
        self.m.disjoin(k)
        self.dirty()
        self.ctx.log('disjoin', k)

    def op_add(self, i, L, form, unlink):
        c = self.cpick(i)
        if c is None:
            return
        w = self.picks(L)
        arg = self.form(w, form)
        if form % 8 == 7:     # another causet as argument
            d = self.cpick(form)
            w, arg = d[1], d[0]
        if unlink % 3 == 0:
            self.call('mutator', 'add', c[0].add, arg, unlink=True)
        else:
            self.call('mutator', 'add', c[0].add, arg)
        c[1] |= w
        self.hold(arg, w)
        self.ctx.log('add', bits(w))

    def op_discard(self, i, L, form, unlink):
        c = self.cpick(i)
        if c is None:
            return
        w = self.picks(L)
        arg = self.form(w, form)
        if form % 16 == 7:
            d = self.cpick(form)
            w, arg = d[1], d[0]
        if unlink % 3 == 0:
            self.call('mutator', 'discard', c[0].discard, arg, unlink=True)
        else:
            self.call('mutator', 'discard', c[0].discard, arg)
        c[1] &= ~w
        self.hold(arg, w)
        self.ctx.log('discard', bits(w))

    def op_link(self, i):
        k = self.pick(i)
        if k is not None:
            self.call('links', 'link', self.ev[k].link)
            self.ctx.log('link', k)

    def op_unlink(self, i):
        k = self.pick(i)
        if k is not None:
            self.call('links', 'unlink', self.ev[k].unlink)
            self.ctx.log('unlink', k)

    def op_clink(self, i):
        c = self.cpick(i)
        if c is not None:
            self.call('links', 'Causet.link', c[0].link)
            if not self.m.closed(c[1]):
                self.ctx.probes['clink_nonclosed'] += 1
            self.ctx.log('clink')

    def op_cunlink(self, i):
        c = self.cpick(i)
        if c is not None:
            self.call('links', 'Causet.unlink', c[0].unlink)
            self.ctx.log('cunlink')

    def op_copy(self, i):
        k = self.pick(i)
        if k is None or len(self.copies) > 5:
            return
        e = self.call('mutator', 'copy', self.ev[k].copy)
        self.copies.append([e, self.m.past[k], self.m.fut[k],
                            self.m.lpast(k), self.m.lfut(k)])
        self.want('order', self.ids('order', 'Past', lambda: e.Past),
                  self.m.past[k], 'copy:Past', 'past of a copy')
        self.want('order', self.ids('order', 'Future', lambda: e.Future),
                  self.m.fut[k], 'copy:Future', 'future of a copy')
        self.want('links', self.ids('links', 'LinkPast', lambda: e.LinkPast),
                  self.m.lpast(k), 'copy:LinkPast')
        self.want('links', self.ids('links', 'LinkFuture',
                                    lambda: e.LinkFuture),
                  self.m.lfut(k), 'copy:LinkFuture')
        self.ctx.log('copy', k)

    def dirty(self):
        """The order changed: live generators are abandoned."""
        for g in self.gens:
            try:
                g['it'].close()
            except Exception:
                pass
        self.gens = []

    # -------------------------------------------------------------- queries
    def op_q(self, kind, a, b, c, L):
        if not self.m.n:
            return
        f = getattr(self, 'q_' + kind)
        self.ctx.stats['q:' + kind] += 1
        f(self.pick(a), self.pick(b), c, self.picks(L))

    # C01 ---------------------------------------------------------------
    def q_cmp(self, i, j, c, s):
        a, b, m = self.ev[i], self.ev[j], self.m
        got = self.call('order', 'compare', lambda: (
            a < b, a <= b, a > b, a >= b, a.isCausalTo(b), b.isCausalTo(a),
            a.isSpacelikeTo(b), a == b, a != b))
        lt, gt = m.lt(i, j), m.lt(j, i)
        exp = (lt, lt or i == j, gt, gt or i == j, lt or gt or i == j,
               lt or gt or i == j, not (lt or gt or i == j), i == j, i != j)
        self.want('order', tuple(map(bool, got)), exp, 'compare',
                  'comparisons of %d and %d' % (i, j))
        self.ctx.log('cmp', i, j, exp)

    def q_sets(self, i, j, c, s):
        e, m = self.ev[i], self.m
        p, f, o = m.past[i], m.fut[i], 1 << i
        for nm, exp in (('Past', p), ('Future', f), ('Cone', p | f | o),
                        ('PresentOrPast', p | o), ('PresentOrFuture', f | o)):
            self.want('order', self.ids('order', nm, lambda: getattr(e, nm)),
                      exp, nm, '%s of %d' % (nm, i))
        for nm, exp in (('PastCard', p), ('FutureCard', f),
                        ('ConeCard', p | f | o)):
            self.want('order', self.call('order', nm, lambda: getattr(e, nm)),
                      bin(exp).count('1'), nm, '%s of %d' % (nm, i))
        S = set(self.evs(s))
        exp = s & ~(p | f | o)
        self.want('order', self.ids('order', 'Spacelike', e.Spacelike, S),
                  exp, 'Spacelike')
        self.want('order', self.call('order', 'SpacelikeCard',
                                     e.SpacelikeCard, S),
                  bin(exp).count('1'), 'SpacelikeCard')
        self.want('order', self.mask(S), s, 'argument-changed')
        self.ctx.log('sets', i)

    # C02 ---------------------------------------------------------------
    def q_lpast(self, i, j, c, s):
        self.want('links', self.ids('links', 'LinkPast',
                                    lambda: self.ev[i].LinkPast),
                  self.m.lpast(i), 'LinkPast', 'LinkPast of %d' % i)
        self.ctx.log('lpast', i)

    def q_lfut(self, i, j, c, s):
        self.want('links', self.ids('links', 'LinkFuture',
                                    lambda: self.ev[i].LinkFuture),
                  self.m.lfut(i), 'LinkFuture', 'LinkFuture of %d' % i)
        self.ctx.log('lfut', i)

    def q_lcone(self, i, j, c, s):
        self.want('links', self.ids('links', 'LinkCone',
                                    lambda: self.ev[i].LinkCone),
                  self.m.lpast(i) | self.m.lfut(i), 'LinkCone',
                  'LinkCone of %d' % i)
        self.ctx.log('lcone', i)

    def q_lcards(self, i, j, c, s):
        e, m = self.ev[i], self.m
        p, f = bin(m.lpast(i)).count('1'), bin(m.lfut(i)).count('1')
        nm, exp = (('LinkPastCard', p), ('LinkFutureCard', f),
                   ('LinkConeCard', p + f))[c % 3]
        self.want('links', self.call('links', nm, lambda: getattr(e, nm)),
                  exp, nm, '%s of %d' % (nm, i))
        self.ctx.log('lcards', i, nm)

    def q_islink(self, i, j, c, s):
        a, b, m = self.ev[i], self.ev[j], self.m
        nm, exp = (('isPastLink', m.islink(j, i)),
                   ('isFutureLink', m.islink(i, j)),
                   ('isLinkedTo', m.islink(i, j) or m.islink(j, i)))[c % 3]
        self.want('links', bool(self.call('links', nm, getattr(a, nm), b)),
                  exp, nm, '%s(%d, %d)' % (nm, i, j))
        self.ctx.log('islink', i, j, nm, exp)

    def q_lcount(self, i, j, c, s):
        m = self.m
        exp = sum(bin(m.lpast(k) & s).count('1') for k in bits(s))
        S = set(self.evs(s))
        if c % 3 == 0:
            self.want('links', self.call('links', 'LinkCountOf',
                                         self.lib.E.LinkCountOf, S), exp,
                      'LinkCountOf')
        x = self.cpick(c)
        if x is not None and c % 3 == 1:
            self.want('links', self.call('links', 'LinkCount',
                                         x[0].LinkCount, S), exp,
                      'LinkCount(set)')
        if x is not None and c % 3 == 2 and m.closed(x[1]):
            exp = sum(bin(m.lpast(k)).count('1') for k in bits(x[1]))
            self.want('links', self.call('links', 'LinkCount',
                                         x[0].LinkCount), exp, 'LinkCount')
        self.ctx.log('lcount', c % 3, exp)

    def q_lmatrix(self, i, j, c, s):
        x = self.cpick(c)
        if x is None:
            return
        m = self.m
        L = bits(s)
        L.sort(key=lambda k: mix(c, k))
        lab = [self.ev[k] for k in L]
        fut = c % 2
        fn = x[0].LinkFutureMatrix if fut else x[0].LinkPastMatrix
        got = self.call('links', 'LinkMatrix',
                        lambda: [[bool(v) for v in r] for r in fn(lab)])
        exp = [[m.islink(a, b) if fut else m.islink(b, a) for b in L]
               for a in L]
        self.want('links', got, exp, 'LinkMatrix',
                  'Link%sMatrix' % ('Future' if fut else 'Past'))
        if c // 2 % 2:      # default: the members, sorted by causality
            got = self.call('links', 'LinkMatrix',
                            lambda: [[bool(v) for v in r]
                                     for r in (x[0].LinkFutureMatrix() if fut
                                               else x[0].LinkPastMatrix())])
            tot = sum(bin(m.lpast(k) & x[1]).count('1') for k in bits(x[1]))
            tri = [(p, q) for p in range(len(got)) for q in range(len(got))
                   if got[p][q]]
            if len(got) != bin(x[1]).count('1') or len(tri) != tot or any(
                    (p >= q) if fut else (p <= q) for p, q in tri):
                self.bad('links', 'LinkMatrix()', 'default link matrix does '
                         'not hold the links of the causet: %s' % short(got))
        self.ctx.log('lmatrix', L)

    def q_perim(self, i, j, c, s):
        m = self.m
        a, b = self.ev[i], self.ev[j]
        exp = m.lfut(i) & m.lpast(j) if m.lt(i, j) else 0
        self.want('links', self.ids('links', 'PerimetralEvents',
                                    self.lib.C.PerimetralEvents, a, b), exp,
                  'PerimetralEvents', 'PerimetralEvents(%d, %d)' % (i, j))
        self.want('links', self.call('links', 'PerimetralEventCount',
                                     self.lib.C.PerimetralEventCount, a, b),
                  bin(exp).count('1'), 'PerimetralEventCount')
        self.ctx.log('perim', i, j)

    # C03 ---------------------------------------------------------------
    def q_interval(self, i, j, c, s):
        m, C = self.m, self.lib.C
        a, b = self.ev[i], self.ev[j]
        full = m.interval(i, j)
        inner = full & ~(1 << i) & ~(1 << j)
        Q = 'query'
        self.want(Q, self.ids(Q, 'Interval', C.Interval, a, b), full,
                  'Interval', 'Interval(%d, %d)' % (i, j))
        self.want(Q, self.call(Q, 'IntervalCard', C.IntervalCard, a, b),
                  bin(full).count('1'), 'IntervalCard')
        if i != j:
            self.want(Q, self.ids(Q, 'Interval', C.Interval, a, b, False),
                      inner, 'Interval(open)')
            self.want(Q, self.call(Q, 'IntervalCard', C.IntervalCard, a, b,
                                   False), bin(inner).count('1'),
                      'IntervalCard(open)')
        per = m.lfut(i) & m.lpast(j) if m.lt(i, j) else 0
        self.want(Q, self.ids(Q, 'InternalEvents', C.InternalEvents, a, b),
                  inner & ~per if m.lt(i, j) else 0, 'InternalEvents')
        self.want(Q, self.call(Q, 'InternalEventCount',
                               C.InternalEventCount, a, b),
                  bin(inner & ~per).count('1') if m.lt(i, j) else 0,
                  'InternalEventCount')
        self.ctx.log('interval', i, j, full)

    def q_of(self, i, j, c, s):
        m, C = self.m, self.lib.C
        which = c % 3
        present = bool(c // 3 % 2)
        inter = bool(c // 6 % 2)
        S = set(self.evs(s))
        if inter and not s:
            return
        fn = (C.PastOf, C.FutureOf, C.ConeOf)[which]

        def one(k):
            x = (m.past[k], m.fut[k], m.cone(k))[which]
            return x | 1 << k if present else x
        exp = None
        for k in bits(s):
            exp = one(k) if exp is None else \
                (exp & one(k) if inter else exp | one(k))
        exp = exp or 0
        nm = ('PastOf', 'FutureOf', 'ConeOf')[which]
        got = self.ids('query', nm, fn, S, includePresent=present,
                       intersect=inter)
        self.want('query', got, exp, nm + ('&' if inter else ''),
                  '%s(%s, present=%s, intersect=%s)' % (
                      nm, bits(s), present, inter))
        self.want('query', self.mask(S, 'query'), s, 'argument-changed')
        self.ctx.log('of', nm, s, exp)

    def q_spaceto(self, i, j, c, s):
        x = self.cpick(c)
        if x is None:
            return
        m = self.m
        exp = x[1] & ~(m.union(s, m.past) | m.union(s, m.fut) | s)
        S = set(self.evs(s))
        self.want('query', self.ids('query', 'SpacelikeTo', x[0].SpacelikeTo,
                                    S), exp, 'SpacelikeTo')
        self.want('query', self.mask(S, 'query'), s, 'argument-changed')
        self.ctx.log('spaceto', s, exp)

    def q_inf(self, i, j, c, s):
        m, C = self.m, self.lib.C
        S = set(self.evs(s))
        pi = fi = 0
        for k in bits(s):
            if not m.past[k] & s:
                pi |= 1 << k
            if not m.fut[k] & s:
                fi |= 1 << k
        Q = 'query'
        self.want(Q, self.ids(Q, 'PastInfOf', C.PastInfOf, S), pi,
                  'PastInfOf')
        self.want(Q, self.ids(Q, 'FutureInfOf', C.FutureInfOf, S), fi,
                  'FutureInfOf')
        self.want(Q, self.call(Q, 'PastInfCardOf', C.PastInfCardOf, S),
                  bin(pi).count('1'), 'PastInfCardOf')
        self.want(Q, self.call(Q, 'FutureInfCardOf', C.FutureInfCardOf, S),
                  bin(fi).count('1'), 'FutureInfCardOf')
        x = self.cpick(c)
        if x is not None and m.closed(x[1]):
            pi = fi = 0
            for k in bits(x[1]):
                if not m.past[k]:
                    pi |= 1 << k
                if not m.fut[k]:
                    fi |= 1 << k
            self.want(Q, self.ids(Q, 'PastInf', lambda: x[0].PastInf), pi,
                      'PastInf')
            self.want(Q, self.ids(Q, 'FutureInf', lambda: x[0].FutureInf),
                      fi, 'FutureInf')
            self.want(Q, self.call(Q, 'PastInfCard',
                                   lambda: x[0].PastInfCard),
                      bin(pi).count('1'), 'PastInfCard')
            self.want(Q, self.call(Q, 'FutureInfCard',
                                   lambda: x[0].FutureInfCard),
                      bin(fi).count('1'), 'FutureInfCard')
        self.want(Q, self.mask(S, Q), s, 'argument-changed')
        self.ctx.log('inf', s)

    def q_is(self, i, j, c, s):
        m = self.m
        x = self.cpick(c)
        if x is None:
            return
        Q = 'query'
        # bias the subset towards chains, paths and antichains
        w = c // 8 % 5
        if w == 1:
            t = 0
            for k in bits(s):
                if not t & ~m.cone(k):
                    t |= 1 << k
            s = t
        elif w == 2:
            t = 0
            for k in bits(s):
                if not t & m.cone(k):
                    t |= 1 << k
            s = t
        elif w == 3:
            k = i
            s = 1 << k
            for _ in range(c // 40 % 6):
                nx = bits(m.lfut(k))
                if not nx:
                    break
                k = nx[c % len(nx)]
                s |= 1 << k
            if c // 300 % 3 == 0 and s & (s - 1):
                L = bits(s)
                s &= ~(1 << L[c % len(L)])
        elif w == 4 and m.lt(i, j):
            s = m.interval(i, j)
        S = self.form(s, c)
        ch, ac = m.chain(s), m.antichain(s)

        def is_path(s):
            if not s:
                return False
            L = sorted(bits(s), key=lambda k: bin(m.past[k]).count('1'))
            return m.chain(s) and all(
                m.islink(L[q], L[q + 1]) for q in range(len(L) - 1))
        pa = is_path(s)
        self.want(Q, bool(self.call(Q, 'isChain', x[0].isChain, S)), ch,
                  'isChain', 'isChain(%s)' % bits(s))
        self.want(Q, bool(self.call(Q, 'isAntichain', x[0].isAntichain,
                                    self.form(s, c + 1))), ac, 'isAntichain',
                  'isAntichain(%s)' % bits(s))
        self.want(Q, bool(self.call(Q, 'isPath', x[0].isPath,
                                    self.form(s, c + 2))), pa, 'isPath',
                  'isPath(%s)' % bits(s))
        if pa and bin(s).count('1') > 2:
            self.ctx.probes['path_of_3'] += 1
        if m.closed(x[1]):
            self.want(Q, bool(self.call(Q, 'isChain', x[0].isChain)),
                      m.chain(x[1]), 'isChain()')
            self.want(Q, bool(self.call(Q, 'isAntichain', x[0].isAntichain)),
                      m.antichain(x[1]), 'isAntichain()')
            self.want(Q, bool(self.call(Q, 'isPath', x[0].isPath)),
                      is_path(x[1]), 'isPath()')
        self.ctx.log('is', s, ch, ac, pa)

    def q_disjoint(self, i, j, c, s):
        m = self.m
        x = self.cpick(c)
        if x is None:
            return
        Q = 'query'
        if c % 2:
            s = x[1]
            got = self.call(Q, 'disjoint', lambda: [
                self.mask(t, Q) for t in x[0].disjoint()])
            isd = self.call(Q, 'isDisjoint', x[0].isDisjoint)
        else:
            S = set(self.evs(s))
            got = self.call(Q, 'disjoint', lambda: [
                self.mask(t, Q) for t in x[0].disjoint(S)])
            self.want(Q, self.mask(S, Q), s, 'argument-changed')
            isd = self.call(Q, 'isDisjoint', x[0].isDisjoint, S)
        exp = sorted(m.components(s))
        self.want(Q, sorted(got), exp, 'disjoint',
                  'components of %s' % bits(s))
        self.want(Q, bool(isd), len(exp) > 1, 'isDisjoint')
        self.ctx.log('disjoint', exp)

    def q_central(self, i, j, c, s):
        m = self.m
        x = self.cpick(c)
        if x is None:
            return
        Q = 'query'
        if c % 2:
            got = self.ids(Q, 'CentralAntichain', x[0].CentralAntichain)
            diff = 0
        else:
            got = self.ids(Q, 'CentralAntichain', x[0].CentralAntichain,
                           self.ev[i])
            diff = bin(m.past[i]).count('1') - bin(m.fut[i]).count('1')
        size = {k: abs(bin(m.past[k]).count('1') - bin(m.fut[k]).count('1')
                       - diff) for k in bits(x[1])}
        if got & ~x[1] or not m.antichain(got):
            self.bad(Q, 'CentralAntichain:antichain',
                     'not an antichain of the causet: %s' % bits(got))
        for k in bits(x[1] & ~got):
            blockers = [q for q in bits(m.cone(k) & got)
                        if size[q] <= size[k]]
            if not blockers:
                self.bad(Q, 'CentralAntichain:greedy',
                         'event %d (difference %d) is missing in %s' % (
                             k, size[k], bits(got)))
        self.ctx.log('central', got)

    def q_sorted(self, i, j, c, s):
        m = self.m
        x = self.cpick(c)
        if x is None:
            return
        Q = 'query'
        rev = bool(c // 2 % 2)
        if c // 4 % 2:
            s = x[1]
            args = ()
        else:
            args = (set(self.evs(s)),)
        L = self.call(Q, 'sortedByCausality', lambda: [
            self.idx[id(e)] for e in x[0].sortedByCausality(
                *args, reverse=rev)])
        self.want(Q, sorted(L), bits(s), 'sortedByCausality:members')
        if rev:
            L = L[::-1]
        for p in range(len(L)):
            for q in range(p):
                if m.lt(L[p], L[q]):
                    self.bad(Q, 'sortedByCausality:order',
                             '%s is not a linear extension (reverse=%s)' % (
                                 L, rev))
        labs = [self.labels[k] for k in bits(s)]
        if all(isinstance(t, int) for t in labs) or \
                all(isinstance(t, str) for t in labs):
            S = self.call(Q, 'sortedByLabels', lambda: [
                self.idx[id(e)] for e in x[0].sortedByLabels(
                    *args, reverse=rev)])
            self.want(Q, sorted(S), bits(s), 'sortedByLabels:members')
            got = [self.labels[k] for k in S]
            self.want(Q, got, sorted(labs, reverse=rev), 'sortedByLabels')
            self.ctx.probes['sorted_labels'] += 1
        self.ctx.log('sorted', s)

    def q_matrix(self, i, j, c, s):
        m = self.m
        x = self.cpick(c)
        if x is None:
            return
        Q = 'query'
        L = bits(s)
        L.sort(key=lambda k: mix(c, k))
        lab = [self.ev[k] for k in L]
        fut = c % 2
        fn = x[0].FutureMatrix if fut else x[0].PastMatrix
        if c // 2 % 3 == 0:
            dt = int
        else:
            dt = bool
        got = self.call(Q, 'Matrix', lambda: [
            [int(v) for v in r] for r in fn(lab, dt)])
        exp = [[int(m.lt(a, b) if fut else m.lt(b, a)) for b in L]
               for a in L]
        self.want(Q, got, exp, 'Matrix')
        if c // 6 % 2:
            # default labelling: an index-respecting matrix of the members
            got = self.call(Q, 'Matrix', lambda: [
                [int(v) for v in r] for r in x[0].PastMatrix()])
            tot = sum(bin(m.past[k] & x[1]).count('1') for k in bits(x[1]))
            ok = len(got) == bin(x[1]).count('1') and \
                sum(map(sum, got)) == tot and \
                all(not got[p][q] for p in range(len(got))
                    for q in range(p, len(got)))
            if not ok:
                self.bad(Q, 'PastMatrix()', 'default past matrix is not the '
                         'lower triangular matrix of the causet: %s' %
                         short(got))
        self.ctx.log('matrix', L)

    def q_smallest(self, i, j, c, s):
        m = self.m
        x = self.cpick(c)
        if x is None:
            return
        a, b = self.ev[i], self.ev[j]
        kw, search, inter = {}, x[1], None
        if c // 8 % 3 == 1:     # (related events: both have to be in there)
            search = s | (1 << i | 1 << j if m.cone(i) >> j & 1 or i == j
                          else 0)
            kw['searching'] = set(self.evs(search))
        if c // 24 % 3 == 1:
            inter = m.union(s, m.past) ^ mix(c, i, j) & ((1 << m.n) - 1)
            kw['intersecting'] = set(self.evs(inter))
        exp = self.small(i, j, search, inter)
        got = self.call('query', 'SmallestIntervalCard',
                        x[0].SmallestIntervalCard, a, b, **kw)
        self.want('query', got, exp, 'SmallestIntervalCard',
                  'SmallestIntervalCard(%d, %d, %s, %s)' % (
                      i, j, 'searching' in kw and bits(search),
                      inter is not None and bits(inter)))
        for k, v in (('searching', search), ('intersecting', inter)):
            if k in kw:
                self.want('query', self.mask(kw[k], 'query'), v,
                          'argument-changed')
        self.ctx.log('smallest', i, j, exp)

    # C04 ---------------------------------------------------------------
    LENGTHS = ('any', 'any', 'min', 'max', 'timegeo', 1, 2, 3, 4, 5,
               [1, 3], [2, 3], [3, 4], [4, 4], [3, 9], [5, 6])

    def expected_paths(self, i, j, length):
        P = self.m.paths(i, j, 600)
        if P is None:
            return None
        if isinstance(length, int):
            return {p for p in P if len(p) == length}
        if isinstance(length, list):
            return {p for p in P if length[0] <= len(p) <= length[-1]}
        if length == 'min':
            k = min([len(p) for p in P], default=0)
            return {p for p in P if len(p) == k}
        if length in ('max', 'timegeo'):
            k = max([len(p) for p in P], default=0)
            return {p for p in P if len(p) == k}
        return set(P)

    def far(self, i, j, c):
        """prefer pairs with something in between"""
        m = self.m
        if c % 3 and not (m.lt(i, j) and m.fut[i] & m.past[j]):
            best = None
            for a in range(m.n):
                for b in bits(m.fut[a]):
                    v = (bin(m.fut[a] & m.past[b]).count('1'),
                         mix(c, a, b))
                    if best is None or v > best[0]:
                        best = (v, a, b)
                        if mix(c, a, b) % 7 == 0 and v[0] > 1:
                            return a, b
            if best:
                return best[1], best[2]
        return i, j

    def start_paths(self, i, j, length):
        exp = self.expected_paths(i, j, length)
        if exp is None:
            self.ctx.stats['too_many_paths'] += 1
            return None
        w = length
        if isinstance(length, list):
            w = list(length)
        C = self.lib.C
        it = self.call('paths', 'Paths', C.Paths, self.ev[i], self.ev[j], w) \
            if length != 'any' or mix(i, j) % 2 else \
            self.call('paths', 'Paths', C.Paths, self.ev[i], self.ev[j])
        return dict(it=it, exp=exp, seen=set(), i=i, j=j, length=length,
                    done=False)

    def advance(self, g, k):
        """k paths of generator g; (k < 0: exhaust)"""
        nm, cat = g.get('name', 'Paths'), g.get('cat', 'paths')
        what = '%s(%d, %d, %r)' % (nm, g['i'], g['j'], g['length'])
        while k:
            p = self.call(cat, nm, next, g['it'], None)
            if p is None:
                g['done'] = True
                if g.get('given') and not self.lib.np.array_equal(
                        *g['given']):
                    self.bad(cat, nm + ':distances', what + ' changed the '
                             'distance matrix it was given')
                if g['seen'] != g['exp']:
                    self.bad(cat, nm + ':missing', '%s: missing %s' % (
                        what, sorted(g['exp'] - g['seen'])[:5]))
                return
            t = self.call(cat, nm, lambda: tuple(
                self.idx[id(e)] for e in p))
            if t in g['seen']:
                self.bad(cat, nm + ':duplicate', '%s yields %s twice' % (
                    what, t))
            if t not in g['exp']:
                self.bad(cat, nm + ':wrong', '%s yields %s' % (what, t))
            g['seen'].add(t)
            if isinstance(p, list) and len(g['seen']) % 3 == 0:
                del p[:]     # a client may consume the list it was given
            k -= 1

    def q_paths(self, i, j, c, s):
        i, j = self.far(i, j, c)
        g = self.start_paths(i, j, self.LENGTHS[c % len(self.LENGTHS)])
        if g:
            self.advance(g, -1)
            self.ctx.log('paths', i, j, g['length'], sorted(g['exp']))

    def op_gstart(self, a, b, c):
        if not self.m.n or len(self.gens) > 5:
            return
        i, j = self.far(self.pick(a), self.pick(b), c)
        g = self.start_paths(i, j, self.LENGTHS[c % len(self.LENGTHS)])
        if g:
            self.gens.append(g)
            if len(self.gens) > 1:
                self.ctx.probes['interleaved_generators'] += 1
        self.ctx.log('gstart', i, j)

    def op_gnext(self, g, k):
        if not self.gens:
            return
        g = self.gens[g % len(self.gens)]
        if not g['done']:
            n = k % 4 + 1
            self.advance(g, n)
            self.ctx.log('gnext', g['i'], g['j'], sorted(g['seen']))

    def op_gclose(self, g):
        if self.gens:
            g = self.gens.pop(g % len(self.gens))
            self.call(g.get('cat', 'paths'), 'Paths.close', g['it'].close)
            self.ctx.probes['abandoned_generator'] += not g['done']

    def finish_gens(self):
        for g in self.gens:
            if not g['done']:
                self.advance(g, -1)

    # C19 ---------------------------------------------------------------
    def greedy_antichain(self, s, c, maximal):
        """a seeded antichain that holds as much of s as possible"""
        m = self.m
        L = sorted(bits(s), key=lambda k: mix(c, k))
        if maximal:
            L += sorted(bits(((1 << m.n) - 1) & ~s), key=lambda k: mix(c, k))
        t, blocked = [], 0
        for k in L:
            if not blocked >> k & 1:
                t.append(k)
                blocked |= m.cone(k) | 1 << k
        return t

    def antichain_graph(self, L):
        """neighbours: pairs with a common event in the past layer -1 or the
        future layer 1 of the antichain; hop distances (-1: unconnected)"""
        m = self.m
        s = 0
        for k in L:
            s |= 1 << k
        sl = self._layers(s, -1, 1, self.v_layer)
        n = len(L)
        adj = [[q for q in range(n) if q != p and (
            (m.past[L[p]] & m.past[L[q]] | m.fut[L[p]] & m.fut[L[q]]) & sl)]
            for p in range(n)]
        D = [[-1] * n for _ in range(n)]
        for p in range(n):
            D[p][p] = 0
            front = [p]
            while front:
                nxt = []
                for u in front:
                    for v in adj[u]:
                        if D[p][v] < 0:
                            D[p][v] = D[p][u] + 1
                            nxt.append(v)
                front = nxt
        return sl, adj, D

    def q_dmatrix(self, i, j, c, s):
        x = self.cpick(c)
        if x is None:
            return
        m, A = self.m, 'anti'
        L = self.greedy_antichain(s, c, c % 3)
        sl, adj, D = self.antichain_graph(L)
        sub = 0
        for k in L:
            sub |= 1 << k
        kind = c // 3 % 4
        ev = [self.ev[k] for k in L]
        if c // 12 % 2:
            ev = tuple(ev)
        n = len(L)
        if n > 2 and max(max(r) for r in D) > 1:
            self.ctx.probes['antichain_hops'] += 1
        if n and min(min(r) for r in D) < 0:
            self.ctx.probes['antichain_unconnected'] += 1
        kw = {}
        if kind == 0:
            exp = D
        elif kind == 1:
            kw = {'counting': 'ziczac', 'recursive': False}
            exp = [[0 if p == q else 1 if q in adj[p] else -1
                    for q in range(n)] for p in range(n)]
        elif kind == 2:
            kw = {'counting': 'intersection', 'recursive': False}
            exp = [[0 if p == q else
                    self.small(L[p], L[q], sl, sub) - 1
                    for q in range(n)] for p in range(n)]
        else:
            kw = {'counting': 'ziczac', 'recursive': True}
            exp = D
        got = self.call(A, 'DistanceMatrix', lambda: [
            [int(v) for v in r] for r in x[0].DistanceMatrix(ev, **kw)])
        self.want(A, got, exp, 'DistanceMatrix',
                  'DistanceMatrix(%s, %s)' % (L, kw))
        self.ctx.log('dmatrix', L, kind, exp)

    def small(self, i, j, searching, inter=None):
        """SmallestIntervalCard of spacelike events (or of related ones if
        both are in searching)"""
        m = self.m

        def card(mask):
            return bin(mask if inter is None else mask & inter).count('1')
        if m.lt(j, i):
            i, j = j, i
        if m.le(i, j):
            return card(m.interval(i, j))
        P = bits(m.past[i] & m.past[j] & searching)
        F = bits(m.fut[i] & m.fut[j] & searching)
        if P and F:
            return min(card(m.interval(p, f)) for p in P for f in F)
        if F:
            return min(card(m.past[f]) for f in F)
        if P:
            return min(card(m.fut[p]) for p in P)
        return 0

    def start_antipaths(self, c, s, i, j):
        x = self.cpick(c)
        if x is None:
            return None
        L = self.greedy_antichain(s, c, c % 4)
        if not L:
            return None
        sl, adj, D = self.antichain_graph(L)
        n = len(L)
        p, q = i % n, j % n
        if c // 4 % 3:      # prefer distant pairs
            p, q = max(((a, b) for a in range(n) for b in range(n)),
                       key=lambda t: (D[t[0]][t[1]], mix(c, *t)))
        a, b = L[p], L[q]
        exp = set()
        if c // 12 % 12 == 0 and n < self.m.n:    # an end that is not there
            out = [k for k in range(self.m.n) if k not in L]
            b = out[j % len(out)]
            if c // 144 % 2:     # also if both ends are the same
                a = b
        elif p == q:
            exp = {(a,)}
        elif D[p][q] > 0:
            front = [(p,)]
            for _ in range(D[p][q]):
                front = [t + (v,) for t in front for v in adj[t[-1]]
                         if D[v][q] == D[p][q] - len(t)]
                if len(front) > 600:
                    self.ctx.stats['too_many_paths'] += 1
                    return None
            exp = {tuple(L[v] for v in t) for t in front}
        along = [self.ev[k] for k in L]
        f, keep = c // 144 % 4, None
        along = (along, iter(along), tuple(along), set(along))[f]
        if len(exp) > 1:
            self.ctx.probes['several_antipaths'] += 1
        A = 'anti'
        if f == 0 and c % 5 == 0:
            given = self.call(A, 'DistanceMatrix', x[0].DistanceMatrix, along)
            keep = given, given.copy()
            it = self.call(A, 'Antipaths', lambda: x[0].Antipaths(
                self.ev[a], self.ev[b], along=along, distances=given))
        else:
            it = self.call(A, 'Antipaths', x[0].Antipaths, self.ev[a],
                           self.ev[b], along)
        return dict(it=it, exp=exp, seen=set(), i=a, j=b, length=L,
                    done=False, name='Antipaths', cat=A, given=keep)

    def q_antipaths(self, i, j, c, s):
        g = self.start_antipaths(c, s, i, j)
        if g:
            self.advance(g, -1)
            self.ctx.log('antipaths', g['i'], g['j'], sorted(g['exp']))

    def op_apstart(self, a, b, c, L):
        if not self.m.n or len(self.gens) > 5:
            return
        g = self.start_antipaths(c, self.picks(L), a, b)
        if g:
            self.gens.append(g)
            if len(self.gens) > 1:
                self.ctx.probes['interleaved_generators'] += 1
            self.ctx.log('apstart', g['i'], g['j'])

    def q_rank(self, i, j, c, s):
        if c % 2:
            i, j = self.far(i, j, c)
        exp = self.m.rank(i, j)
        got = self.call('paths', 'Rank', self.ev[i].Rank, self.ev[j])
        self.want('paths', got, exp, 'Rank', 'Rank(%d, %d)' % (i, j))
        self.ctx.log('rank', i, j, exp)

    def _numbers(self, s, value):
        """dict event -> layer/rank number relative to the event set s"""
        m = self.m
        past, fut = {}, {}
        for a in bits(m.union(s, m.past) | s):
            B = bits(m.fut[a] & s)
            past[a] = -max([value(a, b) for b in B], default=0)
        for b in bits(m.union(s, m.fut) | s):
            A = bits(m.past[b] & s)
            fut[b] = max([value(a, b) for a in A], default=0)
        return past, fut

    def _layers(self, s, first, last, value):
        if last is None:
            last = first
        if not s or first > last:
            return 0
        past, fut = self._numbers(s, value)
        r = 0
        if first <= 0:
            for a, n in past.items():
                if first <= n <= min(0, last):
                    r |= 1 << a
        if last > 0:
            for b, n in fut.items():
                if max(first, 0) <= n <= last:
                    r |= 1 << b
        return r

    def v_layer(self, a, b):
        return bin(self.m.interval(a, b)).count('1') - 1

    def v_rank(self, a, b):
        return int(self.m.rank(a, b))

    def q_layers(self, i, j, c, s):
        C = self.lib.C
        S = set(self.evs(s))
        rank = c % 2
        first = c // 2 % 7 - 3
        last = None if c // 14 % 3 == 0 else first + c // 42 % 4
        value = self.v_rank if rank else self.v_layer
        exp = self._layers(s, first, last, value)
        fn = C.Ranks if rank else C.Layers
        nm = 'Ranks' if rank else 'Layers'
        got = self.ids('paths', nm, fn, S, first, last) \
            if last is not None else self.ids('paths', nm, fn, S, first)
        self.want('paths', got, exp, nm, '%s(%s, %s, %s)' % (
            nm, bits(s), first, last))
        self.want('paths', self.mask(S, 'paths'), s, 'argument-changed')
        self.ctx.log('layers', s, first, last, exp)

    def q_numbers(self, i, j, c, s):
        C = self.lib.C
        L = bits(s)
        L.sort(key=lambda k: mix(c, k))
        rank, rev = c % 2, bool(c // 2 % 2)
        value = self.v_rank if rank else self.v_layer
        past, fut = self._numbers(s, value)
        exp = [(past if rev else fut)[k] for k in L]
        nm = 'RankNumbers' if rank else 'LayerNumbers'
        fn = C.RankNumbers if rank else C.LayerNumbers
        got = self.call('paths', nm, lambda: list(
            fn([self.ev[k] for k in L], reverse=rev)))
        self.want('paths', got, exp, nm, '%s(%s, reverse=%s)' % (nm, L, rev))
        self.ctx.log('numbers', L, exp)

    def q_layered(self, i, j, c, s):
        m = self.m
        x = self.cpick(c)
        if x is None:
            return
        rev = bool(c // 2 % 2)
        if c // 4 % 2 and m.closed(x[1]):
            s, args = x[1], ()
        else:
            args = (set(self.evs(s)),)
        got = self.call('paths', 'layered', lambda: [
            self.mask(t, 'paths')
            for t in x[0].layered(*args, reverse=rev)])
        exp = []
        tab = m.fut if rev else m.past
        layer = 0
        for k in bits(s):
            if not tab[k] & s:
                layer |= 1 << k
        while layer:
            exp.append(layer)
            layer = self._layers(layer, -1 if rev else 1, None,
                                 self.v_layer) & s
        self.want('paths', got, exp, 'layered', 'layered(%s, reverse=%s)' % (
            bits(s), rev))
        self.ctx.log('layered', exp)

    # C05 ---------------------------------------------------------------
    def operand(self, c, s):
        """(object, mask, is a causet)"""
        w = c // 16 % 5
        if w == 0 and self.causets:
            x = self.cpick(c // 80)
            return x[0], x[1], True
        if w == 1:
            return self.evs(s), s, False
        if w == 2:
            return tuple(self.evs(s)), s, False
        if w == 3:
            return frozenset(self.evs(s)), s, False
        return set(self.evs(s)), s, False

    def q_setop(self, i, j, c, s):
        x = self.cpick(c)
        if x is None:
            return
        T = 'sets'
        o, om, isc = self.operand(c, s)
        a = x[1]
        C = x[0]
        w = c % 12
        keep = list(o)
        if w == 0:
            nm, got, exp = '-', lambda: C - o, a & ~om
        elif w == 1:
            nm, got, exp = '|', lambda: C | o, a | om
        elif w == 2:
            nm, got, exp = '&', lambda: C & o, a & om
        elif w == 3:
            nm, got, exp = '^', lambda: C ^ o, a ^ om
        elif w == 4:
            nm, got, exp = 'r-', lambda: o - C, om & ~a
        elif w == 5:
            nm, got, exp = 'r|', lambda: o | C, a | om
        elif w == 6:
            nm, got, exp = 'r&', lambda: o & C, a & om
        elif w == 7:
            nm, got, exp = 'r^', lambda: o ^ C, a ^ om
        elif w == 8:
            nm, got, exp = 'difference', lambda: C.difference(o), a & ~om
        elif w == 9:
            nm, got, exp = 'union', lambda: C.union(o), a | om
        elif w == 10:
            nm, got, exp = 'intersection', lambda: C.intersection(o), a & om
        else:
            nm, got, exp = 'symmetric_difference', \
                lambda: C.symmetric_difference(o), a ^ om
        r = self.call(T, nm, got)
        rm = self.call(T, nm, lambda: self.mask(r, T))
        self.want(T, rm, exp, 'setop:' + nm, '%s of %s and %s' % (
            nm, bits(a), bits(om)))
        if not isinstance(r, (set, frozenset)):
            self.bad(T, 'setop:type', '%s returns %s' % (nm, type(r)))
        if isinstance(r, set) and c // 400 % 2 == 0:
            r.clear()           # must not alias any causet or operand
            self.ctx.probes['result_mutated'] += 1
        else:
            self.hold(r, exp)
        self.want(T, self.mask(list(o), T), om, 'operand-changed')
        self.want(T, len(list(o)), len(keep), 'operand-changed')
        self.check_members(T)
        self.ctx.log('setop', nm, exp)

    def q_member(self, i, j, c, s):
        x = self.cpick(c)
        if x is None:
            return
        T = 'sets'
        for k in {i, j}:
            self.want(T, bool(self.call(T, 'in', lambda: self.ev[k] in x[0])),
                      bool(x[1] >> k & 1), 'in')
        self.want(T, self.call(T, 'len', self.lib.C.len, x[0]),
                  bin(x[1]).count('1'), 'len')
        L = self.call(T, 'iter', lambda: [self.idx[id(e)] for e in x[0]])
        self.want(T, sorted(L), bits(x[1]), 'iter')
        self.ctx.log('member', x[1])

    def q_find(self, i, j, c, s):
        x = self.cpick(c)
        if x is None:
            return
        T = 'sets'
        labs = [self.labels[i], str(self.labels[j]), 'nope',
                self.labels[j], 10 ** 6]
        if isinstance(labs[1], str) and labs[1].isdigit() and \
                isinstance(self.labels[j], str):
            labs[1] = int(labs[1])
        lab = labs[c // 7 % 5]
        match = 0
        for k in bits(x[1]):
            if self.labels[k] == lab:
                match |= 1 << k
        try:
            e = x[0].find(lab)
            got = self.idx.get(id(e), -1)
        except ValueError:
            got = None
        except Injected:
            raise
        except Exception as ex:
            self.bad(T, 'raises:find', repr(ex))
        if (got is None) != (not match) or \
                (got is not None and not (got >= 0 and match >> got & 1)):
            self.bad(T, 'find', 'find(%r) gives %s, matching members %s' % (
                lab, got, bits(match)))
        many = labs[:c % 5 + 1]
        match = 0
        for k in bits(x[1]):
            if self.labels[k] in many:
                match |= 1 << k
        self.want(T, self.ids(T, 'findAll', x[0].findAll, *many), match,
                  'findAll')
        L = self.call(T, 'findAny', lambda: [
            self.idx[id(e)] for e in x[0].findAny(*many)])
        self.want(T, sorted(L), bits(match), 'findAny')
        self.ctx.log('find', str(lab), match)

    # ------------------------------------------------------------------ run
    def step(self, op):
        getattr(self, 'op_' + op[0])(*op[1:])


MUTATORS = ('new', 'perm', 'chain', 'anti', 'fence', 'simplex', 'matrix',
            'causet', 'merge', 'disjoin', 'add', 'discard', 'link', 'unlink',
            'clink', 'cunlink', 'copy')
ORDER_OPS = {'ctor', 'big', 'new', 'perm', 'chain', 'anti', 'fence', 'simplex', 'matrix',
             'merge', 'pmerge', 'disjoin', 'copy'}


def gen_ops(rng, weights, qkinds, nops, nmax, nclients=3):
    """weights: op -> weight; qkinds: query kind -> weight.  Several clients
    each keep a small window of favourite events and are interleaved."""
    names = list(weights)
    w = [weights[n] for n in names]
    qn = list(qkinds)
    qw = [qkinds[k] for k in qn]
    fav = [[rng.randrange(1000) for _ in range(4)] for _ in range(nclients)]

    def ev(c):
        return rng.choice(fav[c]) if rng.random() < 0.3 \
            else rng.randrange(1000)

    def sel(c, k):
        return [ev(c) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, k)))]
    ops = []
    for _ in range(nops):
        c = rng.randrange(nclients)
        n = rng.choices(names, w)[0]
        if n == 'new':
            op = [n, sel(c, 4), sel(c, 4) if rng.random() < .5 else [],
                  rng.randrange(16) | (16 * rng.randrange(1, 8, 2) if
                                       rng.random() < .15 else 0),
                  rng.randrange(6)]
        elif n == 'perm':
            k = rng.choice((0, 1, 2, 3, 4, 5, 6, 7))
            op = [n, [rng.randrange(100) for _ in range(k)],
                  rng.randrange(3)]
        elif n in ('chain', 'anti', 'simplex'):
            op = [n, rng.randrange(6), rng.randrange(2)]
        elif n == 'fence':
            op = [n, rng.randrange(4), rng.randrange(3), rng.randrange(2)]
        elif n == 'ctor':
            op = [n, rng.randrange(7), rng.randrange(1200),
                  [rng.randrange(100) for _ in range(rng.choice(
                      (0, 1, 2, 3, 4, 5, 6, 8, 8, 12, 30)))], rng.randrange(128),
                  0 if rng.random() < .8 else int(2 ** rng.uniform(0, 11))]
        elif n == 'matrix':
            op = [n, rng.randrange(7), rng.randrange(10 ** 6),
                  rng.randrange(2)]
        elif n == 'causet':
            op = [n, sel(c, 5), rng.randrange(2)]
        elif n == 'merge':
            op = [n, rng.randrange(8), rng.randrange(8), rng.randrange(6),
                  rng.randrange(64)]
        elif n == 'pmerge':
            op = [n, sel(c, 3), sel(c, 3), rng.randrange(192)]
        elif n == 'ecauset':
            op = [n, rng.randrange(3)]
        elif n == 'hmut':
            op = [n, rng.randrange(6), sel(c, 4), rng.randrange(3)]
        elif n in ('disjoin', 'link', 'unlink', 'copy'):
            op = [n, ev(c)]
        elif n in ('clink', 'cunlink', 'gclose'):
            op = [n, rng.randrange(8)]
        elif n in ('add', 'discard'):
            op = [n, rng.randrange(8), sel(c, 5), rng.randrange(16),
                  rng.randrange(3)]
        elif n == 'gstart':
            op = [n, ev(c), ev(c), rng.randrange(1000)]
        elif n == 'big':
            op = [n, rng.randrange(1000), rng.randrange(10 ** 6),
                  rng.randrange(4)]
        elif n == 'apstart':
            op = [n, ev(c), ev(c), rng.randrange(2400),
                  [rng.randrange(1000) for _ in range(rng.randrange(7))]]
        elif n == 'gnext':
            op = [n, rng.randrange(6), rng.randrange(4)]
        elif n == 'q':
            k = rng.choice((0, 1, 2, 3, 4, 6, 12))
            op = [n, rng.choices(qn, qw)[0], ev(c), ev(c),
                  rng.randrange(2400), [rng.randrange(1000)
                                        for _ in range(k)]]
        else:
            raise KeyError(n)
        ops.append(op)
    return ops


def huge(rng, weights, qkinds, nops=14):
    """A history that starts from one causet of 60 to 200 events."""
    ops = gen_ops(rng, {'big': 1}, qkinds, 1, 250)
    w = {k: v for k, v in weights.items() if k not in (
        'perm', 'matrix', 'simplex')}
    return {'ops': ops + gen_ops(rng, w, qkinds, rng.randrange(4, nops), 250),
            'nmax': 250}


def swarm(rng, weights, keep=0.75, must=('q', 'new')):
    """Swarm testing: every run drops some operation kinds."""
    w = {k: v * rng.choice((0.5, 1, 1, 2, 4)) for k, v in weights.items()
         if k in must or rng.random() < keep}
    return w


def run_history(ctx, case, own, after_query=(), final=()):
    M = Machine(ctx, own, case.get('nmax', 12))
    try:
        for t, op in enumerate(case['ops']):
            ctx.step = t
            ctx.stats['steps'] += 1
            ctx.stats['op:' + op[0]] += 1
            M.step(op)
            if op[0] in ORDER_OPS:
                M.check_order('order')
                M.check_copies()
                ctx.state(M.m.signature())
            elif op[0] in ('add', 'discard', 'causet', 'hmut', 'ecauset'):
                M.check_members('sets')
            if 'order' in after_query and op[0] not in ORDER_OPS:
                # queries and cache operations must not change the order
                M.check_order(after_query['order'])
        ctx.step = len(case['ops'])
        if 'gens' in final:
            M.finish_gens()
        M.check_order('order')
        M.check_copies()
        M.check_members('sets')
        if 'links' in final:
            M.check_links(case.get('final_seed', 1))
            M.check_order('links')
        if 'symmetry' in final:
            for i in range(M.m.n):
                for j in range(M.m.n):
                    M.q_cmp(i, j, 0, 0)
        ctx.log('end', M.m.signature(), [c[1] for c in M.causets])
    except Abort as a:
        ctx.stats['aborted_outside_domain'] += 1
        ctx.log('abort', str(a))
    return M


def inf(x):
    return x == math.inf
