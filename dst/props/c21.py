import collections

from .. import seams
from ..seams import Injected, mix
from .common import HIST_ASSUME
ID = 'C21'
COUNT = {'quick': 250000, 'thorough': 1000000}
CAP = {'quick': 40, 'thorough': 900}
MIN_RUNS = 500
RULE = ('One run = one seeded history of up to twelve events that are '
        'created with labels, pasts, coordinates and positions, embedded, '
        'disembedded, moved, relabelled, copied, disjoined and drawn as Hasse '
        'diagrams, where the iterables that are passed fail at a seeded item, '
        'drawing calls fail and single bytecode instructions are '
        'interrupted; callers change the lists they passed afterwards. After '
        'every step all attributes and texts of all events are compared with '
        'a record per event. Non-trivial: at least four steps and one '
        'embedding or position; distinct by event-log digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = 'distinct (label kind, past, coordinates, position, op) seen'
REAL = ['causetevent.py', 'causetplotting.py plotDiagram']
STUB = ['iterables passed by callers (fail at a seeded item)',
        'drawing axes (recorder that fails at the k-th call)',
        'sys.settrace (an exception at a seeded bytecode instruction)']
ASSUMPTIONS = HIST_ASSUME[:1] + [
    'Labels are None, non-empty strings and positive integers.',
    'Callers do not change the lists that Coordinates and Position return.']
PROBES = ('iterable_failed', 'interrupted', 'embed_rejected', 'reembedded',
          'disembed_rejected', 'bad_position', 'creation_failed', 'repr_past',
          'repr_coords', 'caller_changed', 'diagram', 'draw_failed', 'copied',
          'copy_kept',
          'unembedded_read', 'subclass')

ODD = (' a', 'b ', '  ', '\tx\n', '7', '#3', 'None', 'False', 'a"b', '\\', 'É',
       'label=', 'A', 'X' * 70, 10 ** 12, 10 ** 30)


def gen(rng, i):
    def label():
        return rng.choice((None, None, 1, 2, 17, 'a', 'b', 'x y', "it's",
                           rng.randrange(1, 1000),
                           rng.choice(ODD)))

    def vals(n=None):
        n = rng.choice((2, 2, 2, 3, 4, 1, 0)) if n is None else n
        return [rng.choice((0.0, 1.0, -2.5, rng.uniform(-9, 9),
                            rng.randrange(-5, 5))) for _ in range(n)]

    def source(v):
        """how the values are passed: kind and failing item"""
        return [v, rng.choice(('list', 'list', 'tuple', 'gen', 'array',
                               'iter')),
                rng.randrange(len(v) + 1) if rng.random() < .15 else None]
    w = {'new': 6, 'embed': 6, 'disembed': 3, 'position': 5, 'relabel': 2,
         'copy': 3, 'disjoin': 1, 'mutate': 3, 'diagram': 2, 'link': 1}
    w = {k: v for k, v in w.items() if rng.random() < .85}
    w.setdefault('embed', 3)
    ops = [['new', label(), rng.getrandbits(12), None, None, 0, 0]
           for _ in range(rng.randrange(1, 4))]
    for _ in range(rng.randrange(3, 22)):
        k = rng.choices(list(w), list(w.values()))[0]
        j = rng.randrange(12)
        cut = int(2 ** rng.uniform(0, 7)) if rng.random() < .12 else 0
        if k == 'new':
            op = [k, label(), rng.getrandbits(12),
                  source(vals()) if rng.random() < .5 else None,
                  source(vals(2)) if rng.random() < .3 else None,
                  int(rng.random() < .2), 0]
        elif k == 'embed':
            op = [k, j, source(vals()), int(rng.random() < .5), cut]
        elif k == 'position':
            op = [k, j, source(vals(2 if rng.random() < .75 else None)), cut]
        elif k == 'relabel':
            op = [k, j, label()]
        elif k == 'mutate':
            op = [k, j, rng.uniform(-9, 9)]
        elif k == 'diagram':
            n = rng.randrange(1, 6)
            p = list(range(1, n + 1))
            rng.shuffle(p)
            op = [k, rng.getrandbits(12), p if rng.random() < .7 else [v for v in p if v < n],
                  rng.randrange(1, 8) if rng.random() < .3 else 0,
                  rng.randrange(2)]
        else:
            op = [k, j, cut]
        ops.append(op)
    return {'ops': ops}


class Src:
    """an iterable that fails at item `at`"""

    def __init__(self, v, at):
        self.v, self.at = v, at

    def __iter__(self):
        for i, x in enumerate(self.v):
            if i == self.at:
                raise Injected('injected failure of an iterable')
            yield x
        if self.at == len(self.v):
            raise Injected('injected failure of an iterable')


class Record:
    def __init__(self, cls, label, past):
        self.cls, self.label, self.past = cls, label, past
        self.fut = set()
        self.coords = self.pos = None


def run(ctx, case):
    from .c14 import StubAxes, Unknown
    lib = ctx.lib
    E, np = lib.E, lib.np
    if not hasattr(lib, 'SubEvent'):
        class SubEvent(E):
            pass
        lib.SubEvent = SubEvent
    ev, rec = [], []
    passed = []              # lists that callers passed and still hold
    ctx.changes = 0
    copies = []              # copies of events, and what they showed

    def make(src):
        v, kind, at = src
        if at is not None:
            return Src(v, at)
        if kind == 'tuple':
            return tuple(v)
        if kind == 'gen':
            return (x for x in v)
        if kind == 'iter':
            return iter(v)
        if kind == 'array':
            a = np.array(v, dtype=float)
            passed.append(a)
            return a
        a = list(v)
        passed.append(a)
        return a

    def text(r):
        if r.label is None:
            return '#Event'
        return '#%d' % r.label if isinstance(r.label, int) else \
            "#'%s'" % r.label

    def links(k):
        return [p for p in rec[k].past
                if not any(p in rec[q].past for q in rec[k].past)]

    def read(k, which, cut=0):
        e, r = ev[k], rec[k]
        if which == 0:
            ctx.eq(e.Label, r.label, 'Label')
            ctx.eq(e.isEmbedded, r.coords is not None, 'isEmbedded')
            ctx.eq(e.CoordinatesDim, len(r.coords or ()), 'CoordinatesDim')
            try:
                c = e.Coordinates
            except AttributeError:
                ctx.probes['unembedded_read'] += 1
                ctx.check(r.coords is None, 'Coordinates:missing',
                          lambda: 'event %d has no coordinates, expected %s' %
                          (k, r.coords))
            else:
                ctx.check(r.coords is not None, 'Coordinates:present',
                          lambda: 'event %d has coordinates %s, expected '
                          'none' % (k, c))
                ctx.eq(list(c), r.coords, 'Coordinates', 'event %d' % k)
            ctx.eq(list(e.Position), r.pos or [0.0, 0.0], 'Position',
                   'event %d' % k)
            return
        ctx.eq(str(e), text(r), 'str', 'event %d' % k)
        got = repr(e)
        name = type(e).__name__
        lk = links(k)
        ctx.probes['repr_past'] += bool(lk)
        ctx.probes['repr_coords'] += r.coords is not None
        tail = []
        if r.label is not None:
            tail.append('label=' + text(r)[1:])
        ok = got.startswith(name + '(') and got.endswith(')')
        s = got[len(name) + 1:-1]
        if ok and lk:
            a, _, s = s.partition('}')
            ok = a.startswith('past={') and collections.Counter(
                a[6:].split(', ')) == collections.Counter(
                    text(rec[p]) for p in lk)
            if tail or r.coords is not None:
                ok = ok and s.startswith(', ')
                s = s[2:]
        if ok and r.coords is not None:
            a, sep, c = s.partition('coordinates=')
            ok = bool(sep)
            try:
                c = [float(x) for x in c.strip('[]').split(',') if x.strip()]
            except ValueError:
                ok = False
            ok = ok and c == r.coords and a == ', '.join(tail + [''])
        elif ok:
            ok = s == ', '.join(tail)
        ctx.check(ok, 'repr', lambda: 'event %d with past links %s, label %r '
                  'and coordinates %s prints %s' % (
                      k, [text(rec[p]) for p in lk], r.label, r.coords, got))

    for i, op in enumerate(case['ops']):
        ctx.step = i
        ctx.stats['steps'] += 1
        k = op[0]
        ctx.stats['op:' + k] += 1
        fault = None
        if k != 'new' and not ev:
            continue
        j = op[1] % len(ev) if k not in ('new', 'mutate', 'diagram') else -1
        tr = None
        cut = op[-1] if k in ('embed', 'disembed', 'position', 'copy') else 0
        if cut:
            tr = seams.LineTracer(cut, opcodes=True)
            tr.__enter__()
        exc = got = None
        try:
            if k == 'new':
                kw = {}
                _, label, past, cs, ps, sub, _ = op
                if len(ev) >= 12:
                    continue
                if label is not None:
                    kw['label'] = label
                P = {q for q in range(len(ev)) if past >> q & 1}
                if P:
                    kw['past'] = {ev[q] for q in P}
                if cs:
                    kw['coordinates'] = make(cs)
                if ps:
                    kw['position'] = make(ps)
                got = (lib.SubEvent if sub else E)(**kw)
            elif k == 'embed':
                c = make(op[2])
                if op[3]:
                    ev[j].embed(c, reembed=True)
                else:
                    ev[j].embed(c)
            elif k == 'disembed':
                ev[j].disembed()
            elif k == 'position':
                ev[j].Position = make(op[2])
            elif k == 'relabel':
                ev[j].Label = op[2]
            elif k == 'copy':
                got = ev[j].copy()
            elif k == 'disjoin':
                ev[j].disjoin()
            elif k == 'link':
                ev[j].link()
            elif k == 'mutate':
                if passed:
                    a = passed[op[1] % len(passed)]
                    if len(a):
                        a[op[1] % len(a)] = op[2]
                        ctx.probes['caller_changed'] += 1
            elif k == 'diagram':
                L = [q for q in range(len(ev)) if op[1] >> q & 1]
                ax = StubAxes(ctx, False)
                ax.fail_at = op[3]
                kw = {'events': True, 'links': bool(op[4])}
                lib.plotting.plotDiagram([ev[q] for q in L], list(op[2]),
                                         ax, **kw)
        except Injected as e:
            exc, fault = e, 'failed'
        except seams.InjectedInterrupt as e:
            exc, fault = e, 'interrupt'
            ctx.faults['interrupt'] += 1
            ctx.probes['interrupted'] += 1
        except Unknown:
            ctx.stats['undecided_plots'] += 1
            exc, fault = True, 'unknown'
        except Exception as e:
            exc = e
        finally:
            if tr:
                tr.__exit__()
        if tr and tr.fired and exc is not None and fault is None:
            fault = 'interrupt'       # turned into another exception
        src = op[2] if k in ('embed', 'position') else None

        def unexpected():
            from ..engine import where
            ctx.fail('raises:%s:%s' % (k, type(exc).__name__),
                     '%s raised %r [%s]' % (op, exc, where(exc)))
        if k == 'new':
            bad = any(s and s[2] is not None for s in op[3:5])
            if exc is not None:
                if not bad or fault != 'failed':
                    unexpected()
                ctx.faults['iterable_failed'] += 1
                ctx.probes['creation_failed'] += 1
            else:
                ctx.check(not bad, 'new:swallowed', 'the failure of an '
                          'iterable was swallowed')
                full = set(P)
                for q in P:
                    full |= rec[q].past
                r = Record(type(got).__name__, op[1], full)
                ctx.probes['subclass'] += op[5]
                for q in full:
                    rec[q].fut.add(len(ev))
                for s, name in ((op[3], 'coords'), (op[4], 'pos')):
                    if s:
                        setattr(r, name, list(map(float, s[0])))
                        ctx.changes += 1
                ev.append(got)
                rec.append(r)
        elif k == 'embed':
            r = rec[j]
            rejected = r.coords is not None and not op[3]
            if fault == 'interrupt':
                r.coords = settle(ctx, ev[j], r.coords, src[0])
            elif rejected:
                if not isinstance(exc, AttributeError):
                    ctx.fail('embed:accepted', '%s on an embedded event: %r' %
                             (op, exc))
                ctx.probes['embed_rejected'] += 1
            elif src[2] is not None:
                ctx.check(fault == 'failed', 'embed:swallowed', lambda: (
                    'the failure of an iterable became %r' % exc))
                ctx.faults['iterable_failed'] += 1
                ctx.probes['iterable_failed'] += 1
            elif exc is not None:
                unexpected()
            else:
                ctx.probes['reembedded'] += r.coords is not None
                r.coords = list(map(float, src[0]))
                ctx.changes += 1
        elif k == 'disembed':
            r = rec[j]
            if fault == 'interrupt':
                r.coords = settle(ctx, ev[j], r.coords, None)
            elif r.coords is None:
                if not isinstance(exc, AttributeError):
                    ctx.fail('disembed:accepted', 'disembed of an event '
                             'without coordinates: %r' % exc)
                ctx.probes['disembed_rejected'] += 1
            elif exc is not None:
                unexpected()
            else:
                r.coords = None
        elif k == 'position':
            r = rec[j]
            if fault == 'interrupt':
                now = list(ev[j].Position)
                new = list(map(float, src[0]))
                ctx.check(now == (r.pos or [0.0, 0.0]) or now == new,
                          'Position:torn', lambda: 'Position is %s' % now)
                r.pos = now
            elif src[2] is not None:
                ctx.check(fault == 'failed', 'Position:swallowed', lambda: (
                    'the failure of an iterable became %r' % exc))
                ctx.faults['iterable_failed'] += 1
                ctx.probes['iterable_failed'] += 1
            elif len(src[0]) != 2:
                if not isinstance(exc, ValueError):
                    ctx.fail('Position:accepted', '%s: %r' % (op, exc))
                ctx.probes['bad_position'] += 1
            elif exc is not None:
                unexpected()
            else:
                r.pos = list(map(float, src[0]))
                ctx.changes += 1
        elif k == 'copy':
            if exc is not None and fault != 'interrupt':
                unexpected()
            if exc is None:
                r = rec[j]
                ctx.probes['copied'] += 1
                ctx.eq(got.Label, r.label, 'copy:Label')
                ctx.check(not got.isEmbedded, 'copy:embedded', 'a copy is '
                          'embedded')
                ctx.eq(list(got.Position), [0.0, 0.0], 'copy:Position')
                ctx.eq(got.Past, {ev[q] for q in r.past}, 'copy:Past')
                ctx.eq(got.Future, {ev[q] for q in r.fut}, 'copy:Future')
                if mix(i, case['seed']) % 2 and len(copies) < 6:
                    # what happens to the event leaves the copy alone
                    copies.append((got, set(got.Past), set(got.Future),
                                   r.label))
                else:
                    # whatever happens to the copy leaves the event alone
                    got.embed([9.0])
                    got.Label = 'copy'
                    got.Position = (7, 7)
                    got.disjoin()
        elif k == 'relabel':
            if exc is not None:
                unexpected()
            rec[j].label = op[2]
        elif k == 'disjoin':
            if exc is not None:
                unexpected()
            for q in rec[j].past:
                rec[q].fut.discard(j)
            for q in rec[j].fut:
                rec[q].past.discard(j)
            rec[j].past, rec[j].fut = set(), set()
        elif k == 'diagram':
            if fault == 'failed':
                ctx.faults['drawing_failed'] += 1
                ctx.probes['draw_failed'] += 1
            elif fault != 'unknown' and exc is not None:
                unexpected()
            n = len(L)
            if len(op[2]) == n:
                # the unit diamond, in the order of the permutation
                for q, p in zip(L, range(1, n + 1)):
                    u, v = p, op[2].index(p) + 1
                    w = [(u + v - 1.0) / n - 1, (u - v) / float(n)]
                    now = list(ev[q].Position)
                    ctx.check(all(abs(a - b) < 1e-9 for a, b in zip(now, w)),
                              'diagram:position', lambda: (
                                  'event %d of %s has position %s, expected '
                                  '%s' % (q, op[2], now, w)))
                    rec[q].pos = now
                    ctx.changes += 1
            if exc is None:
                ctx.probes['diagram'] += 1
                ctx.check(ax.off, 'diagram:axes', 'the axes were left on')
                pts = sorted(a.pts[0] for a in ax.arts
                             if a.kind == 'line' and len(a.pts) == 1)
                w = sorted(tuple((rec[q].pos or [0.0, 0.0])[::-1])
                           for q in L)
                ctx.check(len(pts) == len(w) and all(
                    abs(x - y) < 1e-9 for a, b in zip(pts, w)
                    for x, y in zip(a, b)), 'diagram:points', lambda: (
                        'the diagram of %s has points %s, expected %s' % (
                            L, pts, w)))
        elif exc is not None:
            unexpected()
        for q in range(len(ev)):
            read(q, 0)
        for e, past, fut, label in copies:
            ctx.check(e.Past == past and e.Future == fut and
                      e.Label == label and not e.isEmbedded and
                      list(e.Position) == [0.0, 0.0], 'copy:changed',
                      'a copy changed after it was made')
            ctx.check(e.LinkPast <= past and e.LinkFuture <= fut,
                      'copy:links', 'links of a copy changed')
            ctx.probes['copy_kept'] += 1
        ctx.log(k, fault, [r.coords for r in rec])
        if ev:
            q = mix(case['seed'], i) % len(ev)
            read(q, 1)
            r = rec[q]
            ctx.state((type(r.label).__name__, len(r.past), r.coords and
                       len(r.coords), r.pos is None, k, fault))


def settle(ctx, e, old, new):
    """coordinates after an interrupted call: old or new, never torn"""
    now = list(e.Coordinates) if e.isEmbedded else None
    new = None if new is None else list(map(float, new))
    ctx.check(now == old or now == new, 'Coordinates:torn', lambda: (
        'coordinates are %s, neither %s nor %s' % (now, old, new)))
    return now


def nontrivial(ctx):
    return ctx.step >= 3 and ctx.changes > 0
