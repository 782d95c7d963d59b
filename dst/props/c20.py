import copy

from .. import seams
from ..seams import mix
from .common import HIST_ASSUME
ID = 'C20'
COUNT = {'quick': 250000, 'thorough': 1000000}
CAP = {'quick': 40, 'thorough': 900}
MIN_RUNS = 500
RULE = ('One run = one seeded history of scheme changes (known and unknown '
        'names, with and without new default colours, some interrupted at a '
        'seeded bytecode instruction) and lookups by several clients: single '
        'colours, dictionaries, lists, whole plot parameter sets, with or '
        'without an explicit scheme; clients change the dictionaries they '
        'passed and received. Every answer is compared with tables written '
        'down independently and the scheme in force. Non-trivial: at least '
        'one successful change and three lookups; distinct by event-log '
        'digest.')
SIMTIME = 'no clock in this component; simulated time counted as operations'
STATE_MEASURE = 'distinct (scheme, default colours, operation) reached'
REAL = ['colorschemes.py', 'causetplotting.py setDefaultColors and '
        'plot_parameters']
STUB = ['sys.settrace (an exception at a seeded bytecode instruction)']
ASSUMPTIONS = HIST_ASSUME[:1] + [
    'The colour tables of the three documented schemes are pinned.',
    'Callers do not change the dictionaries returned by pickColorScheme and '
    'getGlobalColorScheme.']
PROBES = ('changed', 'rejected', 'interrupted', 'explicit', 'caller_changed',
          'unknown_color', 'parameters', 'scheme_only_color')
T = {
    'matplotlib': dict(
        core='tab:blue', black='black', gray='tab:gray', grey='tab:gray',
        white='snow', purple='tab:purple', blue='tab:blue', cyan='tab:cyan',
        green='tab:green', lime='limegreen', yellow='gold',
        orange='tab:orange', red='tab:red', pink='tab:pink'),
    'UniYork': dict(
        core='#00627D', black='#25303B', gray='#E7E2D3', grey='#E7E2D3',
        white='#E3E5E5', purple='#9067A9', darkblue='#00627D',
        blue='#0095D6', cyan='#00ABAA', green='#65B32E', lime='#CDD500',
        yellow='#FBB800', orange='#F18625', red='#E62A32', pink='#E2388D'),
    'ImperialLondon': dict(
        core='#002147', black='#002147', gray='#EBEEEE', grey='#EBEEEE',
        coolgrey='#9D9D9D', white='#D4EFFC', violet='#960078',
        iris='#751E66', purple='#653098', plum='#321E6D', navy='#002147',
        darkblue='#003E74', blue='#006EAF', cyan='#009CBC', green='#02893B',
        kermitgreen='#66A40A', lime='#BBCE00', yellow='#FFDD00',
        tangerine='#EC7300', orange='#D24000', cherry='#E40043',
        red='#DD2501', brick='#A51900', pink='#C81E78',
        raspberry='#9F004E')}
DEFAULTS = {'links': 'cs:blue', 'linksedge': 'cs:blue',
            'linksface': 'cs:cyan', 'eventsedge': 'cs:black',
            'eventsface': 'cs:core', 'conesedge': 'cs:yellow',
            'conesface': 'cs:yellow'}
NAMES = sorted({k for t in T.values() for k in t})
SCHEMES = sorted(T)
PLAIN = ('red', 'tab:blue', '#12ab34', 'none', 'C0', '', 'ccs:blue', 'CS:red')


def gen(rng, i):
    def col():
        if rng.random() < .25:
            return rng.choice(PLAIN)
        if rng.random() < .06:
            return 'cs:nothing'
        return 'cs:' + rng.choice(NAMES if rng.random() < .3 else
                                  sorted(T['matplotlib']))

    def scheme():
        return rng.choice(SCHEMES + ['nobody', 'uniyork', ''][
            :0 if rng.random() < .75 else 3])

    def kv():
        return [[rng.choice(('color', 'facecolor', 'edgecolor', 'alpha',
                             'marker', 'linewidth', 'markerfacecolor',
                             'markeredgecolor')), rng.choice(
            (col(), col(), col(), .5, 3))] for _ in range(rng.randrange(5))]
    w = {'set': 4, 'defaults': 4, 'color': 5, 'dict': 5, 'list': 4,
         'params': 5, 'mutate': 3, 'get': 2, 'int': 3}
    w = {k: v for k, v in w.items() if rng.random() < .85}
    w.setdefault('color', 2)
    ops = []
    for _ in range(rng.randrange(3, 24)):
        k = rng.choices(list(w), list(w.values()))[0]
        op = [k]
        new = [[rng.choice(sorted(DEFAULTS)), col()]
               for _ in range(rng.choice((0, 0, 1, 2, 3)))]
        if k == 'set':
            op += [scheme()]
        elif k == 'defaults':
            op += [scheme() if rng.random() < .85 else None, new]
        elif k == 'color':
            op += [col(), None if rng.random() < .6 else scheme()]
        elif k == 'dict':
            op += [kv(), None if rng.random() < .6 else scheme()]
        elif k == 'list':
            op += [[col() for _ in range(rng.randrange(5))],
                   None if rng.random() < .6 else scheme()]
        elif k == 'params':
            op += [rng.randrange(4), [
                None if rng.random() < .5 else True if rng.random() < .3 else
                False if rng.random() < .3 else kv() for _ in range(5)],
                rng.choice((0, 0, 0, 4.0))]
        elif k == 'mutate':
            op += [rng.randrange(20), rng.randrange(3)]
        elif k == 'int':
            op += [rng.choice(('set', 'defaults')), scheme(), new,
                   int(2 ** rng.uniform(0, 6))]
        ops.append(op)
    return {'ops': ops}


def conv(c, scheme):
    """colour c in a scheme; None if it does not exist"""
    if isinstance(c, str) and c.startswith('cs:'):
        return T[scheme].get(c[3:])
    return c


def run(ctx, case):
    lib = ctx.lib
    C, P = lib.colors, lib.plotting
    ctx.ok = ctx.looks = 0
    C.setGlobalColorScheme('matplotlib')
    P.default_colors.clear()
    P.default_colors.update(DEFAULTS)
    try:
        body(ctx, case, C, P)
    finally:
        C.setGlobalColorScheme('matplotlib')
        P.default_colors.clear()
        P.default_colors.update(DEFAULTS)


def body(ctx, case, C, P):
    cur, dfl = 'matplotlib', dict(DEFAULTS)
    kept = []       # dictionaries and lists the clients hold

    def lookup(fn, arg, scheme, want, what):
        """want: expected answer, None if some colour does not exist"""
        ctx.looks += 1
        bad = scheme is not None and scheme not in T
        args = (arg,) if scheme is None else (arg, scheme)
        ctx.probes['explicit'] += scheme is not None
        try:
            got = fn(*args)
        except ValueError as e:
            ctx.check(bad, what + ':ValueError', lambda: '%s%r raised %r' % (
                what, args, e))
            ctx.probes['rejected'] += 1
            ctx.faults['unknown_scheme'] += 1
            return
        except KeyError as e:
            ctx.check(want is None, what + ':KeyError', lambda: (
                '%s%r raised %r' % (what, args, e)))
            ctx.probes['unknown_color'] += 1
            ctx.faults['unknown_color'] += 1
            return
        except Exception as e:
            ctx.fail(what + ':exception', '%s%r raised %r' % (what, args, e))
        ctx.check(not bad, what + ':accepted', lambda: (
            '%s accepted scheme %r' % (what, scheme)))
        ctx.check(want is not None, what + ':accepted', lambda: (
            '%s%r did not raise' % (what, args)))
        ctx.eq(got, want, what, lambda: '%s%r in %s' % (what, args,
                                                       scheme or cur))
        return got

    def expect(d, scheme):
        r = {}
        for k, v in d.items():
            r[k] = conv(v, scheme)
            if r[k] is None:
                return None
            if isinstance(v, str) and v.startswith('cs:') and \
                    scheme != 'matplotlib' and v[3:] not in T['matplotlib']:
                ctx.probes['scheme_only_color'] += 1
        return r

    def params(kind, raw, gap):
        ctx.looks += 1
        dims = [None, [1, 0], [0, 1], [1, 2, 0]][kind]
        kw = {} if dims is None else {'dims': dims}
        for k, v in zip(('pastcones', 'futurecones', 'links', 'events',
                         'labels'), raw):
            if v is not None:
                kw[k] = v if isinstance(v, bool) else dict(map(tuple, v))
        if gap:
            kw['linkgapsize'] = gap
        cone = {'edgecolor': 'none', 'color': dfl['conesface'],
                'alpha': .1} if kind == 3 else {
            'edgecolor': dfl['conesedge'], 'facecolor': 'none', 'alpha': .1}
        clear = [0.0] * 4
        base = {'pastcones': cone, 'futurecones': cone,
                'links': {'linewidth': 2.0, 'linestyle': '-',
                          'markevery': [], 'color': dfl['links'],
                          'marker': 'o', 'markersize': 5.0,
                          'markeredgecolor': clear if gap else
                          dfl['linksedge'],
                          'markerfacecolor': clear if gap else
                          dfl['linksface']},
                'events': {'linewidth': 2.0, 'linestyle': '', 'marker': 'o',
                           'markersize': 7.0,
                           'markeredgecolor': dfl['eventsedge'],
                           'markerfacecolor': dfl['eventsface']},
                'labels': {'verticalalignment': 'top',
                           'horizontalalignment': 'right'}}
        want, unknown = {}, False
        for k, b in base.items():
            v = kw.get(k, k not in ('pastcones', 'futurecones'))
            if v is False:
                continue
            b = dict(b)
            if v is not True:
                b.update(v)
            want[k] = expect(b, cur)
            unknown |= want[k] is None
        kw0 = copy.deepcopy(kw)
        try:
            p = P.plot_parameters(**kw)
        except KeyError as e:
            ctx.check(unknown, 'params:KeyError', repr(e))
            ctx.probes['unknown_color'] += 1
            return
        except Exception as e:
            ctx.fail('params:exception', 'plot_parameters(%r) raised %r' % (
                kw0, e))
        ctx.check(not unknown, 'params:accepted', lambda: (
            'plot_parameters(%r) did not raise' % (kw0,)))
        ctx.eq(kw, kw0, 'params:argument', 'the arguments of the caller')
        for k in base:
            g = p.get(k)
            w = want.get(k)
            if k == 'links' and gap and g and w:
                g = {x: y for x, y in g.items() if x != 'markersize'}
                w = {x: y for x, y in w.items() if x != 'markersize'}
            ctx.eq(g, w, 'params:' + k, lambda: (
                '%s of plot_parameters(%r) in %s' % (k, kw0, cur)))
        ctx.eq(p.get('dims'), dims or [1, 0], 'params:dims')
        ctx.eq(p.get('3d'), kind == 3, 'params:3d')
        ctx.eq(p.get('aspect'), ['equal', 'box'], 'params:aspect')
        ctx.probes['parameters'] += 1
        kept.append(p)

    for t, op in enumerate(case['ops']):
        ctx.step = t
        ctx.stats['steps'] += 1
        k = op[0]
        ctx.stats['op:' + k] += 1
        if k in ('set', 'defaults'):
            name = op[1]
            new = dict(map(tuple, op[2])) if k == 'defaults' else {}
            args = () if name is None else (name,)
            name = name if name is not None else 'matplotlib'
            fn = C.setGlobalColorScheme if k == 'set' else P.setDefaultColors
            try:
                fn(*args, **new)
            except ValueError as e:
                ctx.check(name not in T, k + ':ValueError', lambda: (
                    'scheme %r was refused: %r' % (name, e)))
                ctx.probes['rejected'] += 1
                ctx.faults['unknown_scheme'] += 1
            except Exception as e:
                ctx.fail(k + ':exception', 'scheme %r: %r' % (name, e))
            else:
                ctx.check(name in T, k + ':accepted', lambda: (
                    'unknown scheme %r was accepted' % name))
                cur = name
                dfl.update(new)
                ctx.ok += 1
                ctx.probes['changed'] += 1
        elif k == 'int':
            name, new = op[2], dict(map(tuple, op[3]))
            tr = seams.LineTracer(op[4], opcodes=True)
            try:
                with tr:
                    if op[1] == 'set':
                        new = {}
                        C.setGlobalColorScheme(name)
                    else:
                        P.setDefaultColors(name, **new)
            except seams.InjectedInterrupt:
                ctx.faults['interrupt'] += 1
                ctx.probes['interrupted'] += 1
                # either the old or the new one is in force, as a whole
                got = ctx.call('getGlobalColorScheme',
                               lambda: dict(C.getGlobalColorScheme()))
                both = [s for s in (cur, name) if T.get(s) == got]
                ctx.check(both, 'int:scheme', 'the scheme in force is '
                          'neither the old nor the new one')
                cur = both[0]
                d = dict(P.default_colors)
                two = [x for x in (dfl, dict(dfl, **new)) if x == d]
                ctx.check(two and (name in T or two[0] == dfl),
                          'int:defaults', lambda: (
                              'default colours are %s' % d))
                dfl = dict(two[0])
            except ValueError:
                ctx.check(name not in T or tr.fired, 'int:ValueError', name)
            else:
                if name in T:
                    cur = name
                    dfl.update(new)
        elif k == 'get':
            ctx.eq(ctx.call('getGlobalColorScheme', lambda: dict(
                C.getGlobalColorScheme())), T[cur], 'get',
                'the scheme in force (%s)' % cur)
            for s in SCHEMES:
                ctx.eq(ctx.call('pickColorScheme', lambda: dict(
                    C.pickColorScheme(s))), T[s], 'pick', s)
        elif k == 'color':
            s = op[2] if op[2] in T else cur
            lookup(C.getColor, op[1], op[2], conv(op[1], s), 'getColor')
        elif k == 'dict':
            d = dict(map(tuple, op[1]))
            s = op[2] if op[2] in T else cur
            r = lookup(C.convertColorsInDict, d, op[2],
                       expect(d, s), 'convertColorsInDict')
            if r is not None:
                kept.append(r)
        elif k == 'list':
            L = list(op[1])
            s = op[2] if op[2] in T else cur
            w = [conv(c, s) for c in L]
            r = lookup(C.convertColorsInList, L, op[2],
                       None if None in w else w, 'convertColorsInList')
            if r is not None:
                kept.append(r)
        elif k == 'params':
            params(op[1], op[2], op[3])
        elif k == 'mutate' and kept:
            scribble(kept[op[1] % len(kept)], op[2])
            ctx.probes['caller_changed'] += 1
        ctx.state((cur, sorted(dfl.items()), k))
        ctx.log(k, cur, sorted(dfl.items()))
        if mix(t, case['seed']) % 4 == 0:
            params(0, [None] * 5, 0)
    ctx.step = len(case['ops'])
    for s in SCHEMES:
        ctx.eq(ctx.call('pickColorScheme', lambda: dict(
            C.pickColorScheme(s))), T[s], 'pick', s)
    params(3, [True, None, None, None, None], 0)


def scribble(x, how):
    """a client changes what it holds, nested containers included"""
    if isinstance(x, list):
        x.append('junk')
        return
    for v in x.values():
        if isinstance(v, (dict, list)):
            scribble(v, how)
    if how == 0:
        x.clear()
    elif how == 1:
        x['color'] = 'cs:junk'
    else:
        for k in list(x):
            if isinstance(x[k], str):
                x[k] = 'junk'


def nontrivial(ctx):
    return ctx.ok >= 1 and ctx.looks >= 3
