"""The documented posets of the named constructors: lists of (label, past
mask), written down without any code of the library."""
import itertools

FORMATS = (None, '', 'e{:d}', '{0}', 'n{:03d}', '{:.2f}')


def name(fmt, u):
    if fmt is None:
        return u
    return None if fmt == '' else fmt.format(u)


def permutation(P, fmt=None):
    """event u (1-based) lies at position P^-1(u); earlier numbers at earlier
    positions are in the past"""
    pos = {v: i for i, v in enumerate(P)}
    n = len(P)
    return [(name(fmt, u), sum(1 << (w - 1) for w in range(1, u)
                               if pos[w] < pos[u])) for u in range(1, n + 1)]


def chain(n, fmt=None):
    return [(name(fmt, u + 1), (1 << u) - 1) for u in range(n)]


def antichain(n, fmt=None):
    return [(name(fmt, u + 1), 0) for u in range(n)]


def fence(length, height, closed):
    if length < 1 or height < 0:
        return []
    if length == 1:
        return chain(height + 1)
    out = [(i + 1, 0) for i in range(length)]
    for h in range(height):
        base = h * length
        for i in range(length):
            below = {base + i}
            if closed or i:
                below.add(base + (i - 1) % length)
            m = 0
            for b in below:
                m |= out[b][1] | 1 << b
            out.append((base + length + i + 1, m))
    return out


def simplex(d, central):
    faces = [f for k in range(1, d + 1) for f in itertools.combinations(
        range(1, d + 2), k)]
    if d == 0:
        faces = [(1,)]
    elif central:
        faces.append(tuple(range(1, d + 2)))
    return [('-'.join(map(str, f)),
             sum(1 << j for j, g in enumerate(faces)
                 if set(g) < set(f))) for f in faces]


def signature(past):
    """an invariant of the unlabelled poset (colour refinement)"""
    n = len(past)
    fut = [sum(1 << j for j in range(n) if past[j] >> i & 1)
           for i in range(n)]
    col = [(bin(past[i]).count('1'), bin(fut[i]).count('1'))
           for i in range(n)]
    for _ in range(3):
        col = [(col[i], tuple(sorted(col[j] for j in range(n)
                                     if past[i] >> j & 1)),
                tuple(sorted(col[j] for j in range(n) if fut[i] >> j & 1)))
               for i in range(n)]
        ranks = {c: r for r, c in enumerate(sorted(set(col)))}
        sig = sorted(col)
        col = [(ranks[c], 0) for c in col]
    return sorted(map(repr, sig)) if n else []
