"""Reference model: a finite strict partial order on 0..n-1 as bit masks."""


def bits(m):
    out = []
    while m:
        b = m & -m
        out.append(b.bit_length() - 1)
        m ^= b
    return out


class Poset:
    def __init__(self):
        self.past = []
        self.fut = []

    @property
    def n(self):
        return len(self.past)

    def clone(self):
        q = Poset()
        q.past, q.fut = list(self.past), list(self.fut)
        return q

    def new(self, past=0, fut=0):
        """New event; the direct past/future masks are closed here."""
        p, f = past, fut
        for i in bits(past):
            p |= self.past[i]
        for i in bits(fut):
            f |= self.fut[i]
        k = self.n
        self.past.append(p)
        self.fut.append(f)
        for i in bits(p):
            self.fut[i] |= 1 << k
        for i in bits(f):
            self.past[i] |= 1 << k
        return k

    def disjoin(self, k):
        m = ~(1 << k)
        for i in bits(self.past[k] | self.fut[k]):
            self.past[i] &= m
            self.fut[i] &= m
        self.past[k] = self.fut[k] = 0

    def relate_all(self, a, b):
        for i in bits(a):
            self.fut[i] |= b
        for j in bits(b):
            self.past[j] |= a

    def lt(self, i, j):
        return bool(self.fut[i] >> j & 1)

    def le(self, i, j):
        return i == j or self.lt(i, j)

    def cone(self, i):
        return self.past[i] | self.fut[i]

    def islink(self, i, j):
        return self.lt(i, j) and not (self.fut[i] & self.past[j])

    def lpast(self, j):
        r = 0
        for i in bits(self.past[j]):
            if not (self.fut[i] & self.past[j]):
                r |= 1 << i
        return r

    def lfut(self, i):
        r = 0
        for j in bits(self.fut[i]):
            if not (self.fut[i] & self.past[j]):
                r |= 1 << j
        return r

    def closure(self, mask):
        while True:
            m = mask
            for i in bits(mask):
                m |= self.past[i] | self.fut[i]
            if m == mask:
                return m
            mask = m

    def closed(self, mask):
        for i in bits(mask):
            if (self.past[i] | self.fut[i]) & ~mask:
                return False
        return True

    def union(self, mask, table):
        r = 0
        for i in bits(mask):
            r |= table[i]
        return r

    def components(self, mask):
        out = []
        rem = mask
        while rem:
            c = rem & -rem
            while True:
                d = c
                for i in bits(c):
                    d |= self.cone(i) & mask
                if d == c:
                    break
                c = d
            out.append(c)
            rem &= ~c
        return out

    def chain(self, mask):
        return all((self.cone(i) & mask) | 1 << i == mask for i in bits(mask))

    def antichain(self, mask):
        return all(not (self.cone(i) & mask) for i in bits(mask))

    def interval(self, i, j):
        """closed interval mask, empty unless i <= j"""
        if i == j:
            return 1 << i
        if not self.lt(i, j):
            return 0
        return (self.fut[i] & self.past[j]) | 1 << i | 1 << j

    def paths(self, i, j, limit=20000):
        """all maximal chains from i to j as tuples"""
        if i == j:
            return [(i,)]
        if not self.lt(i, j):
            return []
        out = []
        stack = [(i,)]
        while stack:
            p = stack.pop()
            for k in bits(self.lfut(p[-1])):
                if k == j:
                    out.append(p + (k,))
                    if len(out) > limit:
                        return None
                elif self.past[j] >> k & 1:
                    stack.append(p + (k,))
        return out

    def rank(self, i, j):
        """length of the shortest link path, inf if not i <= j"""
        if i == j:
            return 0.0
        if not self.lt(i, j):
            return float('inf')
        d = 0
        front = 1 << i
        while front:
            d += 1
            nxt = 0
            for k in bits(front):
                nxt |= self.lfut(k)
            if nxt >> j & 1:
                return float(d)
            front = nxt & self.past[j]
        return float('inf')

    def signature(self):
        return tuple(self.past)


def transitive_closure(rows):
    """rows: list of past masks -> closed past masks"""
    rows = list(rows)
    n = len(rows)
    for k in range(n):
        rk = rows[k]
        for i in range(n):
            if rows[i] >> k & 1:
                rows[i] |= rk
    return rows


def isomorphic(past_a, past_b):
    """Are two posets (lists of past masks) isomorphic? (small n)"""
    n = len(past_a)
    if n != len(past_b):
        return False

    def fut(p):
        f = [0] * n
        for j in range(n):
            for i in bits(p[j]):
                f[i] |= 1 << j
        return f
    fa, fb = fut(past_a), fut(past_b)

    def colours(p, f):
        c = [(bin(p[i]).count('1'), bin(f[i]).count('1')) for i in range(n)]
        for _ in range(3):
            c = [hash((c[i], tuple(sorted(c[k] for k in bits(p[i]))),
                       tuple(sorted(c[k] for k in bits(f[i])))))
                 for i in range(n)]
        return c
    ca, cb = colours(past_a, fa), colours(past_b, fb)
    if sorted(ca) != sorted(cb):
        return False
    order = sorted(range(n), key=lambda i: (ca.count(ca[i]), i))
    image = {}
    used = [False] * n

    def go(k):
        if k == n:
            return True
        i = order[k]
        for j in range(n):
            if used[j] or ca[i] != cb[j]:
                continue
            ok = True
            for i2, j2 in image.items():
                if (past_a[i] >> i2 & 1) != (past_b[j] >> j2 & 1) or \
                        (past_a[i2] >> i & 1) != (past_b[j2] >> j & 1):
                    ok = False
                    break
            if ok:
                used[j] = True
                image[i] = j
                if go(k + 1):
                    return True
                used[j] = False
                del image[i]
        return False
    return go(0)
