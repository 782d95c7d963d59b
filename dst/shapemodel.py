"""Independent geometry of the coordinate shapes."""
import math

f32 = None


def gen_shape(rng, dim=None, hollow=True):
    d = dim or rng.choice((1, 2, 2, 3, 3, 4, 5))
    name = rng.choice(('ball', 'bicone', 'diamond', 'cylinder', 'cylinder',
                       'cube', 'cuboid', 'bicone'))
    p = {}
    if rng.random() < .5:
        p['center'] = [rng.choice((0.0, 1.0, -2.5, 7.25, -40.0, 0.125))
                       for _ in range(d)]
    if name in ('ball', 'bicone', 'diamond', 'cylinder'):
        if rng.random() < .6:
            p['radius'] = rng.choice((0.5, 1.0, 2.0, 3.5, 0.01, 12.0))
        if hollow and rng.random() < .5 and not (name == 'cylinder'
                                                 and d == 1):
            p['hollow'] = rng.choice((0.1, 0.25, 0.5, 0.9, 0.99))
        if name == 'cylinder' and rng.random() < .6:
            p['duration'] = rng.choice((0.25, 1.0, 3.0, 10.0))
    elif name == 'cube':
        if rng.random() < .7:
            p['edge'] = rng.choice((0.5, 1.0, 2.0, 9.0))
    elif rng.random() < .8:
        p['edges'] = [rng.choice((0.25, 1.0, 2.0, 5.0)) for _ in range(d)]
    return [d, name, p]


class Geo:
    """name/parameters with the documented defaults filled in"""

    def __init__(self, spec):
        d, name, p = spec
        self.d = d
        self.name = 'bicone' if name == 'diamond' else name
        self.c = p.get('center', [0.0] * d)
        self.r = p.get('radius', 1.0)
        self.h = p.get('hollow', 0.0)
        self.dur = p.get('duration', 2.0 * self.r)
        if self.name == 'cube':
            self.edges = [p.get('edge', 1.0)] * d
        else:
            self.edges = p.get('edges', [1.0] * d)
        self.scale = max([abs(x) for x in self.c] + [
            self.r if self.name in ('ball', 'bicone', 'cylinder') else 0,
            self.dur / 2 if self.name == 'cylinder' else 0] + (
                self.edges if self.name in ('cube', 'cuboid') else []))

    def extents(self):
        if self.name in ('cube', 'cuboid'):
            return [e / 2 for e in self.edges]
        if self.name == 'cylinder':
            return [self.dur / 2] + [self.r] * (self.d - 1)
        return [self.r] * self.d

    def rel(self, x):
        return [a - b for a, b in zip(x, self.c)]

    def gauge(self, x):
        """length that has to lie in [h r, r] (ball, bicone, cylinder)"""
        y = self.rel(x)
        if self.name == 'ball':
            return math.sqrt(sum(v * v for v in y))
        if self.name == 'bicone':
            return abs(y[0]) + math.sqrt(sum(v * v for v in y[1:]))
        return math.sqrt(sum(v * v for v in y[1:]))

    def inside(self, x):
        """None if x lies in the shape up to single precision, else why not"""
        if len(x) != self.d:
            return 'has %d coordinates' % len(x)
        if not all(math.isfinite(v) for v in x):
            return 'is not finite'
        tol = 5e-6 * (self.scale + max(abs(v) for v in x))
        y = self.rel(x)
        if self.name in ('cube', 'cuboid'):
            for k, v in enumerate(y):
                if not abs(v) <= self.edges[k] / 2 + tol:
                    return 'component %d is outside' % k
            return None
        if self.name == 'cylinder':
            if not abs(y[0]) <= self.dur / 2 + tol:
                return 'time is outside'
            if self.d == 1:
                return None
        g = self.gauge(x)
        if not g <= self.r + tol:
            return 'is outside (%r > %r)' % (g, self.r)
        if not g >= self.h * self.r - tol:
            return 'is in the hollow part (%r < %r)' % (g, self.h * self.r)
        return None

    def volume(self):
        d = self.d

        def ball(n):
            return math.pi ** (n / 2) / math.gamma(n / 2 + 1)
        if self.name == 'ball':
            return ball(d) * self.r ** d * (1 - self.h ** d)
        if self.name == 'bicone':
            return 2 / d * ball(d - 1) * self.r ** d * (1 - self.h ** d)
        if self.name == 'cylinder':
            return self.dur * ball(d - 1) * self.r ** (d - 1) * (
                1 - self.h ** (d - 1) if self.h else 1)
        return math.prod(self.edges)


def make(lib, spec):
    d, name, p = spec
    return lib.Shape(d, name, **p)
