"""Independent causality of the spacetimes: returns for two coordinate tuples
+1 (x before y), -1 (y before x), 0 (unrelated) or None (within rounding of
the light cone, or coincident: not decided)."""
import math

TOL = 1e-9


def _sgn(t):
    return 1 if t > 0 else -1


def flat(x, y, periods=None):
    dt = y[0] - x[0]
    if len(x) == 1:
        return None if dt == 0 else _sgn(dt)
    r2 = 0.0
    for i in range(1, len(x)):
        d = abs(y[i] - x[i])
        if periods is not None and periods[i - 1] > 0:
            p = periods[i - 1]
            d %= p
            d = min(d, p - d)
        r2 += d * d
    q = dt * dt - r2
    if dt == 0 and r2 == 0:
        return None
    grid = all(v * 64 == int(v * 64) for v in (*x, *y)) and (
        periods is None or all(p * 64 == int(p * 64) for p in periods))
    if grid:          # all of this arithmetic is exact
        return _sgn(dt) if q >= 0 else 0
    if abs(q) <= TOL * (1 + dt * dt + r2):
        return None
    return _sgn(dt) if q > 0 else 0


def desitter(x, y, a):
    rx = sum(v * v for v in x[1:])
    ry = sum(v * v for v in y[1:])
    if abs(rx - a * a) < TOL * a * a or abs(ry - a * a) < TOL * a * a:
        return None
    if rx > a * a or ry > a * a:
        return 0
    dot = sum(v * w for v, w in zip(x[1:], y[1:]))
    ax, ay = math.sqrt(a * a - rx), math.sqrt(a * a - ry)
    dt = y[0] - x[0]
    # a^2 times the invariant of the hyperboloid, minus a^2
    q = dot + ax * ay * math.cosh(dt / a) - a * a
    scale = a * a * (math.cosh(x[0] / a) ** 2 + math.cosh(y[0] / a) ** 2) + 1
    if abs(q) <= TOL * scale:
        return None
    return _sgn(dt) if q > 0 else 0


def antidesitter(x, y, a):
    dt = y[0] - x[0]
    dot = sum(v * w for v, w in zip(x[1:], y[1:]))
    px = a * a + sum(v * v for v in x[1:])
    py = a * a + sum(v * v for v in y[1:])
    c = (a * a + dot) / math.sqrt(px * py)
    s = abs(dt) / a
    if abs(s - math.pi) < TOL:
        return None
    if s > math.pi:
        return _sgn(dt)
    q = c - math.cos(s)
    if abs(q) <= TOL * (1 + 1 / a / a):
        return None
    return _sgn(dt) if q > 0 else 0


def blackhole(x, y, rs, metric):
    if x[1] * y[1] < 0:
        return 0
    rx, ry = abs(x[1]), abs(y[1])
    for r in (rx, ry):
        if r < TOL or abs(r - rs) < TOL * rs:
            return None

    def null(t, r):
        ln = rs * math.log(abs(r / rs - 1))
        if metric == 'Schwarzschild':
            return t + r + ln, t - r - ln       # v, u
        return t + r, t - r - 2 * ln
    vx, ux = null(x[0], rx)
    vy, uy = null(y[0], ry)
    dv = vy - vx
    ix, iy = rx < rs, ry < rs
    if ix != iy:
        du = 1.0 if iy else -1.0       # the interior is later in U
        near = abs(dv) < TOL * (1 + abs(vx) + abs(vy))
    else:
        du = (ux - uy) if ix else (uy - ux)
        near = min(abs(dv), abs(du)) < TOL * (
            1 + abs(vx) + abs(vy) + abs(ux) + abs(uy))
    if near:
        return None
    if dv > 0 and du > 0:
        return 1
    if dv < 0 and du < 0:
        return -1
    return 0
