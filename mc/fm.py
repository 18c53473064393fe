"""Exact feasibility / implication for small rational linear systems (Fourier-Motzkin)."""
from fractions import Fraction as F
from math import gcd


def _norm(a, b, s):
    """Normalise row a.x <= b (s: strict) to a primitive integer row."""
    den = 1
    for x in a + (b,):
        den = den * x.denominator // gcd(den, x.denominator)
    v = [int(x * den) for x in a + (b,)]
    g = 0
    for x in v:
        g = gcd(g, abs(x))
    if g > 1:
        v = [x // g for x in v]
    return tuple(v[:-1]), v[-1], s


def feasible(rows):
    """rows: iterable of (a tuple, b, strict). True iff some real x satisfies all."""
    rows = {_norm(tuple(map(F, a)), F(b), bool(s)) for a, b, s in rows}
    if not rows:
        return True
    n = len(next(iter(rows))[0])
    rows = set(rows)
    left = list(range(n))
    while True:
        # constant rows
        keep = set()
        for a, b, s in rows:
            if not any(a):
                if b < 0 or (s and b == 0):
                    return False
            else:
                keep.add((a, b, s))
        rows = _dominate(keep)
        if not rows or not left:
            return True
        # eliminate the cheapest variable
        best = None
        for j in left:
            p = sum(1 for a, _, _ in rows if a[j] > 0)
            q = sum(1 for a, _, _ in rows if a[j] < 0)
            cost = p * q - p - q
            if best is None or cost < best[0]:
                best = (cost, j)
        j = best[1]
        left.remove(j)
        pos = [r for r in rows if r[0][j] > 0]
        neg = [r for r in rows if r[0][j] < 0]
        new = {r for r in rows if r[0][j] == 0}
        for a, b, s in pos:
            for c, d, t in neg:
                k, l = -c[j], a[j]
                e = tuple(k * x + l * y for x, y in zip(a, c))
                new.add(_norm(tuple(map(F, e)), F(k * b + l * d), s or t))
        rows = new


def _dominate(rows):
    """Keep the tightest row per normal direction."""
    best = {}
    for a, b, s in rows:
        g = 0
        for x in a:
            g = gcd(g, abs(x))
        k = tuple(x // g for x in a)
        v = (F(b, g), not s)
        if k not in best or v < best[k][0]:
            best[k] = (v, (a, b, s))
    return {r for _, r in best.values()}


def implied(rows, a, b):
    """Do the (closed) rows imply a.x <= b?"""
    neg = tuple(-x for x in a)
    return not feasible([(r[0], r[1], False) for r in rows] + [(neg, -F(b), True)])


def subset(rows1, rows2):
    """{rows1} subset of {rows2}?"""
    return all(implied(rows1, a, b) for a, b in rows2)


def rat(x, tol=1e-7, den=2000):
    """Rational value of a float that is known to be a small rational; None if it is not."""
    f = F(float(x)).limit_denominator(den)
    return f if abs(float(f) - float(x)) <= tol * max(1.0, abs(float(x))) else None
