"""Systematic exploration of a program's random choices.

`Scripted` is a numpy Generator whose every draw is answered by a `Source`.  The
library accepts it wherever it accepts a generator (np.random.default_rng returns
a Generator unaltered), so the code under test runs unmodified.

`explore(fn, ...)` enumerates the whole tree of answers: each scalar draw is a
branching point over a finite node set with probabilities (quadrature nodes of the
continuous law, or the exact outcomes of a discrete one); the program is re-run for
every path (stateless search), so no assumption is made on the order, batching or
kind of draws it makes.
"""
from itertools import permutations, product
from math import factorial, prod, erf, sqrt
import numpy as np


class Unscripted(BaseException):
    """The code draws something that has no scripted counterpart."""


class Truncated(BaseException):
    """The path needs more draws than the exploration's budget (a further rejection round)."""


class Source:
    """Interface: u() in [0,1), z() standard normal, pick(weights) -> index."""


class Path(Source):
    def __init__(self, U, Z, budget=None):
        self.U, self.Z = U, Z          # [(value, weight)]
        self.budget = budget
        self.prefix = []               # choices to take
        self.reset()

    def reset(self):
        self.i = 0
        self.taken = []                # (choice, n)
        self.weight = 1.0
        self.draws = 0

    def choose(self, n):
        c = self.prefix[self.i] if self.i < len(self.prefix) else 0
        self.i += 1
        self.taken.append((c, n))
        return c

    def _count(self):
        self.draws += 1
        if self.budget is not None and self.draws > self.budget:
            raise Truncated()

    def u(self):
        self._count()
        v, w = self.U[self.choose(len(self.U))]
        self.weight *= w
        return v

    def z(self):
        self._count()
        v, w = self.Z[self.choose(len(self.Z))]
        self.weight *= w
        return v

    def pick(self, weights):
        self._count()
        idx = [i for i, w in enumerate(weights) if w > 0]
        k = self.choose(len(idx))
        self.weight *= weights[idx[k]]
        return idx[k]

    def next(self):
        """Advance to the next path; False when the tree is exhausted."""
        t = list(self.taken)
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return False
        self.prefix = [c for c, _ in t[:-1]] + [t[-1][0] + 1]
        return True


class Cycle(Source):
    """Answers from fixed cyclic sequences (used for long vectorised calls)."""
    def __init__(self, us, zs, start=0):
        self.us, self.zs = us, zs
        self.i = self.j = start

    def u(self):
        self.i += 1
        return self.us[(self.i - 1) % len(self.us)]

    def z(self):
        self.j += 1
        return self.zs[(self.j - 1) % len(self.zs)]

    def pick(self, weights):
        idx = [i for i, w in enumerate(weights) if w > 0]
        self.i += 1
        return idx[self.i % len(idx)]


def _compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in _compositions(n - i, k - 1):
            yield (i,) + r


def multinomial_outcomes(n, p):
    out, w = [], []
    nz = [i for i, x in enumerate(p) if x > 0]
    for c in _compositions(n, len(nz)):
        out.append([0] * len(p))
        for i, k in zip(nz, c):
            out[-1][i] = k
        w.append(factorial(n) / prod(factorial(k) for k in c) * prod(p[i] ** k for i, k in zip(nz, c)))
    return out, w


class Scripted(np.random.Generator):
    def __init__(self, src):
        super().__init__(np.random.PCG64(12345))
        self.src = src
        self.calls = 0

    def _fill(self, f, size):
        self.calls += 1
        if size is None:
            return f()
        size = (int(size),) if np.isscalar(size) else tuple(int(s) for s in size)
        n = int(np.prod(size)) if size else 1
        return np.array([f() for _ in range(n)], float).reshape(size)

    # continuous
    def random(self, size=None, dtype=np.float64, out=None):
        r = self._fill(self.src.u, size if out is None else out.shape)
        if out is not None:
            out[...] = r
            return out
        return r

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast_shapes(np.shape(low), np.shape(high))
        return np.asarray(low) + (np.asarray(high) - np.asarray(low)) * self._fill(self.src.u, size) if size is not None or np.ndim(low) else float(low + (high - low) * self._fill(self.src.u, None))

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        r = self._fill(self.src.z, size if out is None else out.shape)
        if out is not None:
            out[...] = r
            return out
        return r

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast_shapes(np.shape(loc), np.shape(scale))
        r = self._fill(self.src.z, size)
        return loc + scale * r

    def multivariate_normal(self, mean, cov, size=None, check_valid="warn", tol=1e-8, *, method="svd"):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        sh = () if size is None else ((int(size),) if np.isscalar(size) else tuple(size))
        Zs = self._fill(self.src.z, sh + mean.shape)
        w, V = np.linalg.eigh(cov)
        return mean + Zs @ (V * np.sqrt(np.maximum(w, 0))).T

    def standard_exponential(self, size=None, dtype=np.float64, method="zig", out=None):
        return self._fill(lambda: -np.log1p(-self.src.u()), size)

    def exponential(self, scale=1.0, size=None):
        return scale * self._fill(lambda: -np.log1p(-self.src.u()), size)

    # discrete
    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        if np.ndim(low) or np.ndim(high):
            raise Unscripted("integers with array bounds")
        n = int(high) - int(low)
        r = self._fill(lambda: int(low) + self.src.pick([1.0 / n] * n), size)
        return r.astype(dtype) if size is not None else int(r)

    def multinomial(self, n, pvals, size=None):
        p = np.asarray(pvals, float)
        if p.ndim != 1 or np.ndim(n):
            raise Unscripted("array multinomial")
        if not np.all(np.isfinite(p)) or np.any(p < 0) or p[:-1].sum() > 1 + 1e-12:
            raise ValueError("pvals < 0, pvals > 1 or pvals contains NaNs")
        p = p.copy()
        p[-1] = max(1 - p[:-1].sum(), 0.0)  # like numpy, the last entry is implied
        p[-1] = 0.0 if p[-1] < 1e-12 else p[-1]
        out, w = multinomial_outcomes(int(n), p.tolist())
        one = lambda: out[self.src.pick(w)]
        self.calls += 1
        if size is None:
            return np.array(one())
        sh = (int(size),) if np.isscalar(size) else tuple(size)
        return np.array([one() for _ in range(int(np.prod(sh)))]).reshape(sh + p.shape)

    def _perm(self, n):
        """Uniform permutation as n-1 successive uniform picks."""
        rest, out = list(range(n)), []
        while len(rest) > 1:
            out.append(rest.pop(self.src.pick([1.0 / len(rest)] * len(rest))))
        return out + rest

    def shuffle(self, x, axis=0):
        self.calls += 1
        if isinstance(x, np.ndarray):
            x[...] = np.take(x, self._perm(x.shape[axis]), axis=axis)
        else:
            y = list(x)
            for i, j in enumerate(self._perm(len(y))):
                x[i] = y[j]

    def permutation(self, x, axis=0):
        self.calls += 1
        if np.ndim(x) == 0:
            return np.array(self._perm(int(x)))
        x = np.asarray(x)
        return np.take(x, self._perm(x.shape[axis]), axis=axis)

    def permuted(self, x, axis=None, out=None):
        if np.ndim(x) != 1:
            raise Unscripted("permuted")
        return self.permutation(x)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        m = a.shape[axis]
        p = [1.0 / m] * m if p is None else np.asarray(p, float).tolist()
        self.calls += 1
        n = 1 if size is None else int(np.prod(size))
        if replace or n == 1:
            idx = [self.src.pick(p) for _ in range(n)]
        else:
            idx, left = [], list(p)
            for _ in range(n):
                s = sum(left)
                i = self.src.pick([x / s for x in left])
                idx.append(i)
                left[i] = 0.0
        if size is None:
            return np.take(a, idx[0], axis=axis)
        r = np.take(a, idx, axis=axis)
        return r.reshape(tuple(np.atleast_1d(size)) + r.shape[1:]) if axis == 0 else r


def _unscripted(name):
    def f(self, *a, **k):
        raise Unscripted(name)
    return f


for _n in [n for n in dir(np.random.Generator) if not n.startswith("_")]:
    if _n not in Scripted.__dict__ and _n not in ("bit_generator",):
        setattr(Scripted, _n, _unscripted(_n))


def explore(fn, U, Z, budget=None, on_leaf=None, limit=None):
    """Run fn(rng) on every path. on_leaf(result, weight). Returns (paths, truncated, total weight of complete paths)."""
    P = Path(U, Z, budget)
    n = tr = 0
    W = 0.0
    while True:
        P.reset()
        try:
            r = fn(Scripted(P))
        except Truncated:
            tr += 1
        else:
            n += 1
            W += P.weight
            if on_leaf is not None:
                on_leaf(r, P.weight)
        if limit is not None and n + tr >= limit:
            raise RuntimeError("exploration limit")
        if not P.next():
            return n, tr, W


def min_draws(fn, cap=80, probes=150):
    """Least number of draws of a complete path, by deepening over the budget on a coarse tree."""
    U = [(0.5, 1 / 3), (0.1, 1 / 3), (0.8, 1 / 3)]
    Z = [(0.7, 0.5), (-0.6, 0.5)]
    for b in range(1, cap):
        P = Path(U, Z, b)
        for _ in range(probes):
            P.reset()
            try:
                fn(Scripted(P))
                return P.draws
            except Truncated:
                pass
            if not P.next():
                break
    return None


# -- node sets ------------------------------------------------------------------
def gauss01(k):
    x, w = np.polynomial.legendre.leggauss(k)
    return [(0.5 * (a + 1), 0.5 * b) for a, b in zip(x, w)]


def mid01(k):
    return [((i + 0.5) / k, 1.0 / k) for i in range(k)]


def _ncdf_inv(p):
    from scipy.special import ndtri
    return float(ndtri(p))


def hermite(k):
    """Gauss nodes of the standard normal (exact for polynomials up to degree 2k-1)."""
    x, w = np.polynomial.hermite_e.hermegauss(k)
    w = w / w.sum()
    return list(zip(x.tolist(), w.tolist()))


def midnormal(k):
    return [(_ncdf_inv((i + 0.5) / k), 1.0 / k) for i in range(k)]
