"""Optimality certificates that do not depend on the code under test.

Each returns a *sound* bound: an object worse than the bound by more than the
tolerance provably is not optimal.
"""
from itertools import combinations
import numpy as np
from scipy.optimize import nnls


# ---- minimum-volume enclosing ellipsoid -------------------------------------
def _dual_logdet(X, u):
    c = u @ X
    d = X.shape[1]
    Z = X - c
    M = d * (Z * u[:, None]).T @ Z
    s, ld = np.linalg.slogdet(M)
    return ld if s > 0 else -np.inf

# keyword arguments of a query for an ellipsoid (the documented default) or a sphere
SPH = {False: {}, True: {"sphere": True}}


def mvee_lower_logdet(X, E, c, near=2e-3):
    """Lower bound on log det of E over all ellipsoids {(x-c)' E^-1 (x-c) <= 1}
    containing the rows of X (weak duality with multipliers found at the contact
    points of the candidate ellipsoid, then refined)."""
    X = np.asarray(X, float)
    n, d = X.shape
    Z = X - c
    try:
        Ei = np.linalg.inv(E)
    except np.linalg.LinAlgError:
        return mult_logdet(X)
    q = np.einsum("ij,jk,ik->i", Z, Ei, Z)
    act = q > q.max() - max(near, 1e-6)
    iu = np.triu_indices(d)
    L = np.linalg.cholesky(Ei)
    Y = (Z @ L)[act]
    cols = [np.concatenate((np.outer(y, y)[iu], y, [1.0])) for y in Y]
    rhs = np.concatenate((np.eye(d)[iu], np.zeros(d), [float(d)]))
    lam, _ = nnls(np.array(cols).T, rhs)
    u = np.zeros(n)
    u[act] = lam
    if u.sum() > 0:
        u /= u.sum()
    else:
        u = np.full(n, 1.0 / n)
    return _dual_logdet(X, u)


def mult_logdet(X, iters=4000):
    """Lower bound from the multiplicative (Silvey-Titterington) algorithm."""
    X = np.asarray(X, float)
    n, d = X.shape
    Q = np.hstack((X, np.ones((n, 1))))
    u = np.full(n, 1.0 / n)
    best = -np.inf
    for k in range(iters):
        M = (Q * u[:, None]).T @ Q
        try:
            g = np.einsum("ij,jk,ik->i", Q, np.linalg.inv(M), Q)
        except np.linalg.LinAlgError:
            break
        if g.max() < (d + 1) * (1 + 1e-7):
            break
        u = u * g / (d + 1)
        u /= u.sum()
    return _dual_logdet(X, u)


def min_sphere(P):
    """Smallest enclosing sphere (radius, center) by exhaustive search over supports."""
    P = np.asarray(P, float)
    o, s = P[0], max(float(np.max(np.abs(P - P[0]))), 1e-300)
    r, c = _min_sphere(np.unique(np.round((P - o) / s, 13), axis=0))
    return s * r, o + s * c


def _min_sphere(P):
    n, d = P.shape
    best = (np.inf, None)
    for k in range(1, min(n, d + 1) + 1):
        for comb in combinations(range(n), k):
            S = P[list(comb)]
            p0 = S[0]
            V = S[1:] - p0
            if k > 1:
                G = V @ V.T
                if np.linalg.matrix_rank(G, tol=1e-9) < k - 1:
                    continue
                lam = np.linalg.solve(2 * G, np.diag(G))
                c = p0 + lam @ V
            else:
                c = p0
            r = np.linalg.norm(P - c, axis=1).max()
            if r < best[0]:
                best = (r, c)
    return best


def sphere_lower(X, c, near=1e-3):
    """Lower bound on the radius of any sphere containing the rows of X (dual at farthest points)."""
    X = np.asarray(X, float)
    r = np.linalg.norm(X - c, axis=1)
    act = r > r.max() * (1 - near)
    Y = X[act] - c
    s = max(r.max(), 1e-12)
    lam, _ = nnls(np.vstack((Y.T / s, np.ones(len(Y)))), np.concatenate((np.zeros(X.shape[1]), [1.0])))
    u = lam / lam.sum()
    m = u @ Y
    return float(np.sqrt(max(u @ np.sum(Y * Y, axis=1) - m @ m, 0)))


# ---- maximum-volume inscribed ellipsoid --------------------------------------
def mie_upper_logdet(A, b, B, c, near=2e-3, diam=None):
    """Upper bound on log det B' over all {B'u + c'} inside {Ax <= b} (rows of A unit).

    For lam >= 0, W = sym(sum lam_i w_i a_i'): tr(B'W) <= sum lam_i (b_i - a_i.c').
    """
    A = np.asarray(A, float)
    b = np.asarray(b, float) - A @ c
    d = A.shape[1]
    w = A @ B
    nw = np.linalg.norm(w, axis=1)
    w = w / nw[:, None]
    act = (b - nw) < near * max(1.0, np.abs(nw).max()) + near * nw
    iu = np.triu_indices(d)
    Bi = np.linalg.inv(B)
    # work in normalised coordinates x = B y: normals a' = B a / |B a|, unit ball
    Y = w[act]
    # the balance condition (last rows) enters the bound to first order, so it is weighted heavily
    cols = [np.concatenate((np.outer(y, y)[iu], 1e4 * y)) for y in Y]
    rhs = np.concatenate((np.eye(d)[iu], np.zeros(d)))
    lam, _ = nnls(np.array(cols).T, rhs)
    # in y-coordinates the polyhedron is {w.y <= b/|Ba|}
    bb = b[act] / nw[act]
    W = (Y * lam[:, None]).T @ Y
    W = 0.5 * (W + W.T)
    r = lam @ Y  # should vanish
    R = diam if diam is not None else 0.0
    R = R * np.linalg.norm(Bi, 2)
    rhsv = lam @ bb + np.linalg.norm(r) * R
    s, ld = np.linalg.slogdet(W)
    if s <= 0:
        return np.inf
    # det(B_y) det(W) <= (tr(B_y W)/d)^d
    return d * np.log(rhsv / d) - ld + np.linalg.slogdet(B)[1]


def chebyshev_radius(A, b):
    """Largest r with {|x-c| <= r} inside {Ax <= b} (rows of A unit), by enumerating vertices of the LP."""
    A = np.asarray(A, float)
    b = np.asarray(b, float)
    n, d = A.shape
    best = -np.inf
    T = np.hstack((A, np.ones((n, 1))))
    for comb in combinations(range(n), d + 1):
        M = T[list(comb)]
        if abs(np.linalg.det(M)) < 1e-9:
            continue
        z = np.linalg.solve(M, b[list(comb)])
        if np.all(T @ z <= b + 1e-9 * (1 + np.abs(b))):
            best = max(best, z[-1])
    return best


# ---- distance of a point from a spec -----------------------------------------
def excess(spec, p):
    """How far p violates membership of spec (a distance-like number, <= 0 inside)."""
    x = spec.Rf.T @ (np.asarray(p, float) - spec.cf)
    k = spec.kind
    if k == "box":
        return float(np.max(np.abs(x) - np.array([float(v) for v in spec.h])))
    if k == "ell":
        h = np.array([float(v) for v in spec.h])
        nz = h > 0
        off = np.linalg.norm(x[~nz]) if (~nz).any() else -np.inf
        if not nz.any():
            return float(off)
        g = np.linalg.norm(x[nz] / h[nz])
        # |x|(g-1)/g is the radial distance
        rad = np.linalg.norm(x[nz]) * (1 - 1 / g) if g > 1 else (g - 1) * h[nz].min()
        return float(max(rad, off))
    if k == "cyl":
        return float(max(abs(x[2]) - float(spec.L) / 2, np.hypot(x[0], x[1]) - float(spec.r)))
    if k == "cap":
        z = max(abs(x[2]) - float(spec.L) / 2, 0.0)
        return float(np.sqrt(x[0] ** 2 + x[1] ** 2 + z ** 2) - float(spec.r))
    if k == "poly":
        v = -np.inf
        for f in spec.hull.facets:
            a = np.array([float(t) for t in f])
            if np.any(a[:-1]):
                v = max(v, -(a[:-1] @ x + a[-1]) / np.linalg.norm(a[:-1]))
        for e in spec.hull.eqs:
            a = np.array([float(t) for t in e])
            v = max(v, abs(a[:-1] @ x + a[-1]) / np.linalg.norm(a[:-1]))
        return float(v)
    raise ValueError(k)

