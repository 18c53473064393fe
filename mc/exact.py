"""Exact rational linear algebra used by the reference models."""
from fractions import Fraction as F
from itertools import combinations, permutations, product
import numpy as np


def fr(x):
    return x if isinstance(x, F) else F(x)


def vec(*xs):
    return tuple(fr(x) for x in xs)


def mat(rows):
    return tuple(tuple(fr(x) for x in r) for r in rows)


def eye(n):
    return tuple(tuple(F(int(i == j)) for j in range(n)) for i in range(n))


def zeros(n):
    return (F(0),) * n


def mm(A, B):
    Bt = list(zip(*B))
    return tuple(tuple(sum(a * b for a, b in zip(r, c)) for c in Bt) for r in A)


def mv(A, x):
    return tuple(sum(a * b for a, b in zip(r, x)) for r in A)


def tr(A):
    return tuple(zip(*A))


def add(x, y):
    return tuple(a + b for a, b in zip(x, y))


def sub(x, y):
    return tuple(a - b for a, b in zip(x, y))


def sc(k, x):
    return tuple(k * a for a in x)


def dot(x, y):
    return sum(a * b for a, b in zip(x, y))


def outer(x, y):
    return tuple(tuple(a * b for b in y) for a in x)


def madd(A, B):
    return tuple(add(a, b) for a, b in zip(A, B))


def msc(k, A):
    return tuple(sc(k, a) for a in A)


def flt(x):
    """numpy float array from nested Fractions."""
    return np.array(x, dtype=float) if not isinstance(x, F) else float(x)


def farr(x):
    if isinstance(x, (F, int)):
        return float(x)
    return np.array([farr(a) for a in x])


def rank(rows):
    M = [list(r) for r in rows]
    rk = 0
    if not M:
        return 0
    nc = len(M[0])
    for c in range(nc):
        p = next((i for i in range(rk, len(M)) if M[i][c] != 0), None)
        if p is None:
            continue
        M[rk], M[p] = M[p], M[rk]
        for i in range(len(M)):
            if i != rk and M[i][c] != 0:
                f = M[i][c] / M[rk][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[rk])]
        rk += 1
    return rk


def nullspace(rows, n):
    """Basis (list of tuples) of {x : rows x = 0}."""
    M = [list(map(fr, r)) for r in rows]
    piv = []
    rk = 0
    for c in range(n):
        p = next((i for i in range(rk, len(M)) if M[i][c] != 0), None)
        if p is None:
            continue
        M[rk], M[p] = M[p], M[rk]
        d = M[rk][c]
        M[rk] = [a / d for a in M[rk]]
        for i in range(len(M)):
            if i != rk and M[i][c] != 0:
                f = M[i][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[rk])]
        piv.append(c)
        rk += 1
    free = [c for c in range(n) if c not in piv]
    out = []
    for fcol in free:
        x = [F(0)] * n
        x[fcol] = F(1)
        for i, pc in enumerate(piv):
            x[pc] = -M[i][fcol]
        out.append(tuple(x))
    return out


def det(A):
    n = len(A)
    if n == 0:
        return F(1)
    M = [list(r) for r in A]
    d = F(1)
    for c in range(n):
        p = next((i for i in range(c, n) if M[i][c] != 0), None)
        if p is None:
            return F(0)
        if p != c:
            M[c], M[p] = M[p], M[c]
            d = -d
        d *= M[c][c]
        for i in range(c + 1, n):
            f = M[i][c] / M[c][c]
            if f:
                M[i] = [a - f * b for a, b in zip(M[i], M[c])]
    return d


def inv(A):
    n = len(A)
    M = [list(map(fr, r)) + list(e) for r, e in zip(A, eye(n))]
    for c in range(n):
        p = next(i for i in range(c, n) if M[i][c] != 0)
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [a / d for a in M[c]]
        for i in range(n):
            if i != c and M[i][c] != 0:
                f = M[i][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[c])]
    return tuple(tuple(r[n:]) for r in M)


# ---- rotations ------------------------------------------------------------
R2 = {
    "I": eye(2),
    "q90": mat([[0, -1], [1, 0]]),
    "345": mat([[F(3, 5), F(-4, 5)], [F(4, 5), F(3, 5)]]),
    "51213": mat([[F(5, 13), F(12, 13)], [F(-12, 13), F(5, 13)]]),
}
_t = F(1, 3)
_X90 = mat([[1, 0, 0], [0, 0, -1], [0, 1, 0]])
_Y90 = mat([[0, 0, 1], [0, 1, 0], [-1, 0, 0]])
_Z90 = mat([[0, -1, 0], [1, 0, 0], [0, 0, 1]])
_Z345 = mat([[F(3, 5), F(-4, 5), 0], [F(4, 5), F(3, 5), 0], [0, 0, 1]])
_X345 = mat([[1, 0, 0], [0, F(3, 5), F(-4, 5)], [0, F(4, 5), F(3, 5)]])
_TH = msc(_t, mat([[2, -1, 2], [2, 2, -1], [-1, 2, 2]]))
R3 = {
    "I": eye(3),
    "x90": _X90,
    "y90": _Y90,
    "z90": _Z90,
    "z345": _Z345,
    "x345": _X345,
    "third": _TH,
    "third*z345": mm(_TH, _Z345),
    "x345*third": mm(_X345, _TH),
    "z180": mm(_Z90, _Z90),
    "x180": mm(_X90, _X90),
}


def _quat4(p, q):
    """4-D rotation x -> p x q for rational unit quaternions."""
    a, b, c, d = p
    L = [[a, -b, -c, -d], [b, a, -d, c], [c, d, a, -b], [d, -c, b, a]]
    a, b, c, d = q
    R = [[a, -b, -c, -d], [b, a, d, -c], [c, -d, a, b], [d, c, -b, a]]
    return mm(mat(L), mat(R))


_h = F(1, 2)
R4 = {
    "I": eye(4),
    "quat": _quat4((_h, _h, _h, _h), (F(3, 5), F(4, 5), F(0), F(0))),
    "perm": mat([[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [-1, 0, 0, 0]]),
}
R1 = {"I": eye(1), "neg": mat([[-1]])}
ROT = {1: R1, 2: R2, 3: R3, 4: R4}


def cayley(d, t):
    """Rotation (I - S)^-1 (I + S), S skew with entries proportional to t: exact for any rational t."""
    S = [[F(0)] * d for _ in range(d)]
    k = 0
    for i in range(d):
        for j in range(i + 1, d):
            k += 1
            S[i][j] = fr(t) * (1, F(-1, 2), F(2, 3), F(1, 3), -1, F(1, 4))[k - 1]
            S[j][i] = -S[i][j]
    I = eye(d)
    A = tuple(tuple(a - b for a, b in zip(r, q)) for r, q in zip(I, S))
    B = tuple(tuple(a + b for a, b in zip(r, q)) for r, q in zip(I, S))
    return mm(inv(A), B)


def cube_rotations():
    out = []
    for p in permutations(range(3)):
        for s in product((1, -1), repeat=3):
            M = tuple(tuple(F(s[i]) if p[i] == j else F(0) for j in range(3)) for i in range(3))
            if det(M) == 1:
                out.append(M)
    return out


for _A in list(R3.values()) + list(R2.values()) + list(R4.values()) + cube_rotations():
    assert mm(_A, tr(_A)) == eye(len(_A)) and det(_A) == 1


# small turns, nearly half turns, both small and large shifts
MOTIONS = {}
for _d in (2, 3, 4):
    MOTIONS[_d] = {
        "turn1e-2": (cayley(_d, F(1, 200)), None),
        "turn1e-3+far": (cayley(_d, F(-1, 2000)), (300, -500, 200, 100)[:_d]),
        "turn1e-6": (cayley(_d, F(1, 2 * 10**6)), (F(1, 2), 0, 1, 0)[:_d]),
        "shift1e-3": (None, (F(1, 1000), 0, F(-1, 2000), 0)[:_d]),
        "shift1e-6": (None, (0, F(-1, 10**6), 0, F(1, 10**6))[:_d]),
        "far": (None, (-3000, 1000, 50, 2)[:_d]),
        "turnpi": (cayley(_d, 400), (0, 1, F(1, 1000), 0)[:_d]),
    }
MOTIONS[1] = {"shift1e-3": (None, (F(1, 1000),)), "shift1e-6": (None, (F(-1, 10**6),)), "far": (None, (3000,))}
for _D in MOTIONS.values():
    for _A, _v in _D.values():
        assert _A is None or (mm(_A, tr(_A)) == eye(len(_A)) and det(_A) == 1)


# ---- exact hulls ----------------------------------------------------------
def affine_basis(points):
    """(origin, list of independent direction vectors) of the affine hull."""
    o = points[0]
    dirs = []
    for p in points[1:]:
        d = sub(p, o)
        if rank(dirs + [d]) > len(dirs):
            dirs.append(d)
    return o, dirs


class Hull:
    """Exact convex hull conv(V) + cone(rays) membership by brute-force facet enumeration.

    Homogenised: cone in R^{d+1} generated by (v,1),(r,0). Facets of the cone
    within its span are all hyperplanes spanned by k-1 independent generators
    with every generator on one side.
    """

    def __init__(self, V, rays=()):
        V = list(dict.fromkeys(tuple(map(fr, v)) for v in V))
        rays = [tuple(map(fr, r)) for r in rays]
        rays = [r for r in rays if any(r)]
        G = [v + (F(1),) for v in V] + [r + (F(0),) for r in rays]
        self.V, self.rays, self.G = V, rays, G
        n = len(G[0])
        self.dim = n - 1
        # linear span and equations
        self.eqs = nullspace(G, n)
        k = n - len(self.eqs)
        self.k = k
        basis = []
        for g in G:
            if rank(basis + [g]) > len(basis):
                basis.append(g)
        # coordinates in the span: choose normals inside the span
        facets = {}
        for comb in combinations(range(len(G)), k - 1):
            sel = [G[i] for i in comb]
            if rank(sel) < k - 1:
                continue
            # normal n in span(G) with n.sel = 0: solve with eqs as extra rows
            ns = nullspace(sel + self.eqs, n)
            if len(ns) != 1:
                continue
            a = ns[0]
            vals = [dot(a, g) for g in G]
            if all(v >= 0 for v in vals):
                pass
            elif all(v <= 0 for v in vals):
                a = sc(-1, a)
            else:
                continue
            if all(v == 0 for v in vals):
                continue
            s = max(abs(x) for x in a)
            a = sc(1 / s, a)
            facets[a] = None
        self.facets = list(facets)  # a.(x,1) >= 0

    def contains(self, x):
        y = tuple(map(fr, x)) + (F(1),)
        return all(dot(e, y) == 0 for e in self.eqs) and all(dot(f, y) >= 0 for f in self.facets)

    def contains_dir(self, r):
        y = tuple(map(fr, r)) + (F(0),)
        return all(dot(e, y) == 0 for e in self.eqs) and all(dot(f, y) >= 0 for f in self.facets)

    def on_boundary(self, x):
        y = tuple(map(fr, x)) + (F(1),)
        return self.contains(x) and (bool(self.eqs) or any(dot(f, y) == 0 for f in self.facets))

    @property
    def affdim(self):
        return self.k - 1


def extreme_points(points):
    """Exact extreme points of a finite set: p is extreme iff not in the hull of the others.

    Decided through facets of the whole hull: p is a vertex iff the facet normals
    tight at p (with the equations) determine it uniquely.
    """
    P = list(dict.fromkeys(tuple(map(fr, p)) for p in points))
    if len(P) == 1:
        return P
    H = Hull(P)
    out = []
    for p in P:
        y = p + (F(1),)
        tight = [f for f in H.facets if dot(f, y) == 0]
        # vertex iff rank(eqs + tight) == d (in homogeneous coordinates n-1)
        if rank(list(H.eqs) + tight) == H.dim:
            out.append(p)
    return out
