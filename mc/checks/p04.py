"""P04: convex_hull returns exactly the extreme points, for every small point configuration."""
from fractions import Fraction as F
from itertools import combinations, permutations, product
import numpy as np
from .. import exact as ex
from ..exact import farr, fr
from .p02 import rows_match

_CACHE = {}


def hull_case(ck, pts, maps):
    """pts: distinct exact points; every listed ordering/duplication and affine image."""
    import rigeo as rg
    ext = ex.extreme_points(pts)
    dim = len(pts[0])
    ck.state(tuple(pts))
    arr = [list(pts), list(pts)[::-1]]
    if len(pts) > 2:
        arr.append(list(pts[1:]) + [pts[0]])
    dup = list(pts) + [pts[0]]
    arr.append(dup)
    arr.append([p for p in pts for _ in (0, 1)])
    arr.append([pts[-1]] + list(pts) + [pts[len(pts) // 2]] * 2)
    ck.outcome(f"affdim{ex.rank([ex.sub(p, pts[0]) for p in pts[1:]])}")
    for mi, (R, t, s) in enumerate(maps):
        M = s * farr(R)
        t = farr(t)
        E = np.array([farr(p) for p in ext]) @ M.T + t
        for ai, a in enumerate(arr):
            if mi and ai not in (0, 3):
                continue
            if len(set(a)) == 1 and len(a) > 1 and False:
                continue
            P = np.array([farr(p) for p in a]) @ M.T + t
            P0 = P.copy()
            got = rg.convex_hull(P)
            ck.step(); ck.trace()
            ck.expect(np.array_equal(P, P0), "input-modified", "convex_hull modified its argument")
            ck.expect(got is not None and rows_match(got, E, 1e-7), "wrong-extreme-points", lambda: f"convex_hull({P.tolist()}) = {None if got is None else got.tolist()}, extreme points are {E.tolist()}")
            if dim <= 3 or ai == 0:
                poly = rg.ConvexPolyhedron.from_vertices(P, prune=True)
                ck.step(); ck.trace()
                ck.expect(rows_match(poly.vertices, E, 1e-7) and poly.nv == len(E), "prune", lambda: f"from_vertices({P.tolist()}, prune=True).vertices = {poly.vertices.tolist()}, extreme points are {E.tolist()}")
                if ai in (0, 4) and mi == 0:
                    full = rg.ConvexPolyhedron.from_vertices(P)
                    X = probes(pts) @ M.T + t
                    ck.step(len(X))
                    a1, a2 = poly.contains(X), full.contains(X)
                    want = inside(pts)
                    ck.expect(np.array_equal(a1, want), "pruned-set", lambda: f"pruned polyhedron differs from the hull at {X[np.nonzero(a1 != want)[0][0]].tolist()}")
                    ck.expect(np.array_equal(a2, want), "unpruned-set", lambda: f"unpruned polyhedron differs from the hull at {X[np.nonzero(a2 != want)[0][0]].tolist()}")


def probe_pts(pts):
    k = tuple(pts)
    if k not in _CACHE:
        _CACHE.clear()
        H = ex.Hull(pts)
        Q = list(pts)
        n = len(pts)
        for i in range(n):
            for j in range(i):
                d = ex.sub(pts[i], pts[j])
                Q += [ex.add(pts[j], ex.sc(F(1, 2), d)), ex.add(pts[i], ex.sc(F(1, 20), d)), ex.add(pts[j], ex.sc(F(-1, 20), d))]
        c = ex.sc(F(1, n), tuple(sum(x) for x in zip(*pts)))
        Q.append(c)
        for i in range(len(c)):
            for s in (F(1, 20), F(-1, 20)):
                Q.append(tuple(x + (s if i == k2 else 0) for k2, x in enumerate(c)))
                Q.append(tuple(x + (s if i == k2 else 0) for k2, x in enumerate(pts[0])))
        _CACHE[k] = (farr(Q), np.array([H.contains(q) for q in Q]))
    return _CACHE[k]


def probes(pts):
    return probe_pts(pts)[0]


def inside(pts):
    return probe_pts(pts)[1]


def many_case(ck, d, n, order, M, t):
    """large sets: a box of grid points, its corners (the extreme points) anywhere in the list; all points of a circle or sphere extreme"""
    import rigeo as rg
    k = max(3, round(n ** (1 / d)))
    G = np.array(list(product(range(k), repeat=d)), float)
    corner = np.all((G == 0) | (G == k - 1), axis=1)
    inner, E = G[~corner], G[corner]
    m = len(inner)
    P = {"first": np.vstack((E, inner)), "last": np.vstack((inner, E)), "middle": np.vstack((inner[: m // 2], E, inner[m // 2:])),
         "grid": G, "spread": np.insert(inner, np.linspace(0, m, len(E)).astype(int), E, axis=0)}[order]
    P, E = P @ M.T + t, E @ M.T + t
    ck.state(("many", d, n, order)); ck.step(len(P)); ck.trace(); ck.outcome("large-set")
    got = rg.convex_hull(P)
    ck.expect(got is not None and rows_match(got, E, 1e-6), "wrong-extreme-points", lambda: f"convex_hull of {len(P)} grid points ({order}) gives {len(got)} points, expected the {len(E)} corners")


def circle_case(ck, n, M, t):
    """n points on a circle: all are extreme (and the centre and midpoints are not)"""
    import rigeo as rg
    a = 2 * np.pi * np.arange(n) / n
    C = np.c_[np.cos(a), np.sin(a)]
    for extra in (0, 1, n):
        P = np.vstack((C[: n // 2], 0.5 * C[:extra], C[n // 2:])) @ M.T + t
        ck.state(("circle", n, extra)); ck.step(len(P)); ck.trace(); ck.outcome("large-set")
        got = rg.convex_hull(P)
        ck.expect(got is not None and rows_match(got, C @ M.T + t, 1e-6), "wrong-extreme-points", lambda: f"convex_hull of {n} points of a circle and {extra} inside gives {len(got)} points")


def main(ck):
    T = ck.thorough
    fz = lambda L: [tuple(map(fr, x)) for x in L]
    sets = []
    g1 = fz([(-1,), (0,), (1,), (3,)])
    for k in range(1, 5):
        sets += list(combinations(g1, k))
    g2 = fz(product((0, 1, 2), repeat=2))
    for k in range(1, 7 if T else 6):
        sets += list(combinations(g2, k))
    g2b = fz([(0, 0), (4, 0), (0, 4), (2, 2), (1, 1), (1, 3), (3, 1), (2, 0)])
    for k in range(3, 9 if T else 6):
        sets += list(combinations(g2b, k))
    g3 = fz(list(product((0, 2), repeat=3)) + [(1, 1, 0), (1, 1, 1), (0, 0, 1)])
    for k in range(1, 7 if T else 5):
        sets += list(combinations(g3, k))
    if not T:
        sets += list(combinations(g3, 6))[::4]
    sets += [g3, g3[:8], fz(product((0, 1, 2), repeat=3))]
    g4 = fz([(0, 0, 0, 0), (2, 0, 0, 0), (0, 2, 0, 0), (0, 0, 2, 0), (0, 0, 0, 2), (1, 1, 0, 0), (F(1, 4),) * 4, (1, 0, 0, 0)])
    for k in range(1, 9):
        sets += list(combinations(g4, k))[:: 1 if T else 3]
    maps = {}
    for d in (1, 2, 3, 4):
        R = ex.ROT[d]
        z, t = ex.zeros(d), tuple(map(fr, (1, -2, F(1, 2), 3)[:d]))
        nm = {1: "neg", 2: "345", 3: "third", 4: "quat"}[d]
        maps[d] = [(R["I"], z, 1.0), (R[nm], t, 1.0), (R["I"], ex.sc(F(50), t), 0.25)] + ([(R[nm], z, 10.0)] if T else [])
    def job(k, items):
        for i, s in items:
            k.run(f"hull/{i}", hull_case, k, list(s), maps[len(s[0])], repro=f"convex_hull(np.array({[list(map(float, p)) for p in s]}))")
    jobs = []
    for d in (1, 2, 3, 4):
        R = list(ex.ROT[d].values())[-1]
        for n in (20, 60, 150, 400, 1100, 3000) + ck.pick((), (10007,)):
            if n > {1: 10**5, 2: 10**5, 3: 1200, 4: 200}[d] * ck.pick(1, 8):
                continue
            for order in ("first", "last", "middle", "grid", "spread"):
                jobs.append((f"many/{d}/{n}/{order}", many_case, (d, n, order, farr(R), np.arange(1.0, d + 1))))
    for n in (5, 16, 50, 99, 200, 360):
        jobs.append((f"circle/{n}", circle_case, (n, farr(list(ex.ROT[2].values())[-1]), np.array([3.0, -1]))))

    def mjob(k, items):
        for key, f, a in items:
            k.run(key, f, k, *a, repro=key)
    ck.pmap(mjob, [jobs[i::32] for i in range(32)])
    idx = list(enumerate(sets))
    ck.pmap(job, [idx[i::32] for i in range(32)])
    ck.sample(dict(points=[list(map(float, p)) for p in sets[len(sets) // 2]]))
    ck.notes["configurations"] = len(sets)
