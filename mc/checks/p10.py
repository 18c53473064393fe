"""P10: closest points, decided by a separating-slab certificate per pair of posed shapes."""
from fractions import Fraction as F
from itertools import product
import numpy as np
import cvxpy as cp
from .. import zoo, exact as ex, optim
from ..exact import farr, fr

S = dict(solver=cp.CLARABEL)


def solve(ck, a, b, what):
    import rigeo as rg
    try:
        return rg.closest_points(a, b, **S)
    except cp.SolverError:
        ck.unsure("solver error")
        return None


def certify(ck, A, B, info, what, scale):
    """Soundness and optimality of one answer; returns the distance."""
    ck.step()
    ck.trace()
    p1, p2, d = np.asarray(info.p1, float), np.asarray(info.p2, float), float(info.dist)
    tol = 1e-4 * scale
    if not ck.expect(p1.shape == (3,) and p2.shape == (3,) and np.ndim(info.dist) == 0, "layout", lambda: f"{what}: p1 {p1.shape}, p2 {p2.shape}, dist {np.shape(info.dist)}"):
        return None
    if not ck.expect(bool(np.all(np.isfinite(p1)) and np.all(np.isfinite(p2)) and np.isfinite(d)), "finite", f"{what}: not finite"):
        return None
    ck.expect(abs(np.linalg.norm(p1 - p2) - d) <= tol, "distance", lambda: f"{what}: |p1-p2| = {np.linalg.norm(p1 - p2)}, reported {d}")
    e1, e2 = optim.excess(A, p1), optim.excess(B, p2)
    # distance-like; curved shapes: second-order, allow a little more for sharp ellipsoids
    ck.expect(e1 <= 5 * tol, "p1-outside", lambda: f"{what}: p1={p1.tolist()} is {e1:.2e} outside the first shape")
    ck.expect(e2 <= 5 * tol, "p2-outside", lambda: f"{what}: p2={p2.tolist()} is {e2:.2e} outside the second shape")
    ck.expect(d >= -tol, "negative", f"{what}: distance {d}")
    if d > 20 * tol:
        # any unit n gives the lower bound inf_B n.x - sup_A n.x
        n = (p2 - p1) / np.linalg.norm(p2 - p1)
        lb = -B.support(-n) - A.support(n)
        if d > lb + 5 * tol:
            lb = max(lb, best_slab(A, B, n))
        ck.expect(d <= lb + 5 * tol, "not-closest", lambda: f"{what}: reported {d}, but the best separating slab found has width {lb}")
    return d


def best_slab(A, B, n):
    """Improve the separating direction by a shrinking pattern search (a sound lower bound at every step)."""
    f = lambda n: -B.support(-n) - A.support(n)
    best, bn = f(n), n
    step = 0.1
    E = np.vstack((np.eye(3), -np.eye(3)))
    while step > 1e-7:
        imp = False
        for e in E:
            m = bn + step * e
            m = m / np.linalg.norm(m)
            v = f(m)
            if v > best:
                best, bn, imp = v, m, True
        if not imp:
            step /= 2
    return best


def pair_case(ck, A, B, motions):
    ck.state((A.key, B.key))
    a, b = A.build(), B.build()
    scale = 1.0 + np.abs(A.cf - B.cf).max()
    i1 = solve(ck, a, b, "d(a,b)")
    if i1 is None:
        return
    d = certify(ck, A, B, i1, "closest_points(a, b)", scale)
    if d is None:
        return
    ck.outcome("zero" if d < 1e-4 * scale else "separated")
    i2 = solve(ck, b, a, "d(b,a)")
    if i2 is not None:
        d2 = certify(ck, B, A, i2, "closest_points(b, a)", scale)
        if d2 is not None:
            ck.expect(abs(d - d2) < 2e-4 * scale, "asymmetric", lambda: f"distance {d} one way, {d2} the other")
    for nm, Q, t in motions:
        A2, B2 = A.move(Q, t), B.move(Q, t)
        ck.state((A2.key, B2.key))
        i3 = solve(ck, a.transform(rotation=farr(Q), translation=farr(t)), b.transform(rotation=farr(Q), translation=farr(t)), nm)
        if i3 is None:
            continue
        d3 = certify(ck, A2, B2, i3, f"closest_points after moving both by {nm}", scale)
        if d3 is not None:
            ck.expect(abs(d - d3) < 2e-4 * scale, "not-invariant", lambda: f"distance {d} becomes {d3} after moving both shapes by {nm}")


def gap_case(ck, A, B, k):
    """B placed at exactly known distances from A along a given direction: its support point
    in direction -u is put g beyond A's support point in direction u, so that g is attained
    and the slab normal to u shows that nothing is closer."""
    ck.state((A.key, B.key, k))
    tol = 2e-5 * (1 + k)
    for u in UNITS:
        for g in (-1e-2, 0.0, 1e-4, 5e-4, 1e-3, 1e-2, 1.0):
            t = A.support_point(u) - B.support_point(-u) + u * g * k
            B2 = B.move(None, tuple(F(float(x)) for x in t))
            for X, Y in ((A, B2), (B2, A)):
                i = solve(ck, X.build(), Y.build(), "gap")
                if i is None:
                    continue
                ck.step(); ck.trace()
                d = float(i.dist)
                ck.outcome("gap" if g > 0 else "touching")
                want = max(g, 0.0) * k
                if g < 0 and -B2.support(-u) - A.support(u) < -tol and not zoo_fat(A, B):
                    continue        # a flat shape pushed forward need not meet the other one
                ck.expect(abs(d - want) <= tol, "gap", lambda: f"the distance is {want:.3g}, reported {d:.6g} for {X!r} and {Y!r}")
                ck.expect(abs(np.linalg.norm(np.asarray(i.p1, float) - i.p2) - want) <= 2 * tol, "gap-points", lambda: f"the distance is {want:.3g}, but the points are {np.linalg.norm(np.asarray(i.p1) - i.p2):.6g} apart")
                ck.expect(max(optim.excess(X, i.p1), optim.excess(Y, i.p2)) <= 5 * tol, "outside", "a closest point lies outside its shape")


UNITS = [np.array(u) / np.linalg.norm(u) for u in ((1, 2, 2), (-3, 1, 0.5))]


def zoo_fat(A, B):
    return all(s.kind == "ell" and min(s.h) == max(s.h) for s in (A, B))


def scaled(s, k):
    k = fr(k)
    c = ex.sc(k, s.c)
    if s.kind == "poly":
        return zoo.PolyS([ex.sc(k, v) for v in s.V], s.R, c)
    return type(s)(s.L * k, s.r * k, s.R, c) if s.kind in ("cyl", "cap") else type(s)(ex.sc(k, s.h), s.R, c)


def self_case(ck, A):
    a = A.build()
    i = solve(ck, a, a, "self")
    if i is not None:
        certify(ck, A, A, i, "closest_points(a, a)", 1.0)
        ck.expect(abs(float(i.dist)) < 1e-4, "self", f"distance of a shape from itself is {i.dist}")


def main(ck):
    T = ck.thorough
    H = zoo.H
    shapes = [zoo.BoxS((1, 2, H)), zoo.PolyS(zoo.TET), zoo.PolyS(zoo.SQ3), zoo.PolyS(zoo.SEG3), zoo.PolyS(zoo.PT3), zoo.EllS((1, 2, H)), zoo.EllS((2, 2, 2)),
              zoo.EllS((1, H, 0)), zoo.EllS((0, 0, 2)), zoo.CylS(2, 1), zoo.CylS(3, H), zoo.CapS(3, H), zoo.CapS(1, 2)]
    if T:
        shapes += [zoo.BoxS((1, H, 0)), zoo.PolyS(zoo.OCT), zoo.PolyS(zoo.PRISM), zoo.EllS((0, 0, 0)), zoo.CylS(0, 1), zoo.CylS(2, 0), zoo.CapS(0, 1)]
    offs = [(0, 0, 0), (H, 0, -H), (2, 1, 0), (0, 5, 0), (4, -3, 2), (-6, 0, 1)]
    if T:
        offs += [(0, 0, 3), (0, 0, 10), (1, 1, 1), (-3, -3, -3), (3, 0, 0), (0, 20, 1)]
    rots = ["I", "third", "z345"] if not T else ["I", "x90", "third", "z345", "x345*third"]
    motions = [("third+t", ex.R3["third"], tuple(map(fr, (2, -1, F(1, 2)))))]
    if T:
        motions.append(("x90+t", ex.R3["x90"], tuple(map(fr, (-20, 10, 5)))))
    jobs = []
    for i, A in enumerate(shapes):
        jobs.append((f"self/{zoo.name(A)}", self_case, (A.move(ex.R3["third"], (1, 2, 3)),)))
        for j in range(i, len(shapes)):
            for rn in rots:
                for oi, o in enumerate(offs):
                    B = shapes[j].move(ex.R3[rn], o)
                    jobs.append((f"pair/{zoo.name(A)}/{zoo.name(shapes[j])}/{rn}/{','.join(map(str, o))}", pair_case, (A, B, motions)))

    for i, A in enumerate(shapes):
        for j, B in enumerate(shapes):
            for k in (1, 100, F(1, 20)):
                if T or (i + j + (k != 1) + (k == 100)) % 4 == 0:
                    jobs.append((f"gap/{zoo.name(A)}/{zoo.name(B)}/{k}", gap_case, (scaled(A.move(None, (1, -2, 1)), k), scaled(B.move(ex.R3["third"]), k), float(k))))

    for n, A in zoo.via_specs(modes=("steps", "used") if T else ("used",)):
        for j, B in enumerate((zoo.via(zoo.CapS(3, H, ex.R3["third"], (4, -3, 2)), "rt"), zoo.BoxS((1, 2, H), None, (4, -3, 2)), zoo.EllS((1, H, 0), ex.R3["z345"], (1, -2, H)))):
            jobs.append((f"{n}/{j}", pair_case, (A, B, motions)))

    def job(k, items):
        import warnings
        warnings.simplefilter("ignore")
        for key, fn, a in items:
            k.run(key, fn, k, *a, repro=repr(a[:2]))
    ck.pmap(job, [jobs[i::64] for i in range(64)])
    ck.sample([repr(x) for x in jobs[9][2][:2]])
