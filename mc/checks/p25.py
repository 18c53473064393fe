"""P25: grids and surface tests, against exact rational geometry."""
from fractions import Fraction as F
from itertools import product
import numpy as np
from scipy.spatial import cKDTree
from .. import zoo, exact as ex
from ..exact import farr, fr
from ..zoo import BoxS, EllS, CylS, CapS, PolyS, H
from .p02 import rows_match


def world_aabb(spec):
    hi = np.array([spec.support(u) for u in np.eye(3)])
    lo = -np.array([spec.support(-u) for u in np.eye(3)])
    return lo, hi


def lin(lo, hi, n):
    return [lo + (hi - lo) * i / (n - 1) for i in range(n)]


def margin(spec, x):
    """signed distance-like margin: > 0 clearly inside, < 0 clearly outside (float, local frame)."""
    y = spec.Rf.T @ (np.asarray(x) - spec.cf)
    if spec.kind == "box":
        h = farr(spec.h)
        return float(np.min(h - np.abs(y)))
    if spec.kind == "ell":
        h = farr(spec.h)
        z = h == 0
        if z.any() and np.max(np.abs(y[z])) > 1e-9:
            return -float(np.max(np.abs(y[z])))
        return float(1 - np.sum((y[~z] / h[~z]) ** 2)) if (~z).any() else 0.0
    if spec.kind == "cyl":
        return float(min(spec.L / 2 - abs(y[2]), float(spec.r) - np.hypot(y[0], y[1])))
    if spec.kind == "cap":
        z = max(abs(y[2]) - float(spec.L) / 2, 0.0)
        return float(float(spec.r) - np.sqrt(y[0] ** 2 + y[1] ** 2 + z * z))
    hl = spec.hull
    m = np.inf
    for e in hl.eqs:
        e = farr(e)
        d = abs(e[:-1] @ y + e[-1]) / np.linalg.norm(e[:-1])
        if d > 1e-9:
            return -d
        m = 0.0
    for f in hl.facets:
        f = farr(f)
        m = min(m, (f[:-1] @ y + f[-1]) / np.linalg.norm(f[:-1]))
    if hl.eqs:
        # flat: inside the flat with positive relative margin counts as certainly inside only up to rounding
        return m if m < -1e-9 else 0.0
    return float(m)


def box_grid_case(ck, spec, ns):
    obj = spec.build()
    for n in ns:
        nn = (n,) * 3 if np.isscalar(n) else tuple(n)
        want = np.array([farr(spec.to_world(p)) for p in product(*[lin(-h, h, k) for h, k in zip(spec.h, nn)])])
        G = np.asarray(obj.grid(n if np.isscalar(n) else (list(n) if sum(n) % 2 else tuple(n))))
        ck.state((spec.key, n)); ck.step(); ck.trace()
        if ck.expect(G.shape == (int(np.prod(nn)), 3), "box-grid-shape", lambda: f"grid({n}) has shape {G.shape}"):
            ck.expect(rows_match(G, want), "box-grid", lambda: f"grid({n}) of {spec!r} is not the evenly spaced grid along its axes")
            ck.expect(obj.contains(G).all(), "outside", f"grid({n}) has points outside the box")


def grid_case(ck, spec, ns):
    obj = spec.build()
    lo, hi = world_aabb(spec)
    for n in ns:
        nn = (n,) * 3 if np.isscalar(n) else tuple(n)
        ck.state((spec.key, n)); ck.step(); ck.trace()
        G = np.asarray(obj.grid(n))
        if not ck.expect(G.ndim == 2 and G.shape[1] == 3, "shape", lambda: f"grid({n}) has shape {G.shape}"):
            continue
        cand = np.array(list(product(*[lin(a, b, k) for a, b, k in zip(lo, hi, nn)])))
        marg = np.array([margin(spec, x) for x in cand])
        sure_in, sure_out = cand[marg > 1e-7], cand[marg < -1e-6]
        ck.outcome("inside", len(sure_in)); ck.outcome("outside", len(sure_out)); ck.outcome("borderline", len(cand) - len(sure_in) - len(sure_out))
        # every grid point is a candidate and not outside
        tol = 1e-11 * (1 + np.abs(cand).max())
        used = np.zeros(len(cand), int)
        tree = cKDTree(cand)
        for g in G:
            near = tree.query_ball_point(g, tol, p=np.inf)
            if not ck.expect(len(near) > 0, "not-in-box-grid", lambda: f"grid({n}) of {spec!r}: {g.tolist()} is not a point of the bounding box's grid"):
                break
            used[near] += 1
        else:
            flat = np.any(hi - lo < 1e-12 + 20 * tol)
            ck.expect(flat or used.max(initial=0) <= 1, "repeated", f"grid({n}) of {spec!r} repeats a point")
            ck.expect(not np.any(used[marg < -1e-6]), "outside", lambda: f"grid({n}) of {spec!r} contains {cand[(used > 0) & (marg < -1e-6)][0].tolist()}, which is outside")
            ck.expect(np.all(used[marg > 1e-7]), "missing", lambda: f"grid({n}) of {spec!r} misses {cand[(used == 0) & (marg > 1e-7)][0].tolist()}, which is inside")
        # the library's own reading of the definition
        if len(G):
            ck.expect(np.all(obj.contains(G)), "outside", "contains() is False for a grid point")
        B = np.asarray(obj.aabb().grid(n))
        Bi = B[np.asarray(obj.contains(B))]
        ck.expect(len(G) == len(Bi) and (len(G) == 0 or rows_match(G, Bi)), "not-share", lambda: f"grid({n}) of {spec!r} is not the shape's share of aabb().grid({n})")


# ---- surface tests -------------------------------------------------------------
def box_surface_points(h):
    ax = [sorted({s * f * a for f in (F(0), F(3, 5), F(1), F(99, 100), F(101, 100)) for s in (1, -1)}) if a > 0 else [F(0), F(1, 50)] for a in h]
    for i in range(3):
        ax[i] = sorted(set(ax[i]) | set(o for o in h))
    for p in product(*ax):
        inside = all(abs(a) <= b for a, b in zip(p, h))
        yield p, inside and any(abs(a) == b for a, b in zip(p, h))


def ell_surface_points(h):
    dim = len(h)
    pts = {}
    trip = {1: [(F(1),)], 2: [(F(1), F(0)), (F(3, 5), F(4, 5)), (F(5, 13), F(12, 13))],
            3: [(F(1), F(0), F(0)), (F(3, 5), F(4, 5), F(0)), (F(1, 3), F(2, 3), F(2, 3)), (F(2, 7), F(3, 7), F(6, 7)), (F(4, 9), F(4, 9), F(7, 9))],
            4: [(F(1), F(0), F(0), F(0)), (F(1, 2),) * 4, (F(3, 5), F(0), F(4, 5), F(0)), (F(1, 10), F(1, 2), F(1, 2), F(7, 10))]}[dim]
    from itertools import permutations
    for t in trip:
        for p in set(permutations(t)):
            for s in product((1, -1), repeat=dim):
                for f in (F(1), F(0), F(1, 2), F(99, 100), F(101, 100), F(2)):
                    u = tuple(f * a * b for a, b in zip(p, s))
                    x = tuple(a * hh for a, hh in zip(u, h))
                    pts[x] = None
    for x in list(pts)[:40]:  # exchanged axes
        pts[x[1:] + x[:1]] = None
    for x in pts:
        yield x


def surface_case(ck, spec):
    obj = spec.build()
    pts, ans = [], []
    if spec.kind == "box":
        for p, a in box_surface_points(spec.h):
            pts.append(p); ans.append(a)
    else:
        z = [i for i, a in enumerate(spec.h) if a == 0]
        for x in ell_surface_points(spec.h):
            for off in ((F(0), F(1, 50)) if z else (F(0),)):
                y = tuple(off if i in z else a for i, a in enumerate(x))
                if z:
                    a = spec.inside_local(y)
                else:
                    a = sum((p / q) ** 2 for p, q in zip(y, spec.h)) == 1
                pts.append(y); ans.append(a)
        if z:
            d = dict(zip(pts, ans))
            pts, ans = list(d), list(d.values())
    X = np.array([farr(spec.to_world(p)) for p in pts]).reshape(len(pts), spec.dim)
    ans = np.array(ans)
    tol = 1e-7  # exact boundary points carry rounding errors of the pose
    got = np.asarray(obj.on_surface(X, tol=tol))
    ck.state(spec.key); ck.step(len(X)); ck.trace(len(X))
    ck.outcome("on", int(ans.sum())); ck.outcome("off", int((~ans).sum()))
    if ck.expect(got.shape == ans.shape, "shape", lambda: f"on_surface of {X.shape} points has shape {got.shape}"):
        bad = np.flatnonzero(got.astype(bool) != ans)
        ck.expect(len(bad) == 0, "wrong-answer", lambda: f"{spec!r}: on_surface({X[bad[0]].tolist()}) is {got[bad[0]]}, exact answer {ans[bad[0]]} ({len(bad)} wrong)")
    if spec.R == ex.eye(spec.dim) and not any(spec.c):
        # no pose: the default tolerance must do
        got0 = np.asarray(obj.on_surface(X))
        ck.expect(np.array_equal(got0.astype(bool), ans), "wrong-answer", "default tolerance")
    # large batches, of every kind of size
    if len(X) > 5:
        sizes = (32, 257, 10001, 33, 1000, 5003, 101, 1025)
        for n in sizes if ck.thorough else sizes[sum(map(ord, str(spec.key))) % 4::4]:
            idx = np.arange(n) * 7 % len(X) if len(X) % 7 else np.arange(n) * 11 % len(X)
            got = np.asarray(obj.on_surface(X[idx], tol=tol))
            ck.step(n)
            ck.expect(got.shape == (n,) and np.array_equal(got.astype(bool), ans[idx]), "batch", lambda: f"{spec!r}: a batch of {n} points is answered otherwise than its points one by one")
    for i in list(range(0, len(X), max(1, len(X) // 24))):
        a = obj.on_surface(X[i], tol=tol)
        b = obj.on_surface(X[i].tolist(), tol=tol)
        ck.step(2)
        ck.expect(np.ndim(a) == 0 and bool(a) == ans[i], "single", lambda: f"{spec!r}: on_surface({X[i].tolist()}) = {a!r}, expected {ans[i]}")
        ck.expect(np.ndim(b) == 0 and bool(b) == ans[i], "single", "list of coordinates")
    k = [0, len(X) // 2, len(X) - 1]
    L = obj.on_surface([X[i] for i in k], tol=tol)
    ck.expect(np.shape(L) == (3,) and list(map(bool, L)) == [bool(ans[i]) for i in k], "batch", "list of points")
    one = obj.on_surface(X[:1], tol=tol)
    ck.expect(np.shape(one) == (1,) and bool(one[0]) == ans[0], "batch", "batch of one")
    # tolerance: points off the boundary by clearly less / more than tol
    # near misses: a batch answers as its points do, one by one, whatever its size
    S = float(max(spec.h)) or 1.0
    for t in (1e-2, 1e-4):
        off = np.array([(0.31, -0.37, 1.73, -2.9, 5.3, -17.0, 41.0)[i % 7] * t for i in range(len(X))])
        Y = spec.cf + (X - spec.cf) * (1 + off)[:, None]
        for m in (2, 5, 40, len(X)):
            Z = Y[:: max(1, len(Y) // m)][:m]
            got = np.asarray(obj.on_surface(Z, tol=t * S)).astype(bool)
            single = np.array([bool(obj.on_surface(z, tol=t * S)) for z in Z])
            ck.step(len(Z))
            ck.expect(np.array_equal(got, single), "batch", lambda: f"{spec!r}: a batch of {len(Z)} points near the surface is answered otherwise than its points one by one (tol={t * S})")
    if not (spec.kind == "ell" and 0 in spec.h):
        B = X[ans]
        if spec.kind == "box":
            cl = spec.cf
            # leave through one face only: move along the local axis whose coordinate is extreme
            loc = [p for p, a in zip(pts, ans) if a]
            for p in loc[:: max(1, len(loc) // 40)]:
                i = next(i for i in range(3) if abs(p[i]) == spec.h[i])
                sgn = 1 if p[i] >= 0 else -1
                for big, delta in ((1e-2, 3e-3), (1e-3, 4e-4), (1e-5, 4e-6)):
                    # another face at least as near decides instead
                    others_on = any(spec.h[j] - abs(p[j]) <= delta for j in range(3) if j != i)
                    for s in (1, -1):
                        y = farr(spec.to_world(p)) + s * delta * sgn * spec.Rf[:, i]
                        ck.step()
                        ck.expect(bool(obj.on_surface(y, tol=big)), "tolerance", lambda: f"{spec!r}: {y.tolist()} is {delta} off the surface, tol={big}, but not reported on it")
                        if s == 1 or (not others_on and spec.h[i] > 4 * delta):
                            ck.expect(not obj.on_surface(y, tol=delta / 10), "tolerance", lambda: f"{spec!r}: {y.tolist()} is {delta} off the surface but reported on it with tol={delta/10}")
        else:
            for x in B[:: max(1, len(B) // 30)]:
                for f in (1e-3, -1e-3, 4e-6, -4e-6):
                    y = spec.cf + (x - spec.cf) * (1 + f)
                    ck.step()
                    # quadratic form off by about 2f, distance by at most f * the largest extent
                    ck.expect(bool(obj.on_surface(y, tol=20 * abs(f) * max(1.0, float(max(spec.h))))), "tolerance", lambda: f"{spec!r}: {y.tolist()} within tolerance of the surface but not reported")
                    small = abs(f) / 100 * min(1.0, float(min(spec.h)))
                    ck.expect(not obj.on_surface(y, tol=small), "tolerance", lambda: f"{spec!r}: {y.tolist()} clearly off the surface but reported with tol={small}")


def main(ck):
    T = ck.thorough
    jobs = []
    boxes = [BoxS((1, 2, H)), BoxS((H, H, H)), BoxS((1, H, 0)), BoxS((3, 1, 2)), BoxS((0, 1, 2))] + ([BoxS((2, 0, 0)), BoxS((0, 0, 0)), BoxS((F(1, 10), 1, 4))] if T else [])
    ns = [2, 3, 4, (2, 3, 4), (4, 2, 3), (3, 3, 2)] + ([5, 7, (2, 5, 3), (6, 2, 2)] if T else [])
    P3 = list(zoo.poses(3, T))
    for b in boxes:
        for rn, R, c in P3:
            jobs.append((f"box-grid/{zoo.name(b)}/{rn}/{','.join(map(str, c))}", box_grid_case, (b.move(R, c), ns)))
    shapes = [s for s in (zoo.LOCAL3_T if T else zoo.LOCAL3) if s.kind != "box"]
    for s in shapes:
        for rn, R, c in P3 if T else P3[::2]:
            jobs.append((f"grid/{zoo.name(s)}/{rn}/{','.join(map(str, c))}", grid_case, (s.move(R, c), [2, 3, 4, 5, 6] + ([7, 9, 12] if T else []))))
    # fine grids
    for q, (rn, R, c) in enumerate(P3[:2]):
        for b, n in ((boxes[0], (33, 2, 3)), (boxes[1], (2, 3, 101)), (boxes[3], (4, 1000, 2)), (boxes[0], 31), (boxes[2], (40, 35, 2))):
            jobs.append((f"box-grid/fine/{zoo.name(b)}/{n}/{rn}", box_grid_case, (b.move(R, c), [n])))
        for s in (zoo.EllS((1, 2, H)), zoo.CylS(2, 1), zoo.CapS(3, H), zoo.PolyS(zoo.OCT))[q::4 if not T else 1]:
            jobs.append((f"grid/fine/{zoo.name(s)}/{rn}", grid_case, (s.move(R, c), [32])))
    # thin, tiny and large shapes, slightly rotated and far away
    for s in [s for s in zoo.REG3 if s.kind == "box"]:
        for rn, R, c in zoo.reg_poses(3):
            jobs.append((f"box-grid/{zoo.name(s)}/{rn}", box_grid_case, (s.move(R, c), [2, 3, (2, 3, 4)])))
    for s in [s for s in zoo.REG3 if s.kind != "box"]:
        for rn, R, c in zoo.reg_poses(3, s.kind == "poly"):
            jobs.append((f"grid/{zoo.name(s)}/{rn}", grid_case, (s.move(R, c), [2, 3, 4, 5, 6])))
    for s in [s for s in zoo.REG3 + zoo.REG_LOW + zoo.REG4 if s.kind in ("box", "ell")]:
        for rn, R, c in zoo.reg_poses(s.dim):
            jobs.append((f"surface/{zoo.name(s)}/{rn}", surface_case, (s.move(R, c),)))
    for n, s in zoo.via_specs(low=True):
        if s.kind == "box":
            jobs.append((n + "/grid", box_grid_case, (s, [3, (2, 3, 4)])))
        elif s.dim == 3:
            jobs.append((n + "/grid", grid_case, (s, [2, 3, 5])))
        if s.kind in ("box", "ell"):
            jobs.append((n + "/surface", surface_case, (s,)))
    # polyhedra built from boxes (as_poly) share the generic grid
    for s in boxes + [e for e in zoo.LOCAL3_T + zoo.LOCAL_LOW + zoo.LOCAL4 if e.kind == "ell"]:
        for rn, R, c in (P3 if s.dim == 3 else list(zoo.poses(s.dim, T))):
            jobs.append((f"surface/{zoo.name(s)}/{rn}/{','.join(map(str, c))}", surface_case, (s.move(R, c),)))

    def job(k, items):
        for key, fn, a in items:
            k.run(key, fn, k, *a, repro=f"s={a[0]!r}")
    ck.pmap(job, [jobs[i::64] for i in range(64)])
    ck.sample(repr(jobs[3][2][0]))
