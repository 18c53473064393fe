"""P07: minimum bounding ellipsoids and spheres: containment plus duality certificates."""
from fractions import Fraction as F
from itertools import combinations, product
import numpy as np
import cvxpy as cp
from .. import zoo, exact as ex, optim
from ..exact import farr, fr
from ..optim import SPH

TOL_IN = 2e-4
TOL_OPT = 2e-3  # on log det E
S = dict(solver=cp.CLARABEL)


def parts(ell):
    """(E, c, rotation) as observed through public attributes."""
    h = np.asarray(ell.half_extents, float)
    R = np.asarray(ell.rotation, float)
    return R @ np.diag(h ** 2) @ R.T, np.asarray(ell.center, float), R


def sane(ck, ell, d, what):
    import rigeo as rg
    ok = ck.expect(isinstance(ell, rg.Ellipsoid), "type", lambda: f"{what}: result is {type(ell)}")
    if not ok:
        return False
    E, c, R = parts(ell)
    ok = ck.expect(E.shape == (d, d) and c.shape == (d,), "shape", f"{what}: wrong dimensions")
    ok = ok and ck.expect(bool(np.all(np.isfinite(E)) and np.all(np.isfinite(c))), "finite", f"{what}: not finite")
    return ok and ck.expect(np.max(np.abs(R.T @ R - np.eye(d))) < 1e-6, "rotation", lambda: f"{what}: rotation attribute is not orthonormal: {R.tolist()}")


def flat_basis(P):
    """Orthonormal basis (d, k) of the directions of the affine hull of exact points and of its complement."""
    o, D = ex.affine_basis(P)
    d = len(o)
    if not D:
        return farr(o), np.zeros((d, 0)), np.eye(d)
    Q, _ = np.linalg.qr(farr(D).T, mode="complete")
    return farr(o), Q[:, :len(D)], Q[:, len(D):]


def check_points_mbe(ck, ell, P, sphere, what, X=None):
    """P: exact points (to get the affine hull); X: float points actually bounded."""
    d = len(P[0])
    ck.trace()
    if not sane(ck, ell, d, what):
        return
    E, c, _ = parts(ell)
    Xf = farr(P) if X is None else X
    o, B, N = flat_basis(P)
    s = max(1e-9, float(np.max(np.abs(Xf - Xf[0]))))
    ck.step(len(Xf))
    if B.shape[1] == 0:
        ck.expect(np.max(np.abs(E)) < 1e-12 and np.allclose(c, o, atol=1e-9), "point", f"{what}: not the single point")
        return
    k = B.shape[1]
    if N.shape[1] and not sphere:
        ck.expect(np.max(np.abs(N.T @ E @ N)) < 1e-12 * s * s and np.max(np.abs(N.T @ (c - o))) < 1e-6 * s,
                  "not-flat", lambda: f"{what}: bounding ellipsoid of a flat set is not flat in its plane (E={E.tolist()}, c={c.tolist()})")
        ck.expect(bool(ell.is_degenerate()), "not-degenerate", f"{what}: ellipsoid of a flat set not reported degenerate")
        ck.expect(int(ell.rank) == k, "rank", lambda: f"{what}: rank {ell.rank}, set spans {k} dimensions")
    Ep, cp_ = B.T @ E @ B, B.T @ (c - o)
    Y = (Xf - o) @ B
    Z = Y - cp_
    q = np.einsum("ij,jk,ik->i", Z, np.linalg.inv(Ep), Z)
    ck.expect(q.max() <= 1 + TOL_IN, "not-bounding", lambda: f"{what}: point {Xf[int(q.argmax())].tolist()} lies outside (level {q.max():.6f})")
    ck.expect(bool(np.all(ell.contains(Xf, tol=1e-3))), "contains", lambda: f"{what}: contains() is False for a bounded point")
    if sphere:
        w = np.linalg.eigvalsh(Ep)
        ck.expect(w[-1] - w[0] < 1e-5 * w[-1], "not-sphere", lambda: f"{what}: not a sphere: {ell.half_extents}")
        r = optim.min_sphere(Y)[0]
        ck.expect(np.sqrt(w[-1]) <= r * (1 + 1e-3), "not-minimal-sphere", lambda: f"{what}: radius {np.sqrt(w[-1])}, smallest enclosing sphere has {r}")
        return
    have = np.linalg.slogdet(Ep)[1]
    lb = optim.mvee_lower_logdet(Y, Ep, cp_)
    if have > lb + TOL_OPT:
        lb = max(lb, optim.mult_logdet(Y))
    ck.expect(have <= lb + TOL_OPT, "not-minimal", lambda: f"{what}: log det {have:.6f}, but an ellipsoid with {lb:.6f} bounds the set")


# ---- cases -----------------------------------------------------------------
def pts_case(ck, P, spheres=True, as_poly=False, X=None):
    import rigeo as rg
    P = [tuple(map(fr, p)) for p in P]
    ck.state(tuple(P))
    Xf = farr(P) if X is None else X
    full = ex.affine_basis(P)[1].__len__() == len(P[0])
    ck.outcome("full" if full else f"flat{len(ex.affine_basis(P)[1])}")
    X0 = Xf.copy()
    ck.step()
    check_points_mbe(ck, rg.mbe_of_points(Xf, **S), P, False, "mbe_of_points", Xf)
    ck.expect(np.array_equal(Xf, X0), "mutated", "mbe_of_points modified its argument")
    if full and spheres:
        ck.step()
        check_points_mbe(ck, rg.mbe_of_points(Xf, sphere=True, **S), P, True, "mbe_of_points(sphere)", Xf)
    if as_poly:
        ck.step(2)
        p = rg.ConvexPolyhedron.from_vertices(Xf)
        check_points_mbe(ck, p.mbe(**S), P, False, "ConvexPolyhedron.mbe", Xf)
        if full:
            check_points_mbe(ck, p.mbe(sphere=True, **S), P, True, "ConvexPolyhedron.mbe(sphere)", Xf)


def moved(E, c, R, t):
    return R @ E @ R.T, R @ c + t


def pose_case(ck, spec):
    """All poses of one shape: certificate at the identity, equality to the moved result elsewhere."""
    import rigeo as rg
    full = not (spec.kind in ("box", "ell") and 0 in spec.h) and not (spec.kind == "poly" and spec.hull.eqs)
    base = {}
    for rn, R, c in zoo.poses(spec.dim, ck.thorough):
        s = spec.move(R, c)
        ck.state(s.key)
        obj = s.build()
        for sphere in (False, True):
            if sphere and not full:
                continue
            if spec.kind in ("cap", "poly"):
                ell = obj.mbe(**SPH[sphere], **S)
            else:
                ell = obj.mbe(**SPH[sphere])
            ck.step()
            what = f"mbe(sphere={sphere}) at pose {rn},{farr(c).tolist()}"
            if not sane(ck, ell, spec.dim, what):
                continue
            E, cc, _ = parts(ell)
            want = reference(spec, sphere)
            if want is None:
                if sphere not in base:
                    # polyhedra: certificate
                    check_points_mbe(ck, ell, [tuple(map(fr, v)) for v in s.world_V], sphere, what)
                    base[sphere] = moved(E, cc, s.Rf.T, -s.Rf.T @ s.cf)
                want = base[sphere]
            We, wc = moved(*want, s.Rf, s.cf)
            sc = np.max(np.abs(We))
            ck.trace()
            # closed forms are accurate; solver results are not
            ae, ac = (1e-7, 1e-7) if spec.kind in ("box", "ell", "cyl") else (2e-3, 1e-3)
            ck.expect(np.allclose(E, We, atol=ae * sc, rtol=0) and np.allclose(cc, wc, atol=ac * np.sqrt(sc), rtol=1e-12), "differs",
                      lambda: f"{what}: E={E.tolist()}, c={cc.tolist()}; minimal bounding set has E={We.tolist()}, c={wc.tolist()}")


_REF = {}


def reference(spec, sphere):
    """(E, c) of the minimal bounding ellipsoid/sphere in the local frame."""
    k = (spec.kind, spec.local_key(), sphere)
    if k not in _REF:
        _REF[k] = _reference(spec, sphere)
    return _REF[k]


def _reference(spec, sphere):
    z = np.zeros(spec.dim)
    if spec.kind == "box":
        h = np.array([float(x) for x in spec.h])
        if sphere:
            return np.eye(3) * (h @ h), z
        return np.diag(h * h) * np.count_nonzero(h), z
    if spec.kind == "ell":
        h = np.array([float(x) for x in spec.h])
        return (np.eye(spec.dim) * h.max() ** 2 if sphere else np.diag(h * h)), z
    L, r = (float(spec.L), float(spec.r)) if spec.kind in ("cyl", "cap") else (0, 0)
    if spec.kind == "cyl":
        if sphere:
            return np.eye(3) * (r * r + L * L / 4), z
        return np.diag([1.5 * r * r, 1.5 * r * r, 3 * L * L / 4]), z
    if spec.kind == "cap":
        if sphere:
            return np.eye(3) * (L / 2 + r) ** 2, z
        a2, b2 = capsule_axes(L / 2, r)
        return np.diag([a2, a2, b2]), z
    return None


def capsule_axes(h, r):
    """Squared semi-axes of the smallest ellipsoid of revolution bounding two balls (by uniqueness and symmetry it is the MVEE)."""
    cs = np.linspace(0, 1, 20001)[:-1]

    def a2(b2):
        v = ((h * cs + r) ** 2 - b2 * cs ** 2) / (1 - cs ** 2)
        return max(v.max(), r * r)
    lo, hi = (h + r) ** 2 * (1 + 1e-12), (3 * (h + r)) ** 2
    g = (np.sqrt(5) - 1) / 2
    f = lambda b2: 2 * np.log(a2(b2)) + np.log(b2)
    a, b = lo, hi
    for _ in range(120):
        x1, x2 = b - g * (b - a), a + g * (b - a)
        if f(x1) < f(x2):
            b = x2
        else:
            a = x1
    b2 = 0.5 * (a + b)
    return a2(b2), b2


def contact_points(spec, E, c):
    """Local maxima over the ellipsoid spec of the convex quadratic (x-c)'E^-1(x-c), from many starts."""
    Ei = np.linalg.inv(E)
    out = []
    for u in zoo.dirs(spec.dim, big=True):
        x = spec.support_point(u)
        for _ in range(300):
            y = spec.support_point(Ei @ (x - c))
            if np.linalg.norm(y - x) < 1e-12:
                break
            x = y
        out.append(x)
    # ends of the principal axes (these alone determine a single ellipsoid)
    for a in spec.Rf.T:
        out += [spec.support_point(a), spec.support_point(-a)]
    return np.array(out)


def ells_case(ck, specs, sphere):
    import rigeo as rg
    ck.state(tuple(s.key for s in specs) + (sphere,))
    ck.outcome(f"{len(specs)} ellipsoids" + (" sphere" if sphere else ""))
    ell = rg.mbe_of_ellipsoids([s.build() for s in specs], **SPH[sphere], **S)
    ck.step()
    ck.trace()
    what = f"mbe_of_ellipsoids(sphere={sphere})"
    if not sane(ck, ell, specs[0].dim, what):
        return
    E, c, _ = parts(ell)
    X = np.vstack([contact_points(s, E, c) for s in specs])
    Ei = np.linalg.inv(E)
    q = np.einsum("ij,jk,ik->i", X - c, Ei, X - c)
    ck.expect(q.max() <= 1 + TOL_IN, "not-bounding", lambda: f"{what}: {X[int(q.argmax())].tolist()} of a given ellipsoid lies outside (level {q.max():.6f})")
    for s in specs:
        for u in zoo.dirs(s.dim, big=True):
            ck.step()
            ck.expect(s.support(u) <= u @ c + np.sqrt(u @ E @ u) * (1 + TOL_IN) + 1e-9, "not-bounding", f"{what}: support exceeds the result's in direction {u.tolist()}")
    if sphere:
        w = np.linalg.eigvalsh(E)
        ck.expect(w[-1] - w[0] < 1e-4 * w[-1], "not-sphere", lambda: f"{what}: {ell.half_extents}")
        # farthest points of each ellipsoid
        I = np.eye(len(c))
        Y = np.vstack([contact_points(s, I, c) for s in specs])
        lb = optim.sphere_lower(Y, c)
        ck.expect(np.sqrt(w[-1]) <= lb * (1 + 2e-3), "not-minimal-sphere", lambda: f"{what}: radius {np.sqrt(w[-1])}, lower bound {lb}")
        return
    have = np.linalg.slogdet(E)[1]
    lb = optim.mvee_lower_logdet(X, E, c)
    if have > lb + TOL_OPT:
        lb = max(lb, optim.mult_logdet(X))
    ck.expect(have <= lb + TOL_OPT, "not-minimal", lambda: f"{what}: log det {have:.6f}, attainable lower bound {lb:.6f}")


def main(ck):
    T = ck.thorough
    jobs = []
    # 1-D
    for sub in [s for k in (1, 2, 3) for s in combinations([(-2,), (0,), (1,), (F(7, 2),)], k)]:
        jobs.append((f"pts1/{sub}", pts_case, (sub,)))
    # 2-D: all subsets of a sheared 3x3 grid
    M = ex.mat([[2, 1], [F(1, 2), 1]])
    g2 = [ex.add(ex.mv(M, tuple(map(fr, p))), (F(1), F(-2))) for p in product((-1, 0, 1), repeat=2)]
    for k in (1, 2, 3, 4) + ((5, 6) if T else ()):
        for i, sub in enumerate(combinations(g2, k)):
            jobs.append((f"pts2/{k}/{i}", pts_case, (sub,)))
    # 3-D: subsets of the vertices of a sheared cube plus its centre
    M = ex.mat([[2, 1, 0], [0, 1, F(1, 2)], [F(1, 2), 0, 1]])
    g3 = [ex.add(ex.mv(M, tuple(map(fr, p))), (F(-1), F(2), F(1, 2))) for p in list(product((-1, 1), repeat=3)) + [(0, 0, 0)]]
    for k in range(1, 10):
        for i, sub in enumerate(combinations(g3, k)):
            if not T and k in (4, 5, 6) and i % 2:
                continue
            jobs.append((f"pts3/{k}/{i}", pts_case, (sub, True, k in (4, 5) and i % 4 == 0)))
    # 4-D
    s4 = [tuple(map(fr, v)) for v in zoo.SIMP4]
    c4 = [tuple(F(s) if j == i else F(0) for j in range(4)) for i in range(4) for s in (2, -1)]
    jobs += [("pts4/simplex", pts_case, (s4,)), ("pts4/cross", pts_case, (c4,)), ("pts4/flat3", pts_case, (s4[:4],)), ("pts4/flat2", pts_case, (s4[1:4],))]
    # duplicates, many points
    jobs.append(("pts/dup", pts_case, ([g2[0], g2[1], g2[1], g2[3], g2[0]],)))
    jobs.append(("pts/dup1", pts_case, ([g2[0], g2[0]],)))
    jobs.append(("pts/many3", pts_case, ([tuple(map(fr, p)) for p in product((0, 1, 3), (0, 2), (-1, 0, 1))],)))
    for sc in (F(1, 100), F(50)):
        jobs.append((f"pts/scale{sc}", pts_case, ([ex.sc(sc, p) for p in g3[:5]],)))
    # thin (but not flat), tiny and large sets, far from the origin, many points
    th = {"z/128": (1, 1, F(1, 128)), "y/200": (1, F(1, 200), 1), "z*100": (1, 1, 100), "yz": (1, F(1, 64), F(1, 64)), "tiny": (F(1, 2000),) * 3, "huge": (500,) * 3}
    for nm, k3 in th.items():
        for R in ("I", "third") if not T else ("I", "third", "z345", "x345*third"):
            for n in (4, 5, 7):
                P = [ex.mv(ex.R3[R], tuple(a * fr(b) for a, b in zip(p, k3))) for p in g3[9 - n:]]
                jobs.append((f"pts/thin/{nm}/{R}/{n}", pts_case, (P,)))
            P = [ex.mv(ex.R3[R], (p[0] * fr(k3[0]), p[1] * fr(k3[1]), F(0))) for p in g2]
            jobs.append((f"pts/thinflat/{nm}/{R}", pts_case, (P,)))
    for nm, k2 in (("y/128", (1, F(1, 128))), ("x/500", (F(1, 500), 1)), ("tiny", (F(1, 2000),) * 2)):
        for n in (3, 4, 9):
            jobs.append((f"pts2/thin/{nm}/{n}", pts_case, ([tuple(a * fr(b) for a, b in zip(p, k2)) for p in g2[:n]],)))
    for n, P in ((5, g3[:5]), (9, g3)):
        jobs.append((f"pts/far/{n}", pts_case, ([ex.add(p, (F(100), F(-300), F(50))) for p in P],)))
    jobs.append(("pts/ball24", pts_case, (zoo.BALL20,)))
    jobs.append(("pts/int", pts_case, (P0 := [(0, 0, 0), (3, 0, 0), (0, 2, 0), (1, 1, 4), (-1, 2, 1)], True, False, np.array(P0))))
    # posed shapes
    for sp in zoo.LOCAL3_T + zoo.LOCAL_LOW + zoo.LOCAL4 + [x for x in zoo.REG3 + zoo.REG_LOW + zoo.REG4 if x.kind not in ("cap", "poly")]:
        jobs.append((f"pose/{zoo.name(sp)}", pose_case, (sp,)))
    for sp in zoo.VIA3 + zoo.VIA_LOW:
        for m in zoo.MODES if T else ("steps", "used", "centre")[: 2 + (sp.kind in ("box", "ell"))]:
            if not (m == "centre" and sp.kind not in ("box", "ell")):
                jobs.append((f"via/{m}/{zoo.name(sp)}", pose_case, (zoo.via(sp, m),)))
    # sets of ellipsoids
    e3 = [zoo.EllS((1, 1, 1)), zoo.EllS((1, 2, F(1, 2))), zoo.EllS((3, 1, 1), ex.R3["third"], (1, 0, 2)), zoo.EllS((F(1, 2),) * 3, None, (3, 0, 0)), zoo.EllS((1, F(1, 4), 2), ex.R3["z345"], (-1, 2, 0))]
    e2 = [zoo.EllS((1, 1)), zoo.EllS((2, F(1, 2)), ex.R2["345"], (1, 1)), zoo.EllS((F(1, 2), 3), None, (-2, 0)), zoo.EllS((1, 1), None, (4, 1))]
    e1 = [zoo.EllS((1,)), zoo.EllS((2,), None, (3,))]
    # overlapping and nested ones: every subset of a lattice of sizes and offsets
    o3 = [zoo.EllS((1, 1, 1)), zoo.EllS((F(9, 10), F(4, 5), F(4, 5)), None, (F(9, 10), 0, 0)), zoo.EllS((F(1, 2),) * 3, None, (F(-1, 5), F(3, 10), 0)),
          zoo.EllS((F(1, 2), F(1, 2), F(9, 10)), None, (0, 0, F(1, 2))), zoo.EllS((1, 1, 1), None, (0, F(1, 4), 0)), zoo.EllS((2, F(1, 2), F(1, 2)), ex.R3["z345"], (0, 0, 0))]
    o2 = [zoo.EllS((1, 1)), zoo.EllS((F(9, 10), F(4, 5)), None, (F(9, 10), 0)), zoo.EllS((F(1, 2),) * 2, None, (F(-1, 5), F(3, 10))), zoo.EllS((F(1, 4), 2), None, (0, F(1, 2)))]
    o1 = [zoo.EllS((1,)), zoo.EllS((F(1, 2),), None, (F(3, 4),)), zoo.EllS((F(1, 4),), None, (F(1, 4),)), zoo.EllS((1,), None, (F(-1, 4),))]
    # a large one with small or slender ones sticking out of it
    m3 = [zoo.EllS((2, 2, 2)), zoo.EllS((F(9, 10), F(1, 2), F(1, 2)), None, (F(9, 5), 0, 0)), zoo.EllS((F(1, 10),) * 3, ex.R3["third"], (0, 0, 2)), zoo.EllS((F(1, 20), 1, F(1, 20)), None, (0, F(3, 2), 0))]
    m2 = [zoo.EllS((3, 2)), zoo.EllS((F(1, 5), F(3, 2)), None, (0, 1)), zoo.EllS((F(1, 10),) * 2, None, (-3, 0)), zoo.EllS((F(1, 2), F(1, 10)), ex.R2["345"], (F(5, 2), F(1, 2)))]
    m1 = [zoo.EllS((3,)), zoo.EllS((F(1, 10),), None, (3,)), zoo.EllS((F(1, 3),), None, (F(-14, 5),)), zoo.EllS((F(1, 100),), None, (0,))]
    for nm, es in (("m1", m1), ("m2", m2), ("m3", m3), ("e1", e1), ("o1", o1), ("o2", o2), ("o3", o3), ("e2", e2), ("e3", e3)):
        for k in range(1, len(es) + 1):
            for i, sub in enumerate(combinations(es, k)):
                for sphere in (False, True):
                    jobs.append((f"ells/{nm}/{k}/{i}/{sphere}", ells_case, (sub, sphere)))

    def thin(k, fn, *a):
        """The solver may give up (loudly) on badly scaled sets; a wrong answer is still a violation."""
        try:
            fn(k, *a)
        except cp.error.SolverError:
            k.outcome("solver gave up on a thin set")

    def job(k, items):
        for key, fn, a in items:
            if "thin" in key:
                k.run(key, thin, k, fn, *a, repro=repr(a))
            else:
                k.run(key, fn, k, *a, repro=repr(a))
    ck.pmap(job, [jobs[i::64] for i in range(64)])
    ck.sample(dict(points=farr(g3[:5]).tolist()))
