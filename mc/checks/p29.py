"""P29: reported sizes against exact measures, for every constructor, size and pose."""
from fractions import Fraction as F
from itertools import product, permutations
from math import comb, gamma, pi, sqrt
import numpy as np
from .. import exact as ex, zoo
from ..exact import farr, fr
from ..zoo import BoxS, EllS, CylS, CapS, PolyS, H


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12 + 1e-12 * float(np.max(np.abs(b), initial=0)))


def eq(ck, what, got, want, ctx):
    ck.step()
    ck.expect(near(got, want), what, lambda: f"{ctx}: {what} = {np.asarray(got).tolist()}, true value {np.asarray(want).tolist()}")


def rows_equal(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    used = set()
    for r in a:
        j = next((j for j in range(len(b)) if j not in used and np.allclose(b[j], r, atol=1e-9)), None)
        if j is None:
            return False
        used.add(j)
    return True


# -- boxes ---------------------------------------------------------------------
def box_measures(ck, b, spec, ctx):
    h = farr(spec.h)
    eq(ck, "volume", b.volume, float(8 * spec.h[0] * spec.h[1] * spec.h[2]), ctx)
    eq(ck, "diaglen", b.diaglen, 2 * sqrt(float(sum(x * x for x in spec.h))), ctx)
    eq(ck, "half_extents", b.half_extents, h, ctx)
    eq(ck, "side_lengths", b.side_lengths, 2 * h, ctx)
    eq(ck, "center", b.center, farr(spec.c), ctx)
    ck.expect(b.dim == 3, "dim", f"{ctx}: dim {b.dim}")
    W = np.array([farr(spec.to_world(tuple(s * x for s, x in zip(sg, spec.h)))) for sg in product((1, -1), repeat=3)])
    if all(spec.h):
        ck.expect(b.nv == 8 and rows_equal(b.vertices, W), "vertices", lambda: f"{ctx}: vertices {np.asarray(b.vertices).tolist()}, expected the corners {W.tolist()}")
        ck.expect(b.nf == 6, "nf", f"{ctx}: nf {b.nf}")
        # (beyond a size of about 10^4 cddlib loses facets: known finding of P03)
        P = b.as_poly() if max(spec.h) <= 5000 else None
        ck.expect(P is None or P.nv == 8 and P.nf == 6 and P.dim == 3, "as_poly", lambda: f"{ctx}: as_poly has nv {P.nv}, nf {P.nf}")
    d = np.asarray(b.vertices, float)
    # the longest distance between two vertices is the diagonal
    diag = max(np.linalg.norm(x - y) for x in d for y in d)
    eq(ck, "diaglen", b.diaglen, diag, ctx + " (largest vertex distance)")


def int_case(ck, side):
    """Integer sizes and integer array types, odd ones included."""
    import rigeo as rg
    s = BoxS([F(x, 2) for x in side])
    c = (1, -2, 3)
    sc = s.move(None, c)
    ck.state(("int", side)); ck.trace()
    for dt in (np.int64, np.int32, None):
        if dt is np.int32 and max(side) > 10**9:
            continue
        a = np.array(side, dtype=dt) if dt else list(side)
        cc = np.array(c, dtype=dt) if dt else list(c)
        ctx = f"{dt.__name__ if dt else 'list'} side lengths"
        box_measures(ck, rg.Box.from_side_lengths(a), s, ctx)
        box_measures(ck, rg.Box.from_side_lengths(a, center=cc), sc, ctx)
        for sg in product((1, -1), repeat=3):
            v1 = np.array([0 if t > 0 else x for t, x in zip(sg, side)], dtype=dt)
            v2 = np.array([x if t > 0 else 0 for t, x in zip(sg, side)], dtype=dt)
            want = s.move(None, [F(x, 2) for x in side])
            box_measures(ck, rg.Box.from_two_vertices(v1, v2), want, ctx + f" from_two_vertices{sg}")
            if max(side) <= 10**6:
                # an integer vertex together with a fractional one
                v2f = [float(x) + 0.5 if t > 0 else -0.5 for t, x in zip(sg, side)]
                w2 = BoxS([abs(fr(a) - fr(b)) / 2 for a, b in zip(v1.tolist(), v2f)], None, [(fr(a) + fr(b)) / 2 for a, b in zip(v1.tolist(), v2f)])
                first = v1 if dt else v1.tolist()
                for q in (np.array(v2f), v2f):
                    box_measures(ck, rg.Box.from_two_vertices(first, q), w2, ctx + f" from_two_vertices{sg} integer and fractional")
                    box_measures(ck, rg.Box.from_two_vertices(q, first), w2, ctx + f" from_two_vertices{sg} fractional and integer")
        V = np.array(list(product(*[(0, x) for x in side])), dtype=dt)
        box_measures(ck, rg.Box.from_points_to_bound(V), s.move(None, [F(x, 2) for x in side]), ctx + " from_points_to_bound")
        b = BoxS(side)
        box_measures(ck, rg.Box(a), b, ctx + " as half extents")
        if len(set(side)) == 1:
            box_measures(ck, rg.Box.cube(int(side[0]), center=cc), b.move(None, c), ctx + " cube")
            ell_measures(ck, rg.Ellipsoid.sphere(int(side[0]), center=cc), EllS(side, None, c), ctx + " sphere")
        ell_measures(ck, rg.Ellipsoid(a, center=cc), EllS(side, None, c), ctx + " ellipsoid")
        ell_measures(ck, rg.Ellipsoid(a[:2]), EllS(side[:2]), ctx + " ellipse")
        L, r = side[0], side[1]
        cs = CylS(L, r, None, c)
        k = rg.Cylinder(length=dt(L) if dt else L, radius=dt(r) if dt else r, center=cc)
        cyl_measures(ck, k, cs, ctx + " cylinder")
        cap_measures(ck, k.capsule(), cs, ctx + " capsule")
        Rz = np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]], dtype=dt)
        k = rg.Cylinder(L, r).transform(rotation=Rz, translation=cc)
        cyl_measures(ck, k, CylS(L, r, ex.mat([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), c), ctx + " cylinder.transform")
        if all(side):
            o = rg.ConvexPolyhedron.simplex(a)
            ck.expect(o.nv == 4 and o.nf == 4 and rows_equal(o.vertices, np.vstack((np.zeros(3), np.diag(side)))), "simplex", lambda: f"simplex({side}) of {ctx}: {np.asarray(o.vertices).tolist()}")
    ck.outcome("integer sizes")


def box_case(ck, h, poses):
    import rigeo as rg
    for rn, R, c in poses:
        s = BoxS(h, R, c)
        kw = s.pose_kw()
        ck.state(s.key); ck.trace()
        hf = farr(s.h)
        cons = [("Box", lambda: rg.Box(hf, **kw)), ("Box(list)", lambda: rg.Box(hf.tolist(), **kw)),
                ("from_side_lengths", lambda: rg.Box.from_side_lengths(2 * hf, **kw)),
                ("from_side_lengths(list)", lambda: rg.Box.from_side_lengths((2 * hf).tolist(), **kw))]
        if len(set(h)) == 1:
            cons.append(("cube", lambda: rg.Box.cube(float(h[0]), **kw)))
        if R == ex.eye(3):
            for sg in product((1, -1), repeat=3):
                v1 = farr(ex.add(s.c, tuple(a * b for a, b in zip(sg, s.h))))
                v2 = farr(ex.sub(s.c, tuple(a * b for a, b in zip(sg, s.h))))
                cons.append((f"from_two_vertices{sg}", lambda v1=v1, v2=v2: rg.Box.from_two_vertices(v1, v2)))
                cons.append((f"from_two_vertices{sg}(list)", lambda v1=v1, v2=v2: rg.Box.from_two_vertices(v1.tolist(), v2.tolist())))
            V = np.array([farr(s.to_world(tuple(a * b for a, b in zip(sg, s.h)))) for sg in product((1, -1), repeat=3)])
            cons.append(("from_points_to_bound", lambda: rg.Box.from_points_to_bound(V)))
            mid = np.vstack((V, farr(s.c)[None], 0.5 * (V + farr(s.c))))
            cons.append(("from_points_to_bound(interior)", lambda: rg.Box.from_points_to_bound(mid[::-1])))
        if not any(s.c) and R == ex.eye(3):
            cons.append(("Box(no pose)", lambda: rg.Box(hf)))
        for n, fn in cons:
            box_measures(ck, fn(), s, n)
            ck.outcome("constructor")
        b0 = rg.Box(hf)
        box_measures(ck, b0.transform(rotation=s.Rf, translation=s.cf), s, "transform")
        b1 = b0.transform(translation=s.cf).rotate_about_center(s.Rf)
        box_measures(ck, b1, s, "rotate_about_center")
    # scaling
    b = rg.Box(farr(h))
    for k in (2, 0.5, 3):
        b2 = rg.Box(k * farr(h))
        eq(ck, "volume", b2.volume, k ** 3 * b.volume, f"scaled by {k}")
        eq(ck, "diaglen", b2.diaglen, k * b.diaglen, f"scaled by {k}")


# -- ellipsoids ------------------------------------------------------------------
def unit_ball(d):
    """exact recursion V_d = 2 pi / d V_{d-2}"""
    return 1.0 if d == 0 else 2.0 if d == 1 else 2 * pi / d * unit_ball(d - 2)


def ell_measures(ck, e, s, ctx):
    d = s.dim
    p = F(1)
    for x in s.h:
        p *= x
    eq(ck, "volume", e.volume, unit_ball(d) * float(p), ctx)
    ck.expect(e.dim == d, "dim", f"{ctx}: dim {e.dim}")
    r = sum(1 for x in s.h if x)
    ck.expect(e.rank == r and bool(e.is_degenerate()) == (r < d), "rank", lambda: f"{ctx}: rank {e.rank}, degenerate {e.is_degenerate()}")
    eq(ck, "half_extents", e.half_extents, farr(s.h), ctx)
    eq(ck, "center", e.center, farr(s.c), ctx)


def ell_case(ck, h, poses):
    import rigeo as rg
    d = len(h)
    for rn, R, c in poses:
        s = EllS(h, R, c)
        kw = s.pose_kw()
        ck.state(s.key); ck.trace(); ck.outcome("constructor")
        ell_measures(ck, rg.Ellipsoid(farr(s.h), **kw), s, "Ellipsoid")
        ell_measures(ck, rg.Ellipsoid(farr(s.h).tolist(), **kw), s, "Ellipsoid(list)")
        ell_measures(ck, rg.Ellipsoid(farr(s.h)).transform(rotation=s.Rf, translation=s.cf), s, "transform")
        ell_measures(ck, rg.Ellipsoid(farr(s.h), **({"center": s.cf} if any(s.c) else {})).rotate_about_center(s.Rf), s, "rotate_about_center")
        if d == 1:
            ell_measures(ck, rg.Ellipsoid(float(h[0]), **kw), s, "Ellipsoid(scalar)")
        if len(set(h)) == 1 and R == ex.eye(d):
            ell_measures(ck, rg.Ellipsoid.sphere(float(h[0]), center=s.cf), s, "sphere")
            ell_measures(ck, rg.Ellipsoid.sphere(float(h[0]), center=s.cf.tolist()), s, "sphere(list)")
            if d == 3 and not any(s.c):
                ell_measures(ck, rg.Ellipsoid.sphere(radius=float(h[0])), s, "sphere(default)")
    e = rg.Ellipsoid(farr(h))
    for k in (2, 0.5):
        eq(ck, "volume", rg.Ellipsoid(k * farr(h)).volume, k ** d * e.volume, f"scaled by {k}")


def ell_high(ck, d):
    import rigeo as rg
    h = [F(i % 3 + 1, 2) for i in range(d)]
    s = EllS(h)
    ck.state(s.key); ck.trace()
    ell_measures(ck, rg.Ellipsoid(farr(s.h)), s, f"dimension {d}")
    s = EllS([F(3, 2)] * d, None, [F(i) for i in range(d)])
    ell_measures(ck, rg.Ellipsoid.sphere(1.5, center=s.cf), s, f"sphere in dimension {d}")


# -- cylinders and capsules ---------------------------------------------------------
def cyl_measures(ck, c, s, ctx):
    L, r = float(s.L), float(s.r)
    eq(ck, "volume", c.volume, pi * r * r * L, ctx)
    eq(ck, "length", c.length, L, ctx)
    eq(ck, "radius", c.radius, r, ctx)
    eq(ck, "center", c.center, s.cf, ctx)
    ax = s.Rf[:, 2]
    ends = np.array([s.cf + ax * L / 2, s.cf - ax * L / 2])
    got = np.asarray(c.endpoints(), float)
    ck.step()
    ck.expect(rows_equal(got, ends), "endpoints", lambda: f"{ctx}: endpoints {got.tolist()}, expected {ends.tolist()}")
    la = np.asarray(c.longitudinal_axis, float)
    ck.expect(la.shape == (3,) and abs(abs(la @ ax) - 1) < 1e-9 and abs(np.linalg.norm(la) - 1) < 1e-9, "axis", lambda: f"{ctx}: longitudinal axis {la.tolist()}")
    ta = np.asarray(c.transverse_axes, float)
    ck.expect(ta.shape == (3, 2) and np.allclose(ta.T @ ta, np.eye(2), atol=1e-9) and np.allclose(ax @ ta, 0, atol=1e-9), "axes", lambda: f"{ctx}: transverse axes {ta.tolist()}")


def cap_measures(ck, c, s, ctx):
    L, r = float(s.L), float(s.r)
    eq(ck, "inner_length", c.inner_length, L, ctx)
    eq(ck, "radius", c.radius, r, ctx)
    eq(ck, "full_length", c.full_length, L + 2 * r, ctx)
    eq(ck, "center", c.center, s.cf, ctx)
    ck.expect(np.allclose(np.abs(np.asarray(c.rotation)[:, 2] @ s.Rf[:, 2]), 1, atol=1e-9), "axis", f"{ctx}: rotation")
    # full length along the axis, 2 r across
    ax = s.Rf[:, 2]
    k = max(1.0, L / 2 + r)
    for t, want in ((L / 2 + r - 1e-6, True), (L / 2 + r + 1e-5 * k, False)):
        ck.step()
        ck.expect(bool(c.contains(s.cf + t * ax)) == want, "full_length", f"{ctx}: contains point at {t} along the axis: {not want}")


def cyl_case(ck, L, r, poses):
    import rigeo as rg
    for rn, R, c in poses:
        s = CylS(L, r, R, c)
        kw = s.pose_kw()
        ck.state(s.key); ck.trace(2); ck.outcome("constructor")
        k = rg.Cylinder(float(L), float(r), **kw)
        k2 = rg.Cylinder(length=float(L), radius=float(r)).transform(rotation=s.Rf, translation=s.cf)
        for n, o in (("Cylinder", k), ("transform", k2)):
            cyl_measures(ck, o, s, n)
            cap_measures(ck, o.capsule(), s, n + ".capsule()")
            cap_measures(ck, rg.Capsule(o), s, f"Capsule({n})")
        cap_measures(ck, rg.Capsule(rg.Cylinder(float(L), float(r))).transform(rotation=s.Rf, translation=s.cf), s, "Capsule.transform")
    for q in (2, 0.5):
        eq(ck, "volume", rg.Cylinder(q * float(L), q * float(r)).volume, q ** 3 * pi * float(r * r * L), f"scaled by {q}")


# -- polyhedra --------------------------------------------------------------------
def poly_case(ck, V, poses):
    import rigeo as rg
    spec = PolyS(V)
    d = spec.dim
    hl = ex.Hull(spec.V)
    full = hl.affdim == d
    for rn, R, c in poses:
        s = PolyS(V, R, c)
        W = farr(s.world_V)
        ck.state(s.key); ck.trace(); ck.outcome(f"poly-affdim{hl.affdim}")
        objs = [("from_vertices", rg.ConvexPolyhedron.from_vertices(W)),
                ("from_vertices(prune)", rg.ConvexPolyhedron.from_vertices(np.vstack((W, W[:1])), prune=True)),
                ("from_vertices(list)", rg.ConvexPolyhedron.from_vertices(W.tolist())),
                ("span form", rg.ConvexPolyhedron(span_form=rg.SpanForm(vertices=W)))]
        objs.append(("transform", rg.ConvexPolyhedron.from_vertices(farr(spec.V)).transform(rotation=s.Rf, translation=s.cf)))
        if len(spec.V) > 1:
            mid = 0.5 * (W[0] + W[1])
            objs.append(("from_vertices(prune, interior)", rg.ConvexPolyhedron.from_vertices(np.vstack((W, mid)), prune=True)))
        if full:
            F_ = np.array([np.append(farr(f)[:-1], farr(f)[-1]) for f in hl.facets])
            A, b = -F_[:, :-1] @ s.Rf.T, F_[:, -1]
            b = b + A @ s.cf
            objs.append(("from_halfspaces", rg.ConvexPolyhedron.from_halfspaces(A, b)))
            A2, b2 = np.vstack((A, A[:1])), np.append(b, b[0] + 5)
            objs.append(("from_halfspaces(prune)", rg.ConvexPolyhedron.from_halfspaces(A2, b2, prune=True)))
        for n, o in objs:
            ck.step(3)
            ck.expect(o.dim == d, "dim", f"{n}: dim {o.dim}")
            ck.expect(o.nv == len(W) == len(o.vertices) and rows_equal(o.vertices, W), "nv", lambda: f"{n}: {o.nv} vertices, expected {len(W)}: {np.asarray(o.vertices).tolist()}")
            if full:
                ck.expect(o.nf == len(hl.facets) == len(o.A) == len(o.b), "nf", lambda: f"{n}: {o.nf} faces, expected {len(hl.facets)}")
            ck.expect(o.span_form.nv == len(W) and o.span_form.nr == 0 and o.span_form.dim == d and o.face_form.dim == d and o.face_form.nf == o.nf, "form counts", f"{n}: span form nv {o.span_form.nv}, nr {o.span_form.nr}, dims {o.span_form.dim}/{o.face_form.dim}")


def cone_counts(ck, d):
    import rigeo as rg
    E = np.eye(d)
    for nr in range(1, d + 1):
        for withv in (False, True):
            s = rg.SpanForm(rays=E[:nr]) if not withv else rg.SpanForm(vertices=np.zeros((1, d)), rays=E[:nr])
            ck.step(); ck.trace(); ck.state(("cone", d, nr, withv))
            ck.expect(s.nr == nr and s.nv == int(withv) and s.dim == d, "cone counts", lambda: f"nv {s.nv}, nr {s.nr}, dim {s.dim}")
            s2 = s.transform(rotation=E[::-1] if d > 1 else E)
            ck.expect(s2.nr == nr and s2.dim == d and s2.nv == int(withv), "cone counts", "after transform")


def simplex_case(ck, e):
    import rigeo as rg
    d = len(e)
    V = np.vstack((np.zeros(d), np.diag(farr(e))))
    for arg in (farr(e), farr(e).tolist(), tuple(farr(e).tolist())):
        o = rg.ConvexPolyhedron.simplex(arg)
        ck.step(); ck.trace(); ck.state(("simplex", e))
        ck.expect(o.dim == d and o.nv == d + 1 and o.nf == d + 1 and rows_equal(o.vertices, V), "simplex", lambda: f"simplex({e}): nv {o.nv}, nf {o.nf}, vertices {np.asarray(o.vertices).tolist()}")
    # volume of the denoted set through its box: bounding extents
    if d == 3:
        b = rg.ConvexPolyhedron.simplex(farr(e)).aabb()
        eq(ck, "aabb volume", b.volume, float(e[0] * e[1] * e[2]), f"simplex({e})")


def main(ck):
    T = ck.thorough
    P = {d: list(zoo.poses(d, T)) for d in (1, 2, 3, 4)}
    jobs = []
    ext = (F(0), F(1, 2), F(1), F(3)) if not T else (F(0), F(1, 10), F(1, 2), F(1), F(3), F(100))
    for h in product(ext, repeat=3):
        if not T and h != tuple(sorted(h)) and any(x == 0 for x in h):
            continue
        jobs.append((f"box/{','.join(map(str, h))}", box_case, (h, P[3])))
    for d in (1, 2, 3, 4):
        for h in product(ext if d < 4 else (F(0), F(1, 2), F(3)), repeat=d):
            jobs.append((f"ell/{','.join(map(str, h))}", ell_case, (h, P[d])))
    K = F(1, 1000)
    RP = {d: list(zoo.reg_poses(d)) for d in (1, 2, 3, 4)}
    for h in [(1, 2, K / 2), (K, K / 2, 2 * K), (300, 100, 200), (F(1, 100), F(1, 200), 50), (K, K, K), (500, 500, 500)]:
        jobs.append((f"box/regime/{','.join(map(str, h))}", box_case, (tuple(map(fr, h)), list(zoo.reg_poses(3, True)))))
    for h in [(K,), (500,), (K, 1), (200, K), (K, 0), (K, 2 * K, K / 2), (300, 100, 200), (1, 2, K / 2), (0, K, 0), (K, K, K), (10, F(9, 1000), 0), (1, K, 2, H), (1, K, 0, H)]:
        jobs.append((f"ell/regime/{','.join(map(str, h))}", ell_case, (tuple(map(fr, h)), RP[len(h)])))
    for L, r in ((2, K / 2), (K / 2, 1), (2 * K, K), (400, 100)):
        jobs.append((f"cyl/regime/{L}/{r}", cyl_case, (fr(L), fr(r), RP[3])))
    for side in list(product((1, 2, 5), repeat=3)) + [zoo.BIG32, zoo.BIG32[::-1], (50_000,) * 3, zoo.BIG64, (2_000_000_000,) * 3]:
        jobs.append((f"int/{','.join(map(str, side))}", int_case, (side,)))
    for d in range(1, ck.pick(9, 16)):
        jobs.append((f"ell-dim/{d}", ell_high, (d,)))
    for L, r in product((F(0), F(1, 5), F(1), F(3)), (F(0), F(1, 2), F(1), F(4))):
        if r > 0:
            jobs.append((f"cyl/{L}/{r}", cyl_case, (L, r, P[3])))
    polys = [zoo.TET, zoo.OCT, zoo.PYR, zoo.PRISM, zoo.SQ3, zoo.SEG3, zoo.PT3, zoo.TRI2, zoo.QUAD2, zoo.SEG2, zoo.SEG1, zoo.SIMP4,
             [(x, y, z) for x in (0, 1) for y in (0, 2) for z in (0, 3)], [(1, 2)], [(5,)], [(0, 0), (1, 0), (0, 1), (2, 1), (1, 2)]]
    for V in polys:
        jobs.append((f"poly/{';'.join(','.join(map(str, v)) for v in V)}", poly_case, (V, P[len(V[0])])))
    for d in (1, 2, 3, 4):
        jobs.append((f"cones/{d}", cone_counts, (d,)))
        for e in product((F(1, 2), F(1), F(3)), repeat=d):
            jobs.append((f"simplex/{','.join(map(str, e))}", simplex_case, (e,)))

    def job(k, items):
        for key, fn, a in items:
            k.run(key, fn, k, *a, repro=f"{fn.__name__}({a[0]!r})")
    ck.pmap(job, [jobs[i::48] for i in range(48)])
    ck.sample(jobs[9][0]); ck.sample(jobs[-1][0])
