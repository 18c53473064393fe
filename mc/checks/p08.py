"""P08: inscribed ellipsoids and inscribed/bounding boxes: containment plus duality certificates / closed forms."""
from fractions import Fraction as F
from itertools import combinations, product
import numpy as np
import cvxpy as cp
from .. import zoo, exact as ex, optim
from ..exact import farr, fr
from ..optim import SPH
from .p07 import parts, sane, flat_basis, moved

S = dict(solver=cp.CLARABEL)
TOL_IN = 2e-4
TOL_OPT = 2e-3


def plane_rows(P):
    """Unit-normal rows of the exact polytope conv(P), in coordinates of its affine hull: (o, B, N, A, b)."""
    o, B, N = flat_basis(P)
    H = ex.Hull(P)
    A, b = [], []
    for f in H.facets:
        a = farr(f)
        n = B.T @ a[:-1]
        if np.linalg.norm(n) < 1e-12:
            continue
        # a.(x,1) >= 0 with x = o + B y
        beta = a[:-1] @ o + a[-1]
        A.append(-n / np.linalg.norm(n))
        b.append(beta / np.linalg.norm(n))
    return o, B, N, np.array(A), np.array(b)


def check_mie(ck, ell, P, sphere, what, tol=TOL_OPT):
    d = len(P[0])
    ck.trace()
    if not sane(ck, ell, d, what):
        return
    E, c, _ = parts(ell)
    o, B, N, A, b = plane_rows(P)
    Xf = farr(P)
    s = max(1e-9, float(np.max(np.abs(Xf - Xf[0]))))
    k = B.shape[1]
    if k == 0:
        ck.expect(np.max(np.abs(E)) < 1e-12 and np.allclose(c, o, atol=1e-9), "point", f"{what}: not the single point")
        return
    if N.shape[1]:
        ck.expect(np.max(np.abs(N.T @ E @ N)) < 1e-12 * s * s and np.max(np.abs(N.T @ (c - o))) < 1e-6 * s,
                  "not-flat", lambda: f"{what}: inscribed ellipsoid leaves the plane of the polyhedron")
        ck.expect(bool(ell.is_degenerate()) and int(ell.rank) == k, "rank", lambda: f"{what}: rank {ell.rank}, polyhedron spans {k} dimensions")
    Ep, cc = B.T @ E @ B, B.T @ (c - o)
    w, U = np.linalg.eigh(Ep)
    Bm = U @ np.diag(np.sqrt(np.maximum(w, 0))) @ U.T
    ck.step(len(A))
    ex_ = np.linalg.norm(A @ Bm, axis=1) + A @ cc - b
    ck.expect(ex_.max() <= TOL_IN * s, "not-inscribed", lambda: f"{what}: leaves the polyhedron by {ex_.max():.2e}")
    if sphere:
        ck.expect(w[-1] - w[0] < 1e-4 * max(w[-1], 1e-12), "not-sphere", lambda: f"{what}: {ell.half_extents}")
        r = optim.chebyshev_radius(A, b)
        ck.expect(np.sqrt(max(w[0], 0)) >= r * (1 - 1e-3), "not-maximal-sphere", lambda: f"{what}: radius {np.sqrt(max(w[0], 0))}, largest inscribed sphere has {r}")
        return
    have = np.linalg.slogdet(Bm)[1]
    ub = optim.mie_upper_logdet(A, b, Bm, cc, diam=2 * s)
    ck.expect(have >= ub - tol, "not-maximal", lambda: f"{what}: log det {have:.6f}, attainable upper bound {ub:.6f}")


def mie_ineq_case(ck, P, A=None, b=None, extra=0):
    """mie_inequality_form on {Ax<=b} (full-dimensional), rows scaled non-uniformly, optionally with redundant rows."""
    from rigeo.shape.ellipsoid import mie_inequality_form
    P = [tuple(map(fr, p)) for p in P]
    H = ex.Hull(P)
    if H.eqs:
        return
    rows = [(-farr(f)[:-1], farr(f)[-1]) for f in H.facets]
    A = np.array([r[0] * (1 + 0.5 * i) for i, r in enumerate(rows)])
    b = np.array([r[1] * (1 + 0.5 * i) for i, r in enumerate(rows)])
    if extra:
        A = np.vstack((A, A[0], A[:1]))
        b = np.concatenate((b, [b[0] + 5.0, b[0]]))
    ck.state((tuple(P), extra))
    for sphere in (False, True):
        ck.step()
        check_mie(ck, mie_inequality_form(A, b, **SPH[sphere], **S), P, sphere, f"mie_inequality_form(sphere={sphere})")


def poly_case(ck, P, R=None, c=None, tol=TOL_OPT):
    import rigeo as rg
    P = [tuple(map(fr, p)) for p in P]
    P = ex.extreme_points(P)
    if R is not None:
        P = [ex.add(ex.mv(R, p), c) for p in P]
    ck.state(tuple(P))
    k = len(ex.affine_basis(P)[1])
    ck.outcome("full" if k == len(P[0]) else f"flat{k}")
    p = rg.ConvexPolyhedron.from_vertices(farr(P))
    for sphere in (False, True):
        ck.step()
        check_mie(ck, p.mie(**SPH[sphere], **S), P, sphere, f"mie(sphere={sphere})", tol)


def box_case(ck, spec):
    flat = 0 in spec.h
    for rn, R, c in zoo.poses(3, ck.thorough):
        s = spec.move(R, c)
        ck.state(s.key)
        P = list(dict.fromkeys(s.to_world(v) for v in spec.vertices_local()))
        obj = s.build()
        for sphere in (False, True):
            if sphere and flat:
                continue
            ck.step()
            check_mie(ck, obj.mie(**SPH[sphere]), P, sphere, f"Box.mie(sphere={sphere}) at {rn}")
            if not flat:
                ck.step()
                check_mie(ck, obj.as_poly().mie(**SPH[sphere], **S), P, sphere, f"as_poly().mie(sphere={sphere}) at {rn}")


def box_parts(b):
    return np.asarray(b.half_extents, float), np.asarray(b.rotation, float), np.asarray(b.center, float)


def aligned_case(ck, spec, poses=None, num=farr):
    """mbb and mib of an ellipsoid/cylinder/capsule in all poses."""
    import rigeo as rg
    for rn, R, c in poses or zoo.poses(3, ck.thorough):
        s = spec.move(R, c)
        ck.state(s.key)
        obj = s.build(num)
        # ---- minimum bounding box
        if spec.kind == "ell":
            hb = np.array([float(x) for x in spec.h])
            n = max(1, np.count_nonzero(hb))
            hi = hb / np.sqrt(n)
        else:
            r, L = float(spec.r), float(spec.L)
            hb = np.array([r, r, L / 2 + (r if spec.kind == "cap" else 0)])
            hi = np.array([r / np.sqrt(2), r / np.sqrt(2), L / 2])
        ops = [("mbb", hb)] + ([("mib", hi)] if spec.kind != "cap" else [])
        for op, h in ops:
            ck.step()
            ck.trace()
            what = f"{op}() at {rn},{farr(c).tolist()}"
            b = getattr(obj, op)()
            if not ck.expect(isinstance(b, rg.Box), "type", f"{what}: {type(b)}"):
                continue
            h2, R2, c2 = box_parts(b)
            V = np.asarray(b.vertices, float)
            scale = float(h.max()) or 1.0
            eps = 1e-12 * float(np.max(np.abs(s.cf)))
            ck.expect(np.allclose(c2, s.cf, atol=1e-9 * scale, rtol=1e-12), "center", lambda: f"{what}: center {c2.tolist()}")
            ck.expect(np.allclose(np.sort(h2), np.sort(h), atol=1e-9 * scale, rtol=1e-9), "extents", lambda: f"{what}: half extents {h2.tolist()}, optimal {h.tolist()}")
            ck.expect(np.allclose(float(b.volume), 8 * np.prod(h), atol=1e-9 * np.prod(h), rtol=1e-9), "volume", lambda: f"{what}: volume {b.volume}, optimal {8 * np.prod(h)}")
            if op == "mbb":
                for i in range(3):
                    for sg in (1, -1):
                        u = sg * R2[:, i]
                        ck.step()
                        ck.expect(abs(s.support(u) - (u @ c2 + h2[i])) < 1e-7 * scale + eps, "not-tight", lambda: f"{what}: face {i},{sg} is off the shape by {u @ c2 + h2[i] - s.support(u):.3g}")
                ck.expect(bool(np.all([abs(np.max(V @ u) - (u @ c2 + np.abs(R2.T @ u) @ h2)) < 1e-7 * scale + eps for u in zoo.dirs(3)])), "vertices", f"{what}: vertices disagree with pose and extents")
            else:
                e = max(optim.excess(s, v) for v in V)
                ck.step(len(V))
                ck.expect(e <= 1e-7 * scale + eps, "not-inscribed", lambda: f"{what}: a vertex is outside by {e:.3g}")
                ck.expect(bool(np.all(obj.contains(V, tol=1e-6))), "contains", f"{what}: shape does not contain a box vertex")
            # alignment with the axes of the shape
            D = R2.T @ s.Rf
            if spec.kind in ("cyl", "cap"):
                ck.expect(np.max(np.abs(D[:, 2])) > 1 - 1e-9, "not-aligned", f"{what}: no box axis along the longitudinal axis")
            elif len(set(spec.h)) == 3:
                ck.expect(np.allclose(np.sort(np.abs(D), axis=0)[-1], 1, atol=1e-9), "not-aligned", f"{what}: box axes differ from the ellipsoid's axes")
            ck.expect(np.allclose(R2.T @ R2, np.eye(3), atol=1e-9), "rotation", f"{what}: rotation is not orthonormal")


def main(ck):
    T = ck.thorough
    jobs = []
    M2 = ex.mat([[2, 1], [F(1, 2), 1]])
    g2 = [ex.add(ex.mv(M2, tuple(map(fr, p))), (F(1), F(-2))) for p in product((-1, 0, 1), repeat=2)]
    seen = set()
    for k in (1, 2, 3, 4, 5) + ((6,) if T else ()):
        for i, sub in enumerate(combinations(g2, k)):
            e = tuple(sorted(ex.extreme_points(sub)))
            if e in seen:
                continue
            seen.add(e)
            jobs.append((f"poly2/{k}/{i}", poly_case, (e,)))
    M3 = ex.mat([[2, 1, 0], [0, 1, F(1, 2)], [F(1, 2), 0, 1]])
    g3 = [ex.add(ex.mv(M3, tuple(map(fr, p))), (F(-1), F(2), F(1, 2))) for p in product((-1, 1), repeat=3)]
    for k in range(1, 9):
        for i, sub in enumerate(combinations(g3, k)):
            jobs.append((f"poly3/{k}/{i}", poly_case, (sub,)))
            if i % (2 if T else 6) == 0 and k >= 3:
                jobs.append((f"poly3r/{k}/{i}", poly_case, (sub, ex.R3["third"], (F(1), F(2), F(-3)))))
    for nm in ("OCT", "PYR", "PRISM", "TET", "SQ3", "SEG3", "PT3", "TRI2", "QUAD2", "SEG2", "SEG1", "SIMP4"):
        P = getattr(zoo, nm)
        d = len(P[0])
        for rn, R, c in zoo.poses(d, T):
            jobs.append((f"pose/{nm}/{rn}/{','.join(map(str, c))}", poly_case, (P, R, c)))
        jobs.append((f"ineq/{nm}", mie_ineq_case, (P,)))
        jobs.append((f"ineq-red/{nm}", mie_ineq_case, (P, None, None, 1)))
    jobs.append(("ineq/box", mie_ineq_case, (g3,)))
    jobs.append(("ineq/sq", mie_ineq_case, ([g2[0], g2[2], g2[6], g2[8]],)))
    for h in ((1, 2, F(1, 2)), (1, 1, 1), (3, 1, 2), (1, F(1, 2), 0), (0, 2, 0), (0, 0, 0)):
        jobs.append((f"box/{h}", box_case, (zoo.BoxS(h),)))
    for sp in zoo.LOCAL3_T:
        if sp.kind in ("ell", "cyl", "cap"):
            jobs.append((f"aligned/{zoo.name(sp)}", aligned_case, (sp,)))
    for extra in (zoo.CylS(0, 2), zoo.CylS(2, 0), zoo.CapS(0, 1), zoo.CapS(2, 0)):
        jobs.append((f"aligned/{zoo.name(extra)}", aligned_case, (extra,)))

    for sp in zoo.REG3:
        if sp.kind in ("ell", "cyl", "cap"):
            jobs.append((f"aligned-regime/{zoo.name(sp)}", aligned_case, (sp, list(zoo.reg_poses(3)))))
    for sp in zoo.LOCAL3_T:
        if sp.kind in ("ell", "cyl", "cap"):
            jobs.append((f"aligned-int/{zoo.name(sp)}", aligned_case, (sp, list(zoo.int_poses(3)), zoo.iarr)))
    for sp in zoo.VIA3:
        for m in zoo.MODES:
            if sp.kind in ("ell", "cyl", "cap") and (m != "centre" or sp.kind == "ell"):
                jobs.append((f"via/{m}/{zoo.name(sp)}", aligned_case, (zoo.via(sp, m), list(zoo.poses(3))[7:11])))
            elif sp.kind == "box" and m in ("steps", "used", "centre"):
                jobs.append((f"via/{m}/{zoo.name(sp)}", box_case, (zoo.via(sp, m),)))
    # thin, tiny and large polyhedra; many facets
    for nm in ("OCT", "PYR", "PRISM", "TET", "SQ3"):
        for sn, k in (("z/128", (1, 1, F(1, 128))), ("z*64", (1, 1, 64)), ("tiny", (F(1, 500),) * 3), ("huge", (200,) * 3)):
            for rn in ("I", "third") if sn != "huge" else ("I",):
                jobs.append((f"poly3thin/{nm}/{sn}/{rn}", poly_case, ([tuple(a * fr(b) for a, b in zip(p, k)) for p in map(lambda p: tuple(map(fr, p)), getattr(zoo, nm))], ex.R3[rn], ex.zeros(3), 2e-2)))
    for nm in ("TRI2", "QUAD2"):
        for sn, k in (("y/128", (1, F(1, 128))), ("tiny", (F(1, 500),) * 2)):
            jobs.append((f"poly2thin/{nm}/{sn}", poly_case, ([tuple(a * fr(b) for a, b in zip(p, k)) for p in map(lambda p: tuple(map(fr, p)), getattr(zoo, nm))],)))
    jobs.append(("poly3/ball24", poly_case, (zoo.BALL20,)))

    def thin(k, fn, *a):
        """The solver may give up (loudly) on badly scaled sets; a wrong answer is still a violation."""
        try:
            fn(k, *a)
        except cp.error.SolverError:
            k.outcome("solver gave up on a thin set")

    def job(k, items):
        for key, fn, a in items:
            if "thin" in key:
                k.run(key, thin, k, fn, *a, repro=repr(a))
            else:
                k.run(key, fn, k, *a, repro=repr(a))
    ck.pmap(job, [jobs[i::64] for i in range(64)])
    ck.sample(dict(polyhedron=farr(g3[:6]).tolist()))
