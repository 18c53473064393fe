"""P28: ellipsoid representations and ellipsoid containment, against exact quadratic forms."""
from fractions import Fraction as F
from itertools import product
import numpy as np
from .. import exact as ex, zoo
from ..exact import farr, fr
from ..zoo import EllS

H = F(1, 2)


def exact_forms(spec):
    d = spec.dim
    S = ex.mm(ex.mm(spec.R, tuple(tuple(1 / spec.h[i] ** 2 if i == j else F(0) for j in range(d)) for i in range(d))), ex.tr(spec.R))
    return S


def exact_E(spec):
    d = spec.dim
    return ex.mm(ex.mm(spec.R, tuple(tuple(spec.h[i] ** 2 if i == j else F(0) for j in range(d)) for i in range(d))), ex.tr(spec.R))


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol * max(1.0, np.abs(b).max(initial=0.0)))


def same_object(ck, what, e, spec, X, inside, f):
    """e must denote the same set as spec (judged by what it reports and answers)."""
    E = farr(exact_E(spec))
    ck.expect(e.dim == spec.dim and close(e.E, E, 1e-7) and close(e.center, farr(spec.c), 1e-7), what,
              lambda: f"{what}: E = {np.asarray(e.E).tolist()}, centre {np.asarray(e.center).tolist()}; expected E = {E.tolist()}, centre {farr(spec.c).tolist()}")
    sure = np.abs(f - 1) > 1e-6
    got = np.asarray(e.contains(X))
    bad = sure & (got != inside)
    ck.expect(not bad.any(), what, lambda: f"{what}: contains({X[bad][0].tolist()}) = {got[bad][0]}, exact {inside[bad][0]}")
    ck.expect(np.allclose(np.sort(np.asarray(e.half_extents, float)), np.sort(farr(spec.h)), rtol=1e-6, atol=0), what, lambda: f"{what}: half extents {e.half_extents}, expected a permutation of {farr(spec.h).tolist()}")
    ck.expect(bool(e.is_degenerate()) is False and e.rank == spec.dim, what, lambda: f"{what}: rank {e.rank}")


def rep_case(ck, spec, rots, num=farr):
    import rigeo as rg
    obj = spec.build(num)
    d = spec.dim
    Sx = farr(exact_forms(spec))
    c = farr(spec.c)
    ck.state(spec.key)
    X, inside = spec.world_probes()
    Y = X - c
    f = np.einsum("ni,ij,nj->n", Y, Sx, Y)
    ck.expect(close(obj.S, Sx), "S", lambda: f"S = {np.asarray(obj.S).tolist()}, expected {Sx.tolist()}")
    ck.expect(close(obj.E, farr(exact_E(spec))), "E", lambda: f"E = {np.asarray(obj.E).tolist()}")
    cond = float(max(spec.h) / min(spec.h)) ** 2
    ck.expect(close(np.asarray(obj.S) @ np.asarray(obj.E), np.eye(d), max(1e-9, 1e-14 * cond)), "S-E", "S E is not the identity")
    A, b, Q = np.asarray(obj.A, float), np.asarray(obj.b, float), np.asarray(obj.Q, float)
    ck.expect(A.shape == (d, d) and b.shape == (d,) and Q.shape == (d + 1, d + 1), "shape", f"A {A.shape}, b {b.shape}, Q {Q.shape}")
    fa = np.sum((X @ A.T + b) ** 2, axis=1)
    ck.step(3 * len(X)); ck.trace(len(X))
    bad = np.abs(fa - f) > 1e-8 * (1 + np.abs(f))
    # the set is {|Ax+b| <= 1}; the function is determined by the set
    ck.expect(not bad.any(), "affine", lambda: f"|Ax+b|^2 = {fa[bad][0]} at {X[bad][0].tolist()}, exact value {f[bad][0]}")
    Xt = np.hstack((X, np.ones((len(X), 1))))
    fq = np.einsum("ni,ij,nj->n", Xt, Q, Xt)
    ck.expect(close(Q, Q.T), "Q", "Q is not symmetric")
    mag = np.einsum("ni,ij,nj->n", np.abs(Xt), np.abs(Q), np.abs(Xt))
    sure = np.abs(f - 1) > 1e-6 + 1e-14 * mag
    bad = sure & ((fq >= 0) != inside)
    ck.expect(not bad.any(), "Q", lambda: f"x~'Qx~ = {fq[bad][0]} at {X[bad][0].tolist()}, inside: {inside[bad][0]}")
    ck.expect(obj.rank == d and not obj.is_degenerate(), "rank", f"rank {obj.rank}, is_degenerate {obj.is_degenerate()}")
    # rebuild
    re = [("from_shape_matrix", lambda: rg.Ellipsoid.from_shape_matrix(obj.S, center=obj.center)),
          ("from_shape_matrix(exact)", lambda: rg.Ellipsoid.from_shape_matrix(Sx, center=c)),
          ("from_affine", lambda: rg.Ellipsoid.from_affine(obj.A, obj.b))]
    if not any(spec.c):
        re.append(("from_shape_matrix(no centre)", lambda: rg.Ellipsoid.from_shape_matrix(Sx)))
    for rn, U in rots:
        Uf = farr(U)
        re.append((f"from_affine({rn})", lambda Uf=Uf: rg.Ellipsoid.from_affine(Uf @ A, Uf @ b)))
    # the affine form in the ellipsoid's own frame: diag(1/h) R' x - diag(1/h) R' c
    B = np.diag(1 / farr(spec.h)) @ spec.Rf.T
    re.append(("from_affine(own frame)", lambda: rg.Ellipsoid.from_affine(B, -B @ c)))
    for w, fn in re:
        e = fn()
        ck.step(); ck.trace(); ck.outcome("rebuilt")
        same_object(ck, w, e, spec, X, inside, f)
        ck.expect(bool(e.is_same(obj)) and bool(obj.is_same(e)), w, f"{w} is not the same as the original")
    kw = spec.pose_kw()
    for arg in (farr(spec.h).tolist(), tuple(farr(spec.h).tolist())) + ((float(spec.h[0]),) if d == 1 else ()):
        same_object(ck, "construct", rg.Ellipsoid(arg, **kw), spec, X, inside, f)
    if len(set(spec.h)) == 1 and spec.R == ex.eye(d):
        same_object(ck, "sphere", rg.Ellipsoid.sphere(float(spec.h[0]), center=c), spec, X, inside, f)
        if d == 3 and not any(spec.c):
            same_object(ck, "sphere", rg.Ellipsoid.sphere(float(spec.h[0])), spec, X, inside, f)


def deg_case(ck, spec, num=farr):
    obj = spec.build(num)
    r = sum(1 for h in spec.h if h)
    ck.state(spec.key); ck.step(3); ck.trace(); ck.outcome(f"rank{r}of{spec.dim}")
    ck.expect(obj.rank == r, "rank", lambda: f"rank {obj.rank}, expected {r}")
    ck.expect(bool(obj.is_degenerate()) == (r < spec.dim), "degenerate", lambda: f"is_degenerate {obj.is_degenerate()} for {spec!r}")
    ck.expect(close(obj.E, farr(exact_E(spec))), "E", lambda: f"E = {np.asarray(obj.E).tolist()}")
    X, inside = spec.world_probes()
    got = np.asarray(obj.contains(X))
    Y = (X - spec.cf) @ spec.Rf
    h = farr(spec.h)
    f = np.sum((Y[:, h > 0] / h[h > 0]) ** 2, axis=1) if r else np.zeros(len(X))
    z = np.abs(Y[:, h == 0]).max(axis=1) if r < spec.dim else np.zeros(len(X))
    sure = (np.abs(f - 1) > 1e-6) & ((z < 1e-12) | (z > 1e-6))
    ck.expect(np.array_equal(got[sure], inside[sure]), "contains", "membership of a degenerate ellipsoid")


def max_quad(c0, S0, spec):
    """max of (x-c0)'S0(x-c0) over the ellipsoid spec (any dimension), secular equation."""
    h = farr(spec.h)
    B = spec.Rf * h
    P = B.T @ S0 @ B
    dlt = spec.cf - c0
    q = B.T @ S0 @ dlt
    s0 = dlt @ S0 @ dlt
    w, U = np.linalg.eigh(P)
    qq = U.T @ q
    wm = w.max()
    # maximise sum w y^2 + 2 qq y on the unit ball; convex, so on the sphere: (lam - w) y = qq, lam >= wm
    def nrm(lam):
        with np.errstate(divide="ignore", invalid="ignore"):
            y = np.where(np.abs(qq) < 1e-15, 0.0, qq / (lam - w))
        return y
    y = nrm(wm)
    if np.all(np.isfinite(y)) and np.linalg.norm(y) <= 1:
        k = int(np.argmax(w))
        y = y.copy(); y[k] = 0
        y[k] = np.sqrt(max(1 - y @ y, 0))
        return s0 + w @ (y * y) + 2 * qq @ y
    lo, hi = wm, wm + np.linalg.norm(qq) + 1
    for _ in range(200):
        mid = (lo + hi) / 2
        if np.linalg.norm(nrm(mid)) > 1:
            lo = mid
        else:
            hi = mid
    y = nrm(hi)
    y /= np.linalg.norm(y)
    return s0 + w @ (y * y) + 2 * qq @ y


MARGIN = 1e-4


def contain_case(ck, a, bs, num=farr):
    import cvxpy as cp
    oa = a.build(num)
    S0 = farr(exact_forms(a))
    for b in bs:
        m = max_quad(a.cf, S0, b)
        ck.state((a.key, b.key)); ck.step()
        if abs(m - 1) < MARGIN:
            ck.outcome("tangent")
            continue
        want = m < 1
        ck.outcome("contained" if want else "not-contained"); ck.trace()
        got = oa.contains_ellipsoid(b.build(num), solver=cp.CLARABEL)
        ck.expect(np.ndim(got) == 0 and bool(got) == want, "contains-ellipsoid", lambda: f"{a!r} contains_ellipsoid({b!r}) = {got}; the maximum of its quadratic form over the other is {m:.6f}")


def main(ck):
    T = ck.thorough
    vals = (F(1, 4), F(1), F(3))
    jobs = []
    for d in (1, 2, 3, 4):
        hs = list(product(vals, repeat=d)) if d <= 3 else ([h for h in product((F(1, 2), F(2)), repeat=4)] + [(F(1), F(2), F(3), F(4)), (F(1), F(1, 4), F(1), F(3))])
        if d == 3:
            hs = [h for h in hs if len(set(h)) > 1 or h[0] == 1] if not T else hs
        rots = [(n, R) for n, R in ex.ROT[d].items() if n != "I"][: ck.pick(3, 9)]
        for h in hs:
            for rn, R, c in zoo.poses(d, T):
                s = EllS(h, R, c)
                jobs.append((f"rep/{zoo.name(s)}/{rn}/{','.join(map(str, c))}", rep_case, (s, rots)))
        for h in product((F(0), F(1), F(1, 2)) if d <= 3 else (F(0), F(2)), repeat=d):
            for rn, R, c in zoo.poses(d, T):
                s = EllS(h, R, c)
                jobs.append((f"deg/{zoo.name(s)}/{rn}/{','.join(map(str, c))}", deg_case, (s,)))
    # extents over seven orders of magnitude, slightly rotated and far away
    K = F(1, 1000)
    for d, hs in {1: [(K,), (500,), (F(1, 10**5),)], 2: [(K, 1), (1, K / 2), (K, 2 * K), (500, 100), (F(1, 5000), 3)],
                  3: [(1, 2, K / 2), (K / 5, 1, K / 3), (K, 2 * K, K / 2), (300, 100, 200), (K, K, K), (50, F(1, 50), 1)], 4: [(1, K, 2, H), (K, 2 * K, K, K)]}.items():
        rots = [(n, R) for n, R in ex.ROT[d].items() if n != "I"][:2]
        for h in hs:
            for rn, R, c in zoo.reg_poses(d):
                s = EllS(h, R, c)
                jobs.append((f"rep/{zoo.name(s)}/{rn}/{','.join(map(str, c))}", rep_case, (s, rots)))
        for h in hs + [tuple(x if i != j else 0 for i, x in enumerate(h)) for h in hs for j in range(d)]:
            for rn, R, c in zoo.reg_poses(d):
                s = EllS(h, R, c)
                jobs.append((f"deg/{zoo.name(s)}/{rn}/{','.join(map(str, c))}", deg_case, (s,)))
        # a scaled copy and a shifted one, inside and outside, for each
        for h in hs:
            for rn, R, c in zoo.reg_poses(d):
                a = EllS(h, R, c)
                bs = [EllS([x * k for x in a.h], R, c) for k in (F(9, 10), F(1, 2), F(11, 10), F(999, 1000), F(1001, 1000))]
                for i in range(d):
                    for k in (F(1, 3), F(1, 5), F(-2), F(249, 1000), F(-251, 1000)):
                        bs.append(EllS([x * F(3, 4) for x in a.h], R, ex.add(a.c, ex.mv(R, tuple(k * x if i == j else F(0) for j, x in enumerate(a.h))))))
                    bs.append(EllS([x * (F(5, 4) if i == j else F(3, 4)) for j, x in enumerate(a.h)], R, c))
                jobs.append((f"contain/regime/{zoo.name(a)}/{rn}/{','.join(map(str, c))}", contain_case, (a, bs)))
    for n, s in zoo.via_specs(locs=[EllS((1, 2, H)), EllS((2, 1)), EllS((3,)), EllS((1, 2, H, 3))]):
        jobs.append((n + "/rep", rep_case, (s, [])))
        bs = [zoo.via(EllS([x * k for x in s.h], s.R, s.c), "rt") for k in (F(9, 10), F(11, 10))] + [EllS(s.h, s.R, ex.add(s.c, (F(1, 2),) * s.dim))]
        jobs.append((n + "/contain", contain_case, (s, bs)))
    for n, s in zoo.via_specs(locs=[EllS((1, H, 0)), EllS((0, 2)), EllS((0,)), EllS((1, 0, H, 0))]):
        jobs.append((n + "/deg", deg_case, (s,)))
    # integers whose squares overflow the type they come in, integer poses
    for d in (1, 2, 3):
        rots = [(n, R) for n, R in ex.ROT[d].items() if n != "I"][:2]
        for big, nums in ((zoo.BIG32, (zoo.iarr, zoo.arr32)), (zoo.BIG64, (zoo.iarr, zoo.larr)), ((3, 1, 2), (zoo.iarr, zoo.arr32, zoo.larr))):
            for rn, R, c in list(zoo.int_poses(d))[-3:]:
                c = ex.sc(fr(big[2]), c)
                for num in nums:
                    tag = f"{','.join(map(str, big[:d]))}/{rn}/{','.join(map(str, c))}/{num.__name__}"
                    s = EllS(big[:d], R, c)
                    if big is not zoo.BIG64:  # (shape matrices below 1e-16 count as degenerate)
                        jobs.append((f"int-rep/{tag}", rep_case, (s, rots, num)))
                    if d > 1:
                        jobs.append((f"int-deg/{tag}", deg_case, (EllS(tuple(big[:d - 1]) + (0,), R, c), num)))
                    if big is zoo.BIG64:
                        continue
                    bs = [EllS(tuple(x // k for x in big[:d]), R, c) for k in (2, 3)] + [EllS(tuple(x + x // 10 + 1 for x in big[:d]), R, c)]
                    jobs.append((f"int-contain/{tag}", contain_case, (s, bs, num)))
    # containment: every ordered pair over a lattice of sizes, rotations and offsets
    for d in (1, 2, 3, 4):
        rot = list(ex.ROT[d].values())[: {1: 2, 2: 3, 3: 4, 4: 3}[d]]
        base = {1: [(F(1),), (F(1, 2),), (F(3),)], 2: [(F(1), F(1)), (F(2), H), (F(3), F(2))],
                3: [(F(1), F(1), F(1)), (F(2), F(1), H), (F(3), F(3), F(2))],
                4: [(F(1), F(1), F(1), F(1)), (F(3), F(2), F(1), F(2))]}[d]
        smalls = base + {1: [(F(1, 4),)], 2: [(F(1, 4), F(3, 4)), (F(9, 10), F(9, 10))], 3: [(F(1, 4), F(3, 4), H), (F(9, 10),) * 3, (F(1), F(1, 4), F(1, 4))], 4: [(H, H, F(1, 4), F(3, 4))]}[d]
        offs = [tuple(F(0) for _ in range(d))] + [tuple(k if i == j else F(0) for i in range(d)) for j in range(d) for k in ((F(1, 2), F(-2)) if not T else (F(1, 2), F(-2), F(1), F(-1, 4)))] + [tuple(F(1, 3) for _ in range(d)), tuple(F((-1) ** i, 4) for i in range(d))]
        centers = [tuple(F(0) for _ in range(d)), tuple(fr(v) for v in (1, -2, 3, 2)[:d])]
        for h in base:
            for ir, R in enumerate(rot):
                for c0 in centers if (T or ir < 2) else centers[1:]:
                    a = EllS(h, R, c0)
                    bs = [EllS(h2, R2, ex.add(c0, o)) for h2 in smalls for R2 in (rot if T else (rot[0], rot[-1])) for o in offs]
                    if not T:
                        bs = bs[(ir % 2)::2] if d >= 3 else bs
                    for k in range(0, len(bs), 40):
                        jobs.append((f"contain/{d}/{','.join(map(str, h))}/{ir}/{','.join(map(str, c0))}/{k}", contain_case, (a, bs[k:k + 40])))

    def job(k, items):
        for key, fn, a in items:
            k.run(key, fn, k, *a, repro=f"a = {a[0]!r}")
    ck.pmap(job, [jobs[i::48] for i in range(48)])
    ck.sample(repr(jobs[7][2][0]))
    ck.sample(repr(jobs[-1][2][0]))
    ck.assumptions.append("ellipsoids whose containment is within 0.01% of tangency are not asked")
