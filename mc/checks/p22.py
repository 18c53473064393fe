"""P22: samplers documented as uniform have the uniform law.

The full tree of generator answers (quadrature nodes of each continuous draw, exact
outcomes of each discrete one) is explored on the real sampler; the resulting
discrete law is compared with the uniform law (all moments up to degree four in the
shape's own coordinates), and for several points the joint law must be the product
of its marginals exactly.
"""
from fractions import Fraction as F
from itertools import product
from math import gamma, pi
import numpy as np
from .. import exact as ex, zoo
from ..exact import farr, fr
from ..zoo import BoxS, EllS, CylS, CapS, H
from ..rngtree import explore, min_draws, mid01, midnormal, gauss01, Unscripted


def monos(d, deg=4):
    return [a for a in product(range(deg + 1), repeat=d) if 1 <= sum(a) <= deg]


def sphere_moment(a):
    d = len(a)
    if any(x % 2 for x in a):
        return 0.0
    return gamma(d / 2) * np.prod([gamma((x + 1) / 2) for x in a]) / (pi ** (d / 2) * gamma((sum(a) + d) / 2))


def ball_moment(a):
    d = len(a)
    return sphere_moment(a) * d / (d + sum(a))


def seg(k):
    return 0.0 if k % 2 else 1.0 / (k + 1)


def cube_moment(a):
    return float(np.prod([seg(k) for k in a]))


def weighted(points, w, a):
    return float(np.sum(w * np.prod(points ** np.array(a), axis=1)) / np.sum(w))


def box_surface_moments(h):
    h = [float(x) for x in h]
    A = [h[1] * h[2], h[0] * h[2], h[0] * h[1]]
    def m(a):
        t = 0.0
        for i in range(3):
            o = [j for j in range(3) if j != i]
            t += A[i] * (0.0 if a[i] % 2 else 1.0) * np.prod([seg(a[j]) for j in o])
        return t / sum(A)
    return m


def box_edge_moments(h):
    h = [float(x) for x in h]
    def m(a):
        t = 0.0
        for i in range(3):
            t += h[i] * seg(a[i]) * (0.0 if any(a[j] % 2 for j in range(3) if j != i) else 1.0)
        return t / sum(h)
    return m


def ell_surface_moments(h):
    """surface measure of the ellipsoid in coordinates y = x / h (unit sphere), density |h^-1 y|"""
    h = np.array([float(x) for x in h])
    d = len(h)
    if d == 1:
        P, w = np.array([[1.0], [-1.0]]), np.ones(2)
    elif d == 2:
        t = (np.arange(4000) + 0.5) / 4000 * 2 * pi
        P, w = np.c_[np.cos(t), np.sin(t)], np.ones(4000)
    else:
        z, wz = np.polynomial.legendre.leggauss(120)
        t = (np.arange(240) + 0.5) / 240 * 2 * pi
        Zg, Tg = np.meshgrid(z, t, indexing="ij")
        s = np.sqrt(1 - Zg ** 2)
        P = np.c_[(s * np.cos(Tg)).ravel(), (s * np.sin(Tg)).ravel(), Zg.ravel()]
        w = np.repeat(wz, 240)
    w = w * np.linalg.norm(P / h, axis=1)
    return lambda a: weighted(P, w, a)


def capsule_moments(L, r):
    """coordinates (x/r, y/r, z/(L/2+r))"""
    L, r = float(L), float(r)
    top = L / 2 + r
    z, w = np.polynomial.legendre.leggauss(60)
    segs = [(-L / 2, L / 2), (L / 2, top), (-top, -L / 2)]
    Z = np.concatenate([(b - a) / 2 * z + (a + b) / 2 for a, b in segs])
    W = np.concatenate([(b - a) / 2 * w for a, b in segs])
    rho = np.sqrt(np.maximum(r * r - np.maximum(np.abs(Z) - L / 2, 0) ** 2, 0))
    def m(a):
        disc = ball_moment(a[:2])
        num = np.sum(W * rho ** 2 * (rho / r) ** (a[0] + a[1]) * disc * (Z / top) ** a[2])
        return float(num / np.sum(W * rho ** 2))
    return m


# A target: name, dim, fn(obj) -> sampler(shape, rng), local scale, moments
def targets(T):
    import rigeo as rg
    out = []
    for d in range(1, 6):
        out.append((f"sphere{d - 1}", None, d, lambda o, d=d: (lambda rng, **k: rg.random_points_on_hypersphere(dim=d - 1, rng=rng, **k)), [1] * d, sphere_moment, {}))
        if d <= 4:
            out.append((f"ball{d}", None, d, lambda o, d=d: (lambda rng, **k: rg.random_points_in_ball(dim=d, rng=rng, **k)), [1] * d, ball_moment, {}))
    ells = [(2,), (2, H), (1, 3), (1, 2, H), (2, 2, 2), (F(1, 10), 1, 3)] + ([(1, 1, H, 2), (3, F(1, 5), 1)] if T else [])
    for h in ells:
        s = EllS(h)
        out.append((zoo.name(s), s, s.dim, lambda o: (lambda rng, **k: o.random_points(rng=rng, **k)), farr(s.h), ball_moment, {}))
        if s.dim <= 3:
            out.append(("surface:" + zoo.name(s), s, s.dim, lambda o: (lambda rng, **k: o.random_points_on_surface(rng=rng, **k)), farr(s.h), ell_surface_moments(s.h), dict(reject=True)))
    for h in [(1, 2, H), (1, 1, 1), (3, F(1, 5), 1)] + ([(H, 3, 2)] if T else []):
        s = BoxS(h)
        out.append((zoo.name(s), s, 3, lambda o: (lambda rng, **k: o.random_points(rng=rng, **k)), farr(s.h), cube_moment, {}))
        out.append(("surface:" + zoo.name(s), s, 3, lambda o: (lambda rng, **k: o.random_points_on_surface(rng=rng, **k)), farr(s.h), box_surface_moments(s.h), dict(discrete=6)))
        out.append(("edges:" + zoo.name(s), s, 3, lambda o: (lambda rng, **k: o.random_points_on_edges(rng=rng, **k)), farr(s.h), box_edge_moments(s.h), dict(discrete=12)))
    # extents far apart, tiny and large
    S = lambda o: (lambda rng, **k: o.random_points(rng=rng, **k))
    SF = lambda o: (lambda rng, **k: o.random_points_on_surface(rng=rng, **k))
    SE = lambda o: (lambda rng, **k: o.random_points_on_edges(rng=rng, **k))
    f = F
    for h in [(f(1, 100), 50, 1), (f(1, 1000), f(1, 500), f(1, 800)), (1000, 700, 2000)]:
        e, b = EllS(h), BoxS(h)
        out.append((zoo.name(e), e, 3, S, farr(e.h), ball_moment, dict(regime=True)))
        out.append((zoo.name(b), b, 3, S, farr(b.h), cube_moment, dict(regime=True)))
        out.append(("surface:" + zoo.name(b), b, 3, SF, farr(b.h), box_surface_moments(b.h), dict(discrete=6, regime=True)))
        out.append(("edges:" + zoo.name(b), b, 3, SE, farr(b.h), box_edge_moments(b.h), dict(discrete=12, regime=True)))
        if h[0] != f(1, 100):
            out.append(("surface:" + zoo.name(e), e, 3, SF, farr(e.h), ell_surface_moments(e.h), dict(reject=True, regime=True)))
    for L, r in [(20, f(1, 10)), (f(1, 50), 2), (f(1, 1000), f(1, 800)), (1000, 700)]:
        s = CylS(L, r)
        out.append((zoo.name(s), s, 3, S, np.array([r, r, float(fr(L) / 2)], float), lambda a: ball_moment(a[:2]) * seg(a[2]), dict(regime=True)))
        s = CapS(L, r)
        out.append((zoo.name(s), s, 3, S, np.array([r, r, float(fr(L) / 2 + fr(r))], float), capsule_moments(L, r), dict(reject=True, regime=True)))
    # a box of no extent along one axis still has a surface with area
    s = BoxS((1, 2, 0))
    out.append(("surface:" + zoo.name(s), s, 3, lambda o: (lambda rng, **k: o.random_points_on_surface(rng=rng, **k)), np.array([1.0, 2.0, 1.0]), None, dict(discrete=6, flat=True)))
    for L, r in [(2, 1), (1, 2), (3, H)]:
        s = CylS(L, r)
        out.append((zoo.name(s), s, 3, lambda o: (lambda rng, **k: o.random_points(rng=rng, **k)), np.array([r, r, float(fr(L) / 2)], float), lambda a: ball_moment(a[:2]) * seg(a[2]), {}))
        s = CapS(L, r)
        out.append((zoo.name(s), s, 3, lambda o: (lambda rng, **k: o.random_points(rng=rng, **k)), np.array([r, r, float(fr(L) / 2 + fr(r))], float), capsule_moments(L, r), dict(reject=True)))
    return out


def local(spec, p, scale):
    p = np.asarray(p, float)
    if spec is not None:
        p = (p - spec.cf) @ spec.Rf
    return p / np.asarray(scale, float)


def law_case(ck, name, spec, d, make, scale, mom, opt, budget_paths):
    """n = 1: every path, moments up to degree four."""
    obj = spec.build() if spec is not None else None
    fn = make(obj)
    try:
        D = min_draws(fn)
    except Unscripted as e:
        ck.unsure(f"unscripted draw {e} in {name}")
        return
    if D is None:
        ck.unsure(f"no complete path found for {name}")
        return
    M = monos(d)
    best = None
    k = max(2, int(budget_paths ** (1.0 / max(D - (1 if opt.get("discrete") else 0), 1)) + 1e-9))
    k = min(k, 400)
    acc = np.zeros(len(M))
    E = np.array(M)

    def leaf(r, w):
        ck_pts.append(local(spec, r, scale)); ck_w.append(w)
    ck_pts, ck_w = [], []
    shape_ok = []
    n, tr, W = explore(fn, mid01(k), midnormal(max(2, k - k % 2)), budget=D, on_leaf=leaf)
    ck.nstates += n + tr; ck.step((n + tr) * D); ck.trace(n + tr)
    ck.outcome("paths", n); ck.outcome("rejected-paths", tr)
    X, w = np.array(ck_pts), np.array(ck_w)
    if not ck.expect(X.shape == (n, d), "shape", f"samples of {name} have shape {X.shape[1:]}"):
        return
    if not opt.get("reject") and not tr:
        ck.expect(abs(W - 1) < 1e-6, "weights", f"the probabilities of the complete paths add up to {W}")
    w = w / w.sum()
    tol = max(0.008, (0.8 if opt.get("reject") else 0.5) / k ** 1.5)
    if k < 5:
        ck.unsure(f"too many draws per sample for a fine law of {name}")
        tol = 0.12
    worst = 0.0
    if mom is None:
        # flat box: only the two big faces have area; law uniform on the rectangle
        mom = lambda a: 0.0 if a[2] else seg(a[0]) * seg(a[1])
    for a in M:
        got, want = float(np.sum(w * np.prod(X ** np.array(a), axis=1))), mom(a)
        err = abs(got - want)
        worst = max(worst, err / tol)
        ck.expect(err <= tol, "moment", lambda: f"{name}: E[prod y^{a}] = {got:.5f} over all generator outcomes, uniform law has {want:.5f} (y = own coordinates / half size)")
    # mass of the central copy at half size, for the solid samplers
    ck.notes[f"tolerance used, {name.split('(')[0]}"] = round(worst, 3)


def joint_case(ck, name, spec, d, make, scale, mom, opt, shape):
    """several points: the joint law is the product of its marginals, each near the uniform law."""
    obj = spec.build() if spec is not None else None
    fn = make(obj)
    n = int(np.prod(shape))
    k = 2 if n == 2 else 1
    U, Zn = gauss01(k), midnormal(2 if n == 2 else 1)
    if opt.get("reject"):
        U = gauss01(3 if name.startswith("cap") else 2)
        if name.startswith("surface") and n == 2:
            U = [(0.2, 0.5), (0.8, 0.5)]
    if n > 2:
        U, Zn = [(0.3, 1.0)], [(0.7, 1.0)]
    if not opt.get("discrete") and n == 2 and d <= 2 and not opt.get("reject"):
        U, Zn = mid01(3), midnormal(4)
    try:
        Dn = min_draws(lambda g: fn(g, shape=shape))
        D1 = min_draws(fn)
    except Unscripted as e:
        ck.unsure(f"unscripted draw {e} in {name}")
        return
    if Dn is None or D1 is None:
        ck.unsure(f"no complete path found for {name} shape {shape}")
        return
    joint = {}
    marg = [dict() for _ in range(n)]
    st = [0]

    def leaf(r, w):
        r = np.asarray(r, float)
        if st[0] == 0:
            ck.expect(r.shape == tuple(np.atleast_1d(shape)) + (d,), "shape", f"{name}: shape {shape} gives an array of shape {r.shape}")
            st[0] = 1
        y = np.round(local(spec, r.reshape(-1, d), scale), 7) + 0.0
        ks = tuple(map(tuple, y.tolist()))
        joint[ks] = joint.get(ks, 0.0) + w
        for m, q in zip(marg, ks):
            m[q] = m.get(q, 0.0) + w
    nn, tr, W = explore(lambda g: fn(g, shape=shape), U, Zn, budget=Dn + (D1 if opt.get("reject") else 0), on_leaf=leaf, limit=600000)
    ck.nstates += nn + tr; ck.step((nn + tr) * Dn); ck.trace(nn + tr)
    ck.outcome("joint-paths", nn); ck.outcome("rejected-paths", tr)
    if not W:
        ck.unsure(f"no complete path for {name}")
        return
    bad = None
    for ks in product(*[list(m) for m in marg]):
        want = np.prod([m[q] / W for m, q in zip(marg, ks)])
        got = joint.get(ks, 0.0) / W
        if abs(got - want) > 1e-9 + 1e-7 * want:
            bad = (ks, got, want)
            break
    ck.expect(bad is None, "dependent", lambda: f"{name}, shape {shape}: points {bad[0]} occur together with probability {bad[1]:.6g}, independently it would be {bad[2]:.6g}")
    if n == 2:
        if mom is None:
            mom = lambda a: 0.0 if a[2] else seg(a[0]) * seg(a[1])
        for i, m in enumerate(marg):
            X = np.array(list(m)); w = np.array(list(m.values())) / W
            for a in monos(d, 2):
                got, want = float(np.sum(w * np.prod(X ** np.array(a), axis=1))), mom(a)
                ck.expect(abs(got - want) <= (0.25 if opt.get("reject") else 0.12), "marginal", lambda: f"{name}, shape {shape}: position {i} has E[prod y^{a}] = {got:.4f}, uniform law {want:.4f}")
                ck.notes["joint marginal error"] = max(ck.notes.get("joint marginal error", 0), round(abs(got - want), 3))
    else:
        # every position has the same discrete law
        for i, m in enumerate(marg[1:], 1):
            same = all(abs(m.get(q, 0) - marg[0].get(q, 0)) <= 1e-9 * W + 1e-12 for q in set(m) | set(marg[0]))
            if opt.get("discrete"):
                ck.expect(same, "position-law", lambda: f"{name}, shape {shape}: positions 0 and {i} have different laws")


def thin_case(ck, h, R, c):
    """Surface of an ellipsoid with extents far apart: the mass of the set where the sampler must reject most of
    what it proposes (few draws per accepted point), relative to its exact value."""
    s = EllS(h).with_pose(R, c)
    d = s.dim
    obj = s.build()
    fn = lambda g, **k: obj.random_points_on_surface(rng=g, **k)
    try:
        D = min_draws(fn)
    except Unscripted as e:
        ck.unsure(f"unscripted draw {e} for {s!r}")
        return
    if D is None:
        ck.unsure(f"no complete path found for {s!r}")
        return
    edges = [0.0] + [0.004 * 1.3 ** i for i in range(40) if 0.004 * 1.3 ** i < 0.95] + [1.0]
    U = [((a + b) / 2, b - a) for a, b in zip(edges, edges[1:])]
    hf = np.array([float(x) for x in h])
    pts, ws = [], []
    n, tr, W = explore(fn, U, midnormal(ck.pick(46, 140) if d == 2 else ck.pick(14, 26)), budget=D, on_leaf=lambda r, w: (pts.append(local(s, r, farr(s.h))), ws.append(w)))
    ck.nstates += n + tr; ck.step((n + tr) * D); ck.trace(n + tr); ck.outcome("thin-paths", n)
    Y, w = np.array(pts), np.array(ws); w = w / w.sum()
    g = lambda y: hf.min() * np.linalg.norm(y / hf, axis=1)
    if d == 2:
        t = (np.arange(200000) + 0.5) / 200000 * 2 * pi
        Q, qw = np.c_[np.cos(t), np.sin(t)], np.ones(200000)
    else:
        z = (np.arange(700) + 0.5) / 350 - 1
        t = (np.arange(700) + 0.5) / 700 * 2 * pi
        Zg, Tg = np.meshgrid(z, t, indexing="ij")
        sq = np.sqrt(1 - Zg ** 2)
        Q = np.c_[(sq * np.cos(Tg)).ravel(), (sq * np.sin(Tg)).ravel(), Zg.ravel()]
        qw = np.ones(len(Q))
    gq = g(Q); qw = qw * gq; qw = qw / qw.sum()
    gy = g(Y)
    for lev in (0.1, 0.2, 0.3, 0.5, 0.8):
        # smooth step, so that few nodes resolve it
        sm = lambda v: np.clip((lev - v) / (0.5 * lev) + 0.5, 0, 1)
        want, got = float(np.sum(qw * sm(gq))), float(np.sum(w * sm(gy)))
        if d == 3 and want < 0.004:
            continue
        rel = abs(got / want - 1)
        ck.expect(rel <= (0.1 if d == 2 else 0.2), "thin-band", lambda: f"surface of {s!r}: the part whose area is below {lev} of the sphere's carries probability {got:.5f}, its share of the area is {want:.5f}")
        ck.notes[f"thin band error, {d}-D"] = max(ck.notes.get(f"thin band error, {d}-D", 0), round(rel, 3))


def seed_case(ck, name, spec, d, make):
    """An integer seed gives exactly what a generator made from it gives, so the explored laws carry over to
    seeds, and parts of one sample are not drawn from the same numbers again."""
    fn = make(spec.build() if spec is not None else None)
    for sh in (1, (1,), 2, 5, (2, 3)):
        for seed in range(48):
            g = np.random.default_rng(seed)
            for a in (seed, np.int64(seed)) if seed < 4 else (seed,):
                got, want = np.asarray(fn(a, shape=sh)), np.asarray(fn(np.random.default_rng(seed), shape=sh))
                ck.step(2); ck.trace()
                ck.expect(got.shape == want.shape and np.array_equal(got, want), "seed", lambda: f"{name}: rng={a!r} and rng=default_rng({a!r}) give different points for shape {sh}: {got.tolist()} and {want.tolist()}")
            # successive samples from one generator are new
            p, q = np.asarray(fn(g, shape=sh)), np.asarray(fn(g, shape=sh))
            if d > 1:
                ck.expect(not np.array_equal(p, q), "same-again", lambda: f"{name}: two successive samples of shape {sh} from one generator are equal")
    ck.state(("seed", name)); ck.outcome("seeds")


def main(ck):
    T = ck.thorough
    tg = targets(T)
    poses = [("I", ex.eye(3), (F(0), F(0), F(0))), ("x345*third", ex.R3["x345*third"], tuple(map(fr, (1, -2, H)))), ("z345", ex.R3["z345"], tuple(map(fr, (-3, F(1, 4), 2))))]
    jobs = []
    for i, t in enumerate(tg):
        name, spec, d, make, scale, mom, opt = t
        if spec is None:
            pl = [("-", None)]
        elif opt.get("regime"):
            far = ("far", ex.R3["third"], tuple(map(fr, (300, -500, 200))))
            pl = [(f"{rn}/{','.join(map(str, c))}", spec.with_pose(R, c)) for rn, R, c in ((far, poses[1]) if T else ((far,) if i % 2 else (poses[1],)))]
        elif d == 3:
            ps = list(zoo.poses(3, False))[:: 5] if T else [poses[0], poses[1 + i % 2]]
            pl = [(f"{rn}/{','.join(map(str, c))}", spec.with_pose(R, c)) for rn, R, c in ps]
        else:
            ps = list(zoo.poses(d, T))
            ps = [ps[0], ps[-1]] if not T else ps
            pl = [(f"{rn}/{','.join(map(str, c))}", spec.with_pose(R, c)) for rn, R, c in ps]
        jobs.append((f"seed/{name}", seed_case, (name, pl[-1][1], d, make)))
        for pn, s in pl:
            jobs.append((f"law/{name}/{pn}", law_case, (name, s, d, make, scale, mom, opt, ck.pick(6000, 60000))))
        if opt.get("regime"):
            continue
        pn, s = pl[-1]
        shapes = [2, (2,), (1, 2), (2, 1)]
        if opt.get("discrete") == 6 or (opt.get("discrete") and T):
            shapes += [3, (2, 2)]
        elif opt.get("discrete"):
            shapes += [3]
        for sh in shapes:
            jobs.append((f"joint/{name}/{sh}", joint_case, (name, s, d, make, scale, mom, opt, sh)))
    for h in [(F(1, 20), 1), (3, F(1, 8)), (F(1, 30), 2), (F(1, 20), 1, 1), (1, F(1, 15), 2)] + ([(F(1, 50), 1), (2, 1, F(1, 12))] if T else []):
        R, c = (ex.R2["345"], (F(-3), F(1, 4))) if len(h) == 2 else (ex.R3["x345*third"], tuple(map(fr, (1, -2, H))))
        jobs.append((f"thin/{h}", thin_case, (tuple(map(fr, h)), R, c)))
    jobs.sort(key=lambda j: ("cap" not in j[0], "surface" not in j[0], "edges" not in j[0]))

    def job(k, it):
        key, fn, a = it
        k.run(key, fn, k, *a, repro=f"{a[0]} {a[1]!r}")
    ck.pmap(job, jobs)
    ck.sample(jobs[3][0]); ck.sample(jobs[-1][0])
    ck.assumptions.append("continuous draws are explored at quadrature nodes; moments are compared within the quadrature error of the node count")
