"""P21: samples lie in the shape and have the requested layout, whatever the generator answers.

Every path of generator answers over corner alphabets (both ends of the unit
interval, tiny, huge and mixed normals, every multinomial outcome and permutation)
is run on the real samplers.
"""
from fractions import Fraction as F
from itertools import product
import numpy as np
from .. import exact as ex, zoo
from ..exact import farr, fr
from ..zoo import BoxS, EllS, CylS, CapS, PolyS, H
from ..rngtree import Path, Cycle, Scripted, Truncated, Unscripted, min_draws
from .p25 import margin

U_ALL = [0.5, 1 - 2.0 ** -53, 0.0, 0.25, 0.75, 2.0 ** -53, 0.999, 1e-3]
Z_ALL = [0.7, -0.6, 8.0, -8.0, 1e-12, 0.0, -1e-12, 3.0]
TOL = 1e-9


class Rec(Path):
    """Path that records the values it answered."""
    def reset(self):
        super().reset()
        self.us, self.zs = [], []

    branching = None  # number of continuous draws that branch; later ones follow a fixed sequence

    def u(self):
        if self.branching is not None and len(self.us) + len(self.zs) >= self.branching:
            self._count()
            v = self.U[(self.draws * 5 + self.i) % len(self.U)][0]
        else:
            v = super().u()
        self.us.append(v)
        return v

    def z(self):
        if self.branching is not None and len(self.us) + len(self.zs) >= self.branching:
            self._count()
            v = self.Z[(self.draws * 5 + self.i) % len(self.Z)][0]
        else:
            v = super().z()
        self.zs.append(v)
        return v

    def null(self, d, weights):
        """an all-zero normal vector or weight vector was drawn: outside the property"""
        z = self.zs
        if any(not any(z[i:i + d]) for i in range(0, len(z), d)):
            return True
        return bool(weights) and not any(self.us)


def scale_of(spec):
    if spec is None:
        return 1.0
    if spec.kind == "poly":
        return float(max(abs(x) for v in spec.V for x in v)) + 1
    return {"box": lambda: float(max(spec.h)), "ell": lambda: float(max(spec.h)), "cyl": lambda: float(spec.L / 2 + spec.r), "cap": lambda: float(spec.L / 2 + spec.r)}[spec.kind]() + 1


def ok_interior(spec, p):
    return margin(spec, p) >= -TOL * scale_of(spec)


def ok_surface(spec, p):
    if spec.kind == "box":
        return ok_interior(spec, p) and margin(spec, p) <= TOL * scale_of(spec)
    y = spec.Rf.T @ (p - spec.cf)
    return abs(np.sum((y / farr(spec.h)) ** 2) - 1) <= 1e-8 + 1e-14 * float(np.max(np.abs(p))) / float(min(spec.h))


def ok_edges(spec, p):
    y = spec.Rf.T @ (p - spec.cf)
    g = np.sort(np.abs(farr(spec.h) - np.abs(y)))
    return ok_interior(spec, p) and g[1] <= TOL * scale_of(spec)


def want_shape(shape, d):
    if shape is None or (np.isscalar(shape) and shape == 1):
        return (d,)
    return tuple(np.atleast_1d(shape)) + (d,)


def verify(ck, name, spec, d, test, shape, r, info):
    r = np.asarray(r, float)
    ck.step()
    if not ck.expect(r.shape == want_shape(shape, d), "layout", lambda: f"{name}, shape {shape}: result has shape {r.shape}, expected {want_shape(shape, d)}"):
        return
    P = r.reshape(-1, d)
    if not ck.expect(np.all(np.isfinite(P)), "not-finite", lambda: f"{name}, shape {shape}: {r.tolist()} with answers {info()}"):
        return
    for p in P:
        if not test(spec, p):
            ck.fail("outside", f"{name}, shape {shape}: sample {p.tolist()} is not in the set, with answers {info()}")
            return


def tree_case(ck, name, spec, d, make, test, opt, shape, limit):
    obj = spec.build() if spec is not None else None
    f = make(obj)
    call = (lambda g: f(g)) if shape is None else (lambda g: f(g, shape=shape))
    try:
        D = min_draws(call)
        D1 = D if shape is None else min_draws(lambda g: f(g))
    except Unscripted as e:
        ck.unsure(f"unscripted draw {e} in {name}")
        return
    if D is None:
        ck.unsure(f"no complete path found for {name} {shape}")
        return
    n = 1 if shape is None else int(np.prod(shape))
    k = max(2, min(len(U_ALL), int(limit ** (1.0 / D) + 1e-9)))
    nz = opt.get("nz", d)
    U, Z = [(v, 1.0) for v in U_ALL[:k]], [(v, 1.0) for v in Z_ALL[:k]]
    if opt.get("weights") and n > 1:
        U = [(v if v else 1e-9, 1.0) for v, _ in U]
    P = Rec(U, Z, D + (D1 if opt.get("reject") else 0))
    lb = np.log(4 * limit)
    if opt.get("disc"):
        outcomes = {1: 12, 2: 156, 3: 2184}.get(n, 1e9)
        P.branching = max(0, int((lb - np.log(outcomes)) / np.log(k)))
    elif opt.get("reject") or k ** D > 4 * limit:
        P.branching = int(lb / np.log(k) + 1e-9)
    # depth-first over every path; when even two values per draw give too many paths,
    # only the first draws branch (every multinomial outcome and permutation always does)
    runs = 0
    cap = limit * 60
    while True:
        P.reset()
        skip = False
        try:
            r = call(Scripted(P))
        except Truncated:
            skip = True
            ck.outcome("truncated")
        if not skip:
            if P.null(nz, opt.get("weights")):
                ck.outcome("all-zero-draw")
            else:
                ck.outcome("ok"); ck.trace()
                verify(ck, name, spec, d, test, shape, r, lambda: dict(u=P.us, z=P.zs, path=[c for c, _ in P.taken]))
        runs += 1
        if runs >= cap:
            ck.outcome("tree-cut")
            ck.unsure("tree cut")
            break
        if not P.next():
            ck.outcome("tree-complete")
            break
    ck.nstates += runs


def cycle_case(ck, name, spec, d, make, test, opt, shape):
    obj = spec.build() if spec is not None else None
    f = make(obj)
    us = [u for t in product((0.5, 1 - 2.0 ** -53, 1e-9, 0.25), repeat=3) for u in t]
    zs = [z for t in product((0.7, -8.0, 1e-12), repeat=3) for z in t]
    for st in range(3):
        for seq in (us, us[::-1] + [0.31]):
            try:
                r = f(Scripted(Cycle(seq, zs + ([0.1] if st else []), st)), shape=shape)
            except Unscripted as e:
                ck.unsure(f"unscripted draw {e} in {name}")
                return
            ck.nstates += 1; ck.trace(); ck.outcome("long")
            verify(ck, name, spec, d, test, shape, r, lambda: f"cyclic sequence, start {st}")
    # ordinary generators and seeds too
    for seed in range(4):
        r = f(np.random.default_rng(seed), shape=shape)
        ck.nstates += 1; ck.trace()
        verify(ck, name, spec, d, test, shape, r, lambda: f"default_rng({seed})")
        r = f(seed, shape=shape)
        verify(ck, name, spec, d, test, shape, r, lambda: f"seed {seed}")


def weights_case(ck, shape, limit):
    import rigeo as rg
    f = lambda g: rg.random_weight_vectors(shape, rng=g)
    D = int(np.prod(shape))
    last = int(np.atleast_1d(shape)[-1])
    k = max(2, min(len(U_ALL), int(limit ** (1.0 / D))))
    P = Rec([(v, 1.0) for v in U_ALL[:k]], [(v, 1.0) for v in Z_ALL[:2]], None)
    runs = 0
    while True:
        P.reset()
        r = f(Scripted(P))
        runs += 1
        rows = [P.us[i:i + last] for i in range(0, len(P.us), last)]
        if not any(not any(q) for q in rows):
            r = np.asarray(r, float)
            ck.step(); ck.trace(); ck.outcome("weights")
            if ck.expect(r.shape == tuple(np.atleast_1d(shape)), "layout", f"random_weight_vectors({shape}) has shape {r.shape}"):
                ck.expect(np.all(np.isfinite(r)) and np.all(r >= 0) and np.max(np.abs(r.sum(axis=-1) - 1), initial=0) <= 1e-15 * (last + 20), "weights", lambda: f"random_weight_vectors({shape}) = {r.tolist()} for draws {P.us}")
        if not P.next() or runs > 6 * limit:
            break
    ck.nstates += runs
    for seed in range(3):
        for sh in (shape, tuple(np.atleast_1d(shape)[:-1]) + (25,), (7, 200)):
            r = np.asarray(rg.random_weight_vectors(sh, rng=seed))
            ck.step()
            ck.expect(r.shape == tuple(np.atleast_1d(sh)) and (r >= 0).all() and np.max(np.abs(r.sum(axis=-1) - 1), initial=0) <= 1e-15 * (r.shape[-1] + 20), "weights", lambda: f"random_weight_vectors({sh}) with seed {seed}: sums off by {np.max(np.abs(r.sum(axis=-1) - 1)):.1e}, smallest {r.min()}")


def targets(T):
    import rigeo as rg
    out = []
    unit = lambda s, p: abs(np.linalg.norm(p) - 1) <= 1e-12
    inball = lambda s, p: np.linalg.norm(p) <= 1 + 1e-12
    for d in range(1, 6):
        out.append((f"sphere{d - 1}", None, d, lambda o, d=d: (lambda g, **k: rg.random_points_on_hypersphere(dim=d - 1, rng=g, **k)), unit, {}))
        out.append((f"ball{d}", None, d, lambda o, d=d: (lambda g, **k: rg.random_points_in_ball(dim=d, rng=g, **k)), inball, {}))
    out.append(("sphere-default", None, 3, lambda o: (lambda g, **k: rg.random_points_on_hypersphere(rng=g, **k)), unit, {}))
    out.append(("ball-default", None, 3, lambda o: (lambda g, **k: rg.random_points_in_ball(rng=g, **k)), inball, {}))
    inter = lambda o: (lambda g, **k: o.random_points(rng=g, **k))
    surf = lambda o: (lambda g, **k: o.random_points_on_surface(rng=g, **k))
    edge = lambda o: (lambda g, **k: o.random_points_on_edges(rng=g, **k))
    for h in [(2,), (2, 1), (1, 0), (0, 2), (1, 2, H), (2, 2, 2), (1, H, 0), (0, 0, 2), (0, 0, 0), (1, 2, H, 3), (1, 0, 2, H)]:
        s = EllS(h)
        out.append((zoo.name(s), s, s.dim, inter, ok_interior, {}))
        if all(h):
            out.append(("surface:" + zoo.name(s), s, s.dim, surf, ok_surface, dict(reject=True)))
    for h in [(1, 2, H), (1, 1, 1), (1, H, 0), (0, 1, 2), (2, 0, 0), (0, 0, 0)]:
        s = BoxS(h)
        out.append((zoo.name(s), s, 3, inter, ok_interior, {}))
        if sum(1 for x in h if x) >= 2:
            out.append(("surface:" + zoo.name(s), s, 3, surf, ok_surface, dict(disc=True)))
        if any(h):
            out.append(("edges:" + zoo.name(s), s, 3, edge, ok_edges, dict(disc=True)))
    for L, r in [(2, 1), (1, 2), (3, H), (0, 1)]:
        s = CylS(L, r)
        out.append((zoo.name(s), s, 3, inter, ok_interior, dict(nz=2)))
    for L, r in [(2, 1), (1, 2), (3, H)]:
        s = CapS(L, r)
        out.append((zoo.name(s), s, 3, inter, ok_interior, dict(reject=True)))
    for V in [zoo.TET, zoo.OCT, zoo.PYR, zoo.SQ3, zoo.SEG3, zoo.PT3, zoo.TRI2, zoo.QUAD2, zoo.SEG2, zoo.SEG1, zoo.SIMP4]:
        s = PolyS(V)
        out.append((zoo.name(s), s, s.dim, inter, ok_interior, dict(weights=True)))
    return out


def regime_targets():
    inter = lambda o: (lambda g, **k: o.random_points(rng=g, **k))
    surf = lambda o: (lambda g, **k: o.random_points_on_surface(rng=g, **k))
    edge = lambda o: (lambda g, **k: o.random_points_on_edges(rng=g, **k))
    nz = {"cyl": dict(nz=2), "cap": dict(reject=True), "poly": dict(weights=True)}
    for s in zoo.REG3 + zoo.REG_LOW + zoo.REG4:
        if s.kind == "poly" and len(s.V) > 8:
            continue
        nm = zoo.name(s)
        yield (nm, s, s.dim, inter, ok_interior, nz.get(s.kind, {}))
        if s.kind == "box":
            yield ("surface:" + nm, s, 3, surf, ok_surface, dict(disc=True))
            yield ("edges:" + nm, s, 3, edge, ok_edges, dict(disc=True))
        # (the surface sampler's acceptance rate drops with the ratio of the extents)
        if s.kind == "ell" and all(s.h) and max(s.h) <= 4 * min(s.h):
            yield ("surface:" + nm, s, s.dim, surf, ok_surface, dict(reject=True))


def empty_case(ck, name, spec, d, make, test):
    f = make(spec.build() if spec is not None else None)
    for sh in (0, (0,), (2, 0), (0, 3), 1, (1,), (1, 1), np.int32(1), np.int64(3), (2, 3), (2,), (1, 2, 1)):
        ck.nstates += 1; ck.trace(); ck.outcome("layouts")
        if isinstance(sh, tuple) and sh == (1,):
            continue
        r = f(np.random.default_rng(5), shape=sh)
        verify(ck, name, spec, d, test, sh, r, lambda: "default_rng(5)")


def main(ck):
    T = ck.thorough
    jobs = []
    for i, t in enumerate(targets(T)):
        name, spec, d, make, test, opt = t
        if spec is None:
            pl = [("-", None)]
        else:
            ps = list(zoo.poses(d, T))
            ps = [ps[0], ps[-1], ps[len(ps) // 2]] if not T else ps[:: max(1, len(ps) // 12)]
            pl = [(f"{rn}/{','.join(map(str, c))}", spec.with_pose(R, c)) for rn, R, c in ps]
        lim = ck.pick(600, 6000)
        for j, (pn, s) in enumerate(pl):
            for sh in [None, 1]:
                if j == 0 or sh is None:
                    jobs.append((f"tree/{name}/{pn}/{sh}", tree_case, (name, s, d, make, test, opt, sh, lim)))
            if j == len(pl) - 1 or T:
                for sh in [2, (2,), (1, 2), (2, 1), (1, 1), np.int64(2)] + ([3, (2, 2), (3, 1), (1, 1, 2)] if T else [3, (1, 1, 2)]):
                    jobs.append((f"tree/{name}/{pn}/{sh!r}", tree_case, (name, s, d, make, test, opt, sh, lim if not isinstance(sh, int) or sh < 3 else lim // 2)))
            if not opt.get("disc"):
                for sh in [7, (5, 3), (2, 3, 4), (40,)] + ([(2, 2, 2, 2), 500] if T else []):
                    jobs.append((f"long/{name}/{pn}/{sh}", cycle_case, (name, s, d, make, test, opt, sh)))
            else:
                for sh in [7, (2, 2)] + ([(3, 2), 8] if T else []):
                    jobs.append((f"seeds/{name}/{pn}/{sh}", seeds_case, (name, s, d, make, test, sh, ck.pick(60, 500))))
                jobs.append((f"seeds/{name}/{pn}/big", seeds_case, (name, s, d, make, test, (5, 40), 5)))
    # thin, tiny and large shapes, slightly rotated and far away
    for name, spec, d, make, test, opt in regime_targets():
        for rn, R, c in zoo.reg_poses(d, spec.kind == "poly"):
            s = spec.with_pose(R, c)
            for sh in [None, 2] if rn in ("far", "gen") else [None]:
                jobs.append((f"tree/{name}/{rn}/{sh}", tree_case, (name, s, d, make, test, opt, sh, lim // 2)))
            jobs.append((f"seeds/{name}/{rn}", seeds_case, (name, s, d, make, test, (3, 4), 6)))
    # no points at all, and one point in every layout
    for name, spec, d, make, test, opt in targets(T):
        jobs.append((f"empty/{name}", empty_case, (name, spec, d, make, test)))
    # large samples (of every kind of size)
    for i, (name, spec, d, make, test, opt) in enumerate(targets(T)):
        for sh in ck.pick(((33, 1), (101,), (257,))[i % 3:][:1] + ((20, 50), (1030,))[i % 2:][:1], (33, 101, 257, (20, 50), 1030)):
            jobs.append((f"large/{name}/{sh}", seeds_case, (name, spec, d, make, test, sh, 1)))
    for sh in [1, 2, 3, 5, (2,), (3,), (2, 2), (2, 3), (1, 4), (2, 1), (2, 2, 2), (1, 1, 3)]:
        jobs.append((f"weights/{sh}", weights_case, (sh, ck.pick(2000, 20000))))

    def job(k, items):
        for key, fn, a in items:
            k.run(key, fn, k, *a, repro=f"{a[0]} {a[1]!r}"[:300])
    ck.pmap(job, [jobs[i::96] for i in range(96)])
    ck.sample(jobs[3][0]); ck.sample(jobs[-1][0])
    ck.assumptions.append("paths on which a whole normal vector or weight vector is exactly zero are outside the property")


def seeds_case(ck, name, spec, d, make, test, shape, n):
    f = make(spec.build() if spec else None)
    for seed in range(n):
        r = f(np.random.default_rng(seed), shape=shape)
        ck.nstates += 1; ck.trace(); ck.outcome("seeded")
        verify(ck, name, spec, d, test, shape, r, lambda: f"default_rng({seed})")
