"""P01: contains() is exactly the denoted set."""
import itertools
import numpy as np
from .. import zoo, exact as ex
from ..exact import farr

TOLS = (1e-8, 1e-6, 1e-3)


def shape_case(ck, spec, num=farr, tols=True):
    s = spec.build(num)
    X, inside = spec.world_probes()
    ck.state(spec.key)
    got = np.asarray(s.contains(X))
    ck.step(len(X)); ck.trace(len(X))
    ck.outcome("in", int(inside.sum())); ck.outcome("out", int((~inside).sum()))
    if not ck.expect(got.shape == (len(X),), "batch-shape", lambda: f"contains returned shape {got.shape} for {len(X)} points"):
        return
    bad = np.nonzero(got != inside)[0]
    if len(bad):
        i = bad[0]
        ck.fail("wrong-answer", f"contains({X[i].tolist()}) = {bool(got[i])}, set membership is {bool(inside[i])} ({len(bad)} of {len(X)} probes differ)", point=X[i].tolist())
        return
    # single-point queries and list input agree with the batch answer
    n = len(X)
    idx = sorted(set(list(range(0, n, max(1, n // ck.pick(60, 400)))) + list(np.nonzero(inside)[0][:: max(1, int(inside.sum()) // 20)])))
    for i in idx:
        one = s.contains(X[i])
        ck.step(); ck.trace()
        ck.expect(np.ndim(one) == 0 and bool(one) == bool(inside[i]), "single-query", lambda: f"contains of the single point {X[i].tolist()} = {one!r}, expected {bool(inside[i])}")
    sub = X[idx]
    ck.expect(list(np.asarray(s.contains(sub.tolist()))) == list(inside[idx]), "list-query", "list input gives different answers")
    for k in (1, 2, 3):
        for j in range(0, len(idx) - k, max(1, len(idx) // 12)):
            g = np.asarray(s.contains(sub[j:j + k]))
            ck.step(k)
            ck.expect(g.shape == (k,) and list(g) == list(inside[idx][j:j + k]), "small-batch", lambda: f"batch of {k} points answered {g!r}")
    # other layouts of the same batch
    d = spec.dim
    for Y in (np.asfortranarray(sub), np.repeat(sub, 2, axis=0)[::2], tuple(map(tuple, sub.tolist()))):
        ck.step(len(sub))
        ck.expect(list(np.asarray(s.contains(Y))) == list(inside[idx]), "layout", lambda: f"another layout of the same points ({type(Y).__name__}) gives different answers")
    # batches with as many points as dimensions, and their transposes in memory
    for j in range(0, len(sub) - d, max(1, len(sub) // 12)):
        ck.step(d)
        g = np.asarray(s.contains(np.array(sub[j:j + d].T.tolist()).T))
        ck.expect(g.shape == (d,) and list(g) == list(inside[idx][j:j + d]), "square-batch", lambda: f"batch of {d} points answered {g!r}")
    # integer points
    lo, hi = np.ceil(X.min(0) - 1e-9), np.floor(X.max(0) + 1e-9)
    if np.all(lo <= hi) and np.all(hi - lo <= 6):
        I = np.array(list(np.ndindex(*(hi - lo + 1).astype(int)))) + lo.astype(int)
        want = np.array([spec.inside(tuple(int(x) for x in q)) for q in I])
        g = np.asarray(s.contains(I))
        ck.step(len(I)); ck.trace(len(I))
        ck.expect(list(g) == list(want), "integer-points", lambda: f"integer points {I[np.nonzero(g != want)[0][:3]].tolist()} misclassified")
    if not tols:
        return
    # tolerance semantics
    prev = None
    for tol in TOLS:
        g = np.asarray(s.contains(X, tol=tol))
        ck.step(len(X))
        if prev is not None:
            ck.expect(bool(np.all(g | ~prev)), "tolerance-monotone", f"raising tol to {tol} removed points")
        prev = g
    g = np.asarray(s.contains(X, tol=1e3))
    ck.expect(bool(np.all(g | ~prev)), "tolerance-monotone", "raising tol to 1e3 removed points")
    for u in boundary_normals(spec):
        b = spec.support_point(u)
        for tol in TOLS[1:]:
            ck.step(2)
            for d, want in ((tol / 100, True), (tol * 100, False)):
                p = b + d * u
                r = s.contains(p, tol=tol)
                rb = s.contains([p, b], tol=tol)
                ck.expect(bool(r) == want and list(np.asarray(rb)) == [want, True], "tolerance-used",
                          lambda: f"contains({p.tolist()}, tol={tol}) = {r}, batch {rb}; the point is {d:g} outside the boundary")
                import rigeo as rg
                rp = s.contains_polyhedron(rg.ConvexPolyhedron.from_vertices(np.array([p, b])), tol=tol)
                ck.expect(bool(rp) == want, "contains_polyhedron-tol", lambda: f"contains_polyhedron with a vertex {d:g} outside and tol={tol} is {rp}")


MANY = (31, 32, 33, 64, 100, 101, 128, 255, 257, 500, 1000, 1001, 1024, 1025, 2049, 4097, 5003, 10001, 16385, 20011)


def many_case(ck, spec):
    """large batches, of every kind of size: mixed, all inside but one, all outside but one"""
    s = spec.build()
    X, inside = spec.world_probes()
    I, O = np.nonzero(inside)[0], np.nonzero(~inside)[0]
    for n in MANY + ck.pick((), (30011, 65537, 100003, 262147)):
        ck.state((spec.key, n)); ck.step(n); ck.trace(); ck.outcome("large-batch")
        idx = np.arange(n) * 7 % len(X) if len(X) % 7 else np.arange(n) * 11 % len(X)
        got = np.asarray(s.contains(X[idx]))
        ck.expect(got.shape == (n,) and np.array_equal(got, inside[idx]), "large-batch", lambda: f"a batch of {n} points is answered otherwise than its points one by one")
        for at in (0, 1, n // 2, n - 2, n - 1):
            for a, b, want in ((I, O, False), (O, I, True)):
                if not len(a) or not len(b):
                    continue
                Y = X[np.resize(a, n)]
                Y[at] = X[b[(at + n) % len(b)]]
                w = np.full(n, not want)
                w[at] = want
                ck.step(n)
                got = np.asarray(s.contains(Y))
                if not ck.expect(got.shape == (n,) and np.array_equal(got, w), "large-batch", lambda: f"in a batch of {n} points all {'outside' if want else 'inside'} but number {at}, contains is wrong"):
                    return


def boundary_normals(spec):
    """World unit vectors u whose support point has outward normal u (faces/axes of the shape)."""
    if spec.kind == "poly":
        out = []
        for f in spec.hull.facets:
            a = -np.array(farr(f[:-1]))
            if np.linalg.norm(a) < 1e-12:
                continue
            out.append(spec.Rf @ (a / np.linalg.norm(a)))
        return out
    E = np.vstack([np.eye(spec.dim), -np.eye(spec.dim)])
    return [spec.Rf @ e for e in E]


def poly_in_shape(ck, outer, inner):
    """contains_polyhedron == all vertices (hence all points) inside, decided exactly."""
    want = all(outer.inside(v) for v in inner.world_V)
    o, i = outer.build(), inner.build()
    got = o.contains_polyhedron(i)
    ck.step(); ck.trace(); ck.outcome("poly-in" if want else "poly-out")
    ck.expect(bool(got) == want, "contains_polyhedron", lambda: f"{outer!r}.contains_polyhedron({inner!r}) = {got}, expected {want}")
    if not want:
        return
    g2 = o.contains_polyhedron(i, tol=1e-6)
    ck.expect(bool(g2), "contains_polyhedron-tol", "a larger tol turned True into False")


def main(ck):
    F = zoo.F
    loc3 = ck.pick(zoo.LOCAL3, zoo.LOCAL3_T)
    specs = []
    for loc in loc3 + zoo.LOCAL_LOW + zoo.LOCAL4:
        for rn, R, c in zoo.poses(loc.dim, ck.thorough):
            specs.append((f"contains/{zoo.name(loc)}/{rn}/{','.join(map(str, c))}", loc.with_pose(R, c)))
    for loc in zoo.REG3 + zoo.REG_LOW + zoo.REG4:
        for rn, R, c in zoo.reg_poses(loc.dim, loc.kind == "poly"):
            specs.append((f"regime/{zoo.name(loc)}/{rn}", loc.with_pose(R, c), farr, False))
    for loc in zoo.LOCAL3_T + zoo.LOCAL_LOW + zoo.LOCAL4:
        for rn, R, c in zoo.int_poses(loc.dim):
            for n, num in (("int", zoo.iarr), ("list", zoo.larr)):
                if n == "int" or rn != "I":
                    specs.append((f"{n}/{zoo.name(loc)}/{rn}/{','.join(map(str, c))}", loc.with_pose(R, c), num, n == "int" and ck.thorough))
    specs += list(zoo.via_specs(low=True))
    many = []
    for kind in ("box", "ell", "cyl", "cap", "poly"):
        for locs in (zoo.LOCAL3_T, zoo.LOCAL_LOW, zoo.LOCAL4):
            ls = [l for l in locs if l.kind == kind]
            for loc in ls[:: max(1, len(ls) // 2)]:
                rn, R, c = list(zoo.poses(loc.dim, False))[-1]
                many.append((f"many/{zoo.name(loc)}/{rn}", loc.with_pose(R, c)))

    def job(k, item):
        for key, sp, *a in item:
            k.run(key, shape_case, k, sp, *a, repro=sp.repro())
    ck.pmap(job, [specs[i::64] for i in range(64)])

    def mjob(k, item):
        for key, sp in item:
            k.run(key, many_case, k, sp, repro=sp.repro())
    ck.pmap(mjob, [many[i::32] for i in range(32)])
    ck.sample(dict(case=specs[0][0], points=len(specs[0][1].probes())))
    # contains_polyhedron: every outer shape x small polyhedra at a grid of offsets
    inn = [zoo.PolyS([(0, 0, 0), (F(1, 4), 0, 0), (0, F(1, 4), 0), (0, 0, F(1, 4))]),
           zoo.PolyS([(0, 0, 0), (0, 0, 3)]), zoo.PolyS([(0, 0, 0)]),
           zoo.PolyS([(F(-1, 4), 0, 0), (F(1, 4), 0, 0), (0, F(1, 4), 0), (0, F(-1, 4), 0)])]
    offs = [(0, 0, 0), (F(1, 2), 0, 0), (0, F(7, 4), 0), (0, 0, F(3, 4)), (0, 0, F(5, 2)), (0, 0, F(-3, 2)), (F(3, 4), F(3, 4), 0), (5, 0, 0)]
    R = ex.R3["third*z345"]
    jobs = []
    for loc in loc3:
        for a, q in enumerate(inn):
            for o in offs:
                for rn, Rq in (("I", ex.eye(3)), ("r", R)):
                    t = zoo.C3[1] if rn == "r" else (0, 0, 0)
                    outer = loc.move(Rq, tuple(map(ex.fr, t)))
                    inner = q.move(None, tuple(map(ex.fr, o))).move(Rq, tuple(map(ex.fr, t)))
                    jobs.append((f"inpoly/{zoo.name(loc)}/{a}/{','.join(map(str, o))}/{rn}", outer, inner))
    # many vertices, exactly one of them outside (each position in turn)
    many = [sorted(v for v in itertools.product((-1, F(-1, 2), F(1, 2), 1), repeat=3) if sorted(map(abs, v)) == [F(1, 2), F(1, 2), 1])]
    circle = [(F(1 - t * t, 1 + t * t), F(2 * t, 1 + t * t)) for t in [F(k, 6) for k in range(-6, 7)]]
    circle = sorted(set(circle + [(-x, y) for x, y in circle]))
    many.append([(x, y, z) for z in (F(-1, 2), F(1, 2)) for x, y in circle])
    for loc in [zoo.BoxS((F(5, 4), F(5, 4), F(5, 4))), zoo.EllS((F(3, 2), F(3, 2), F(3, 2))), zoo.CylS(F(5, 2), F(5, 4)), zoo.CapS(F(3, 2), F(5, 4)),
                zoo.PolyS([(6, 0, 0), (-6, 0, 0), (0, 6, 0), (0, -6, 0), (0, 0, 6), (0, 0, -6)])]:
        for a, V in enumerate(many):
            for k in range(len(V)):
                for f in (F(5, 2), F(1)) if k == 0 else (F(5, 2),):
                    W = list(V)
                    W[k] = tuple(f * (3 if loc.kind == "poly" else 1) * x for x in V[k])
                    for rn, Rq in (("I", ex.eye(3)), ("r", R)):
                        t = tuple(map(ex.fr, zoo.C3[1])) if rn == "r" else (0, 0, 0)
                        jobs.append((f"inpoly/many/{loc.kind}/{a}/{k}/{f}/{rn}", loc.move(Rq, t), zoo.PolyS(W).move(Rq, t)))
    def job2(k, item):
        for key, o, i in item:
            k.run(key, poly_in_shape, k, o, i, repro=f"o = {o!r}; i = {i!r}; o.contains_polyhedron(i)")
    ck.pmap(job2, [jobs[i::16] for i in range(16)])
    ck.assumptions += ["points are rational; boundary points that are exactly representable as rationals are probed, and classified exactly"]
