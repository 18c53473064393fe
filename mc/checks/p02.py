"""P02: sequences of rigid transforms, explored breadth-first over the exact rigid-motion model."""
from itertools import product
import numpy as np
from .. import zoo, exact as ex
from ..exact import farr, fr

# generator alphabets: (name, mode, Q, t); mode: 'T' transform, 'C' rotate_about_center
T3 = [("1", -2, "1/2"), (0, 3, -1)]


def gens(dim, has_rac):
    R = ex.ROT[dim]
    tv = {1: [(2,), (-3,)], 2: [(1, -2), (0, 3)], 3: [(1, -2, zoo.H), (0, 3, -1)], 4: [(1, -2, zoo.H, 0), (0, 0, 3, -1)]}[dim]
    tv = [tuple(map(fr, t)) for t in tv]
    rn = {1: ["I", "I"], 2: ["q90", "345"], 3: ["x90", "third*z345"], 4: ["perm", "quat"]}[dim]
    g = [
        ("rot:" + rn[0], "T", R[rn[0]], None),
        ("rot:" + rn[1], "T", R[rn[1]], None),
        ("trans0", "T", None, tv[0]),
        ("trans1", "T", None, tv[1]),
        ("both", "T", R[rn[1]], tv[0]),
        ("both'", "T", ex.tr(R[rn[1]]), tv[1]),
        ("both90", "T", R[rn[0]], tv[0]),
        ("none", "T", None, None),
    ]
    if has_rac:
        g.append(("about:" + rn[1], "C", R[rn[1]], None))
    return g


def apply_model(spec, g):
    _, mode, Q, t = g
    if mode == "T":
        return spec.move(Q, t)
    return spec.with_pose(ex.mm(Q, spec.R), spec.c)


def apply_impl(s, g, num=farr):
    _, mode, Q, t = g
    if mode == "C":
        return s.rotate_about_center(num(Q))
    kw = {}
    if Q is not None:
        kw["rotation"] = num(Q)
    if t is not None:
        kw["translation"] = num(t)
    return s.transform(**kw)


def rows_match(A, B, tol=1e-8):
    A, B = np.atleast_2d(A), np.atleast_2d(B)
    if A.shape != B.shape:
        return False
    if len(A) > 200:
        from scipy.spatial import cKDTree
        d, k = cKDTree(B).query(A)
        if np.max(d) > tol:
            return False
        if len(set(k.tolist())) == len(A):
            return True
    used = set()
    for a in A:
        d = np.linalg.norm(B - a, axis=1)
        k = next((int(i) for i in np.argsort(d) if int(i) not in used), None)
        if k is None or d[k] > tol:
            return False
        used.add(k)
    return True


def sizes(s):
    """Observable sizes of a rigeo shape, which motions must preserve."""
    out = {}
    for a in ("half_extents", "volume", "length", "radius", "inner_length", "full_length", "side_lengths", "diaglen", "rank", "nv", "dim"):
        if hasattr(s, a):
            out[a] = np.asarray(getattr(s, a), dtype=float).copy()
    return out


def observe(s):
    """Everything observable about the pose (used for before/after comparison)."""
    out = sizes(s)
    for a in ("center", "rotation", "vertices"):
        if hasattr(s, a):
            out[a] = np.array(getattr(s, a), dtype=float).copy()
    if hasattr(s, "endpoints"):
        out["endpoints"] = np.array(s.endpoints(), float)
    return out


def same_obs(a, b, tol=1e-9):
    return set(a) == set(b) and all(a[k].shape == b[k].shape and np.allclose(a[k], b[k], atol=tol, rtol=tol) for k in a)


def probe_subset(spec, limit=260):
    P = spec.probes()
    ins = [p for p in P if p[1]]
    out = [p for p in P if not p[1]]
    # prefer extreme inside points and near outside points
    key = lambda p: -max(abs(float(a)) for a in p[0])
    ins = sorted(ins, key=key)[: limit // 2] + ins[:: max(1, len(ins) // 40)]
    out = sorted(out, key=lambda p: -key(p))[: limit // 2] + out[:: max(1, len(out) // 40)]
    P = ins + out
    return np.array([farr(x) for x, _ in P]), np.array([b for _, b in P])


def check_node(ck, s, spec, X, want, size0, path):
    W = X @ spec.Rf.T + spec.cf
    got = np.asarray(s.contains(W))
    ck.step(len(W))
    bad = np.nonzero(got != want)[0]
    ck.expect(len(bad) == 0, "wrong-set", lambda: f"after {path}: contains({W[bad[0]].tolist()}) = {got[bad[0]]}, the image of the original says {want[bad[0]]}")
    ck.expect(same_obs(sizes(s), size0), "size-changed", lambda: f"after {path}: sizes {sizes(s)} != {size0}")
    if hasattr(s, "center"):
        ck.expect(np.allclose(s.center, spec.cf, atol=1e-9), "center", lambda: f"after {path}: center {s.center} expected {spec.cf}")
    if spec.kind in ("poly", "box"):
        loc = spec.V if spec.kind == "poly" else spec.vertices_local()
        V = np.array([farr(v) for v in loc]) @ spec.Rf.T + spec.cf
        ck.expect(rows_match(s.vertices, V), "vertices", lambda: f"after {path}: vertices {s.vertices.tolist()} expected {V.tolist()}")
    if spec.kind == "cyl":
        e = spec.Rf[:, 2] * float(spec.L) / 2
        ck.expect(rows_match(s.endpoints(), [spec.cf + e, spec.cf - e]), "endpoints", f"after {path}: wrong end points")
    if hasattr(s, "E"):
        E = spec.Rf @ np.diag(farr(spec.h) ** 2) @ spec.Rf.T
        ck.expect(np.allclose(s.E, E, atol=1e-9), "E", f"after {path}: E matrix differs")


def explore(ck, spec0, depth, num=farr, motions=False):
    s0 = spec0.build(num)
    X, want = probe_subset(spec0)
    size0 = sizes(s0)
    obs0 = observe(s0)
    G = gens(spec0.dim, hasattr(s0, "rotate_about_center"))
    if motions:
        # tiny and nearly half turns, tiny and large shifts (turns of general polyhedra by
        # tiny angles meet the known finding on slightly tilted polyhedra, see P03)
        M = {n: m for n, m in ex.MOTIONS[spec0.dim].items() if spec0.kind != "poly" or m[0] is None}
        G = [(n, "T", Q, None if t is None else tuple(map(fr, t))) for n, (Q, t) in M.items()] + [G[-1] if G[-1][1] == "C" else G[1], G[4]]
        G += [("about:" + n, "C", Q, None) for n, (Q, t) in M.items() if Q is not None and hasattr(s0, "rotate_about_center")]
    kind = type(s0)
    frontier = [((), s0, spec0)]
    check_node(ck, s0, spec0, X, want, size0, "()")
    for _ in range(depth):
        nxt = []
        for path, s, spec in frontier:
            before = observe(s)
            for g in G:
                p2 = path + (g[0],)
                s2 = apply_impl(s, g, num)
                sp2 = apply_model(spec, g)
                ck.state(sp2.key)
                ck.step(); ck.trace(); ck.outcome(f"len{len(p2)}")
                ck.expect(type(s2) is kind, "kind", lambda: f"after {p2}: {type(s2).__name__} from {kind.__name__}")
                ck.expect(s2 is not s, "same-object", f"{p2} returned the original object")
                check_node(ck, s2, sp2, X, want, size0, p2)
                # inverse motion
                if g[1] == "T":
                    Q = ex.eye(spec.dim) if g[2] is None else ex.tr(g[2])
                    t = ex.zeros(spec.dim) if g[3] is None else ex.sc(fr(-1), ex.mv(Q, g[3]))
                    s3 = s2.transform(rotation=num(Q), translation=num(t))
                else:
                    s3 = s2.rotate_about_center(num(ex.tr(g[2])))
                ck.step()
                ck.expect(same_obs(observe(s3), before, 1e-8), "inverse", lambda: f"after {p2} and its inverse: {observe(s3)} != {before}")
                nxt.append((p2, s2, sp2))
            ck.expect(same_obs(observe(s), before, 0), "operand-modified", lambda: f"transforming the shape reached by {path} modified it")
        frontier = nxt
    ck.expect(same_obs(observe(s0), obs0, 0), "operand-modified", "the original shape was modified")
    # same overall motion => same shape: nodes with equal exact pose must be observably equal
    groups = {}
    for path, s, spec in frontier:
        groups.setdefault((spec.R, spec.c), []).append((path, s))
    for ps in groups.values():
        o = observe(ps[0][1])
        for path, s in ps[1:]:
            ck.step(); ck.outcome("same-motion-pairs")
            ck.expect(same_obs(observe(s), o, 1e-8), "path-dependent", lambda: f"{ps[0][0]} and {path} are the same motion but give different shapes")


def main(ck):
    locs = ck.pick(zoo.LOCAL3, zoo.LOCAL3_T) + zoo.LOCAL_LOW + zoo.LOCAL4
    jobs = []
    for loc in locs:
        depth = ck.pick(2, 3) if loc.kind in ("poly", "box") or loc.dim == 4 else ck.pick(3, 3)
        for pn, (R, c) in {"origin": (None, None), "posed": (list(ex.ROT[loc.dim].values())[-1], zoo.CENT[loc.dim][1])}.items():
            jobs.append((f"seq/{zoo.name(loc)}/{pn}", loc if R is None else loc.with_pose(R, tuple(map(fr, c))), depth))
    # integer-typed arguments; thin, tiny and large shapes
    for loc in zoo.LOCAL3_T + zoo.LOCAL_LOW + zoo.LOCAL4:
        for rn, R, c in list(zoo.int_poses(loc.dim))[-1:]:
            jobs.append((f"int/{zoo.name(loc)}/{rn}", loc.with_pose(R, c), ck.pick(1, 2), zoo.iarr))
            jobs.append((f"int0/{zoo.name(loc)}", loc, ck.pick(1, 2), zoo.iarr))
    for loc in zoo.REG3 + zoo.REG_LOW + zoo.REG4:
        for rn, R, c in zoo.reg_poses(loc.dim, loc.kind == "poly"):
            jobs.append((f"regime/{zoo.name(loc)}/{rn}", loc.with_pose(R, c), ck.pick(1, 2)))
    for loc in zoo.LOCAL3_T + zoo.LOCAL_LOW + zoo.LOCAL4:
        for pn, (R, c) in {"origin": (None, None), "posed": (list(ex.ROT[loc.dim].values())[-1], zoo.CENT[loc.dim][1])}.items():
            jobs.append((f"motion/{zoo.name(loc)}/{pn}", loc if R is None else loc.with_pose(R, tuple(map(fr, c))), 2, farr, True))
    jobs.sort(key=lambda j: -j[2])
    def job(k, j):
        k.run(j[0], explore, k, *j[1:], repro=j[1].repro())
    ck.pmap(job, jobs)
    ck.sample(dict(shape=repr(jobs[0][1]), depth=jobs[0][2], generators=[g[0] for g in gens(3, True)]))
    ck.notes["depth"] = max(j[2] for j in jobs)
