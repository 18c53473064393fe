"""P03: face form <-> span form conversions, against exact hulls and Fourier-Motzkin."""
from fractions import Fraction as F
from itertools import combinations, product
import numpy as np
from .. import exact as ex, fm
from ..exact import farr, fr


# ---- rationalisation of results -------------------------------------------
def rat_rows(ff):
    """Exact rows of a FaceForm whose data are (scaled) small rationals."""
    A, b = np.asarray(ff.A, float), np.asarray(ff.b, float)
    out = []
    for a, bb in zip(A, b):
        s = np.max(np.abs(a))
        if s < 1e-12:
            s = 1.0
        r = [fm.rat(x / s) for x in a] + [fm.rat(bb / s)]
        if any(x is None for x in r):
            return None
        out.append((tuple(r[:-1]), r[-1]))
    return out


def rat_gens(sf):
    V = [] if sf.vertices is None else [tuple(fm.rat(x) for x in v) for v in np.asarray(sf.vertices, float)]
    R = []
    for r in ([] if sf.rays is None else np.asarray(sf.rays, float)):
        s = np.max(np.abs(r))
        R.append(tuple(fm.rat(x / (s if s > 0 else 1)) for x in r))
    if any(x is None for v in V + R for x in v):
        return None
    return V, R


def hull_of(V, R, dim):
    if not V:
        V = [(F(0),) * dim]
    return ex.Hull(V, R)


def hull_rows(H):
    """Exact inequality rows a.x <= b of a Hull."""
    rows = []
    for f in H.facets:
        rows.append((tuple(-x for x in f[:-1]), f[-1]))
    for e in H.eqs:
        rows.append((tuple(-x for x in e[:-1]), e[-1]))
        rows.append((tuple(e[:-1]), -e[-1]))
    return rows


def sat_gens(rows, V, R):
    return all(ex.dot(a, v) <= b for a, b in rows for v in V) and all(ex.dot(a, r) <= 0 for a, _ in rows for r in R)


def same_rows_hull(rows, H):
    """{rows} == H ?  exact"""
    V = H.V
    if not sat_gens(rows, V, H.rays):
        return "excludes"
    for a, b in hull_rows(H):
        if any(a):
            if not fm.implied(rows, a, b):
                return "too-large"
    return None


def same_gens_hull(V, R, H, dim):
    if not V and not R:
        return "empty"
    VV = V or [(F(0),) * dim]
    if not (all(H.contains(v) for v in VV) and all(H.contains_dir(r) for r in R)):
        return "too-large"
    G = hull_of(V, R, dim)
    if not (all(G.contains(v) for v in H.V) and all(G.contains_dir(r) for r in H.rays)):
        return "misses"
    return None


def irredundant_rows(rows):
    for i, (a, b) in enumerate(rows):
        if fm.implied(rows[:i] + rows[i + 1:], a, b):
            return False
    return True


def irredundant_gens(V, R, dim):
    for i, v in enumerate(V):
        rest = V[:i] + V[i + 1:]
        if not rest:
            # dropping the only vertex leaves a cone with apex 0
            if R and v == (F(0),) * dim:
                continue
            continue
        if hull_of(rest, R, dim).contains(v):
            return False
    for i, r in enumerate(R):
        rest = R[:i] + R[i + 1:]
        if hull_of(V or [(F(0),) * dim], rest, dim).contains_dir(r):
            return False
    return True


# ---- checks ---------------------------------------------------------------
def chk_face(ck, ff, H, what):
    ck.step()
    rows = rat_rows(ff)
    if not ck.expect(rows is not None, "not-rational", lambda: f"{what}: unexpected coefficients {np.asarray(ff.A).tolist()} {np.asarray(ff.b).tolist()}"):
        return None
    d = same_rows_hull(rows, H)
    ck.expect(d is None, "set-changed", lambda: f"{what}: face form {d}: A={np.asarray(ff.A).tolist()} b={np.asarray(ff.b).tolist()}; set is conv{[tuple(map(str,v)) for v in H.V]} + cone{[tuple(map(str,v)) for v in H.rays]}")
    ck.expect(ff.nf == len(rows) and ff.dim == H.dim, "counts", lambda: f"{what}: nf={ff.nf}, dim={ff.dim}")
    return rows


def chk_span(ck, sf, H, what):
    ck.step()
    if not ck.expect(sf is not None, "empty", f"{what}: no span form for a non-empty set"):
        return None
    g = rat_gens(sf)
    if not ck.expect(g is not None, "not-rational", lambda: f"{what}: {sf}"):
        return None
    d = same_gens_hull(*g, H, H.dim)
    ck.expect(d is None, "set-changed", lambda: f"{what}: span form {d}: {sf}; set is conv{[tuple(map(str,v)) for v in H.V]} + cone{[tuple(map(str,v)) for v in H.rays]}")
    bounded = not any(any(r) for r in H.rays)
    ck.expect(bool(sf.bounded()) == bounded, "bounded", lambda: f"{what}: bounded() is {sf.bounded()}: {sf}")
    ck.expect(sf.nv == len(g[0]) and sf.nr == len(g[1]) and sf.dim == H.dim, "counts", lambda: f"{what}: nv={sf.nv} nr={sf.nr} dim={sf.dim}")
    return g


def is_cone(H):
    """The set is a cone with apex 0 (and not just {0}); exact."""
    z = (F(0),) * H.dim
    return bool(H.rays) and H.contains(z) and all(H.contains_dir(v) for v in H.V)


def transforms(dim):
    R = ex.ROT[dim]
    n = {1: ("neg",), 2: ("q90", "345"), 3: ("z90", "third"), 4: ("perm",)}[dim]
    t = tuple(map(fr, (1, -2, F(1, 2), 3)[:dim]))
    out = [(R[k], t) for k in n] + [(R[n[0]], None), (None, t)]
    return out


def kw(Q, t):
    d = {}
    if Q is not None:
        d["rotation"] = farr(Q)
    if t is not None:
        d["translation"] = farr(t)
    return d


def moved(H, Q, t):
    Q = Q or ex.eye(H.dim)
    t = t or ex.zeros(H.dim)
    return ex.Hull([ex.add(ex.mv(Q, v), t) for v in H.V], [ex.mv(Q, r) for r in H.rays])


VARIANTS = {
    # other ways to give the same set: (vertices, rays, span) as float arrays -> the same
    "rays*1e-4": lambda V, R, S: (V, None if R is None else R * (1e-4 * np.arange(1, len(R) + 1))[:, None], S),
    "rays*1e3": lambda V, R, S: (V, None if R is None else R * (1e3 / np.arange(1, len(R) + 1))[:, None], S),
    "span*1e-3": lambda V, R, S: (V, R, None if S is None else 1e-3 * S),
    "duplicates": lambda V, R, S: tuple(None if X is None else np.vstack((X, X[::-1])) for X in (V, R, S)),
    "reversed": lambda V, R, S: tuple(None if X is None else X[::-1] for X in (V, R, S)),
    "integers": lambda V, R, S: tuple(None if X is None else X.astype(int) if np.all(X == np.round(X)) else X for X in (V, R, S)),
    "lists": lambda V, R, S: (None if V is None else V.tolist(), None if R is None else R.tolist(), S),
    "both-axes": lambda V, R, S: (V, R if S is None else np.vstack(([] if R is None else [*R], S, -S)) if R is not None else np.vstack((S, -S)), None),
}


def scaled_set(it, k):
    return tuple(ex.sc(k, v) for v in it[0]), it[1], it[2]


def span_case(ck, V, R, S, depth, variant=None):
    import rigeo as rg
    dim = len((V or R or S)[0])
    RR = list(R) + [x for s in S for x in (s, ex.sc(F(-1), s))]
    H = hull_of(list(V), RR, dim)
    if not any(any(a) for a, _ in hull_rows(H)):
        return  # the whole space has no face form (outside the property)
    ck.state(("V", tuple(V), tuple(R), tuple(S)))
    f = lambda X: farr(X) if X else None
    args = (f(V), f(R), f(S))
    if variant:
        args = VARIANTS[variant](*args)
    sf = rg.SpanForm(vertices=args[0], rays=args[1], span=args[2])
    ck.trace()
    ck.outcome("cone" if is_cone(H) else "bounded" if not RR else "unbounded")
    chk_span(ck, sf, H, "constructed")
    ff = sf.to_face_form()
    chk_face(ck, ff, H, "to_face_form")
    # all sequences of operations up to the given depth
    frontier = [("F", ff), ("S", sf)]
    names = {id(ff): "to_face_form", id(sf): "span"}
    for _ in range(depth):
        nxt = []
        for typ, obj in frontier:
            for op in ("convert", "canonical"):
                if op == "convert":
                    o = obj.to_span_form() if typ == "F" else obj.to_face_form()
                    t2 = "S" if typ == "F" else "F"
                else:
                    o = obj.canonical()
                    t2 = typ
                nm = names[id(obj)] + "." + op
                if t2 == "F":
                    rows = chk_face(ck, o, H, nm)
                    if rows and op == "canonical" and any(any(a) for a, _ in rows):
                        ck.expect(irredundant_rows([r for r in rows]), "redundant", lambda: f"{nm}: redundant row left: {o}")
                else:
                    g = chk_span(ck, o, H, nm)
                    if g:
                        if op == "canonical":
                            ck.expect(irredundant_gens(*g, dim), "redundant", lambda: f"{nm}: redundant generator left: {o}")
                        if typ == "F":
                            ck.expect(bool(o.is_cone()) == is_cone(H), "is_cone", lambda: f"{nm}: is_cone() = {o.is_cone()} for {o}")
                ck.trace()
                if o is not None:
                    names[id(o)] = nm
                    nxt.append((t2, o))
        keepalive = nxt
        frontier = nxt
    # rigid transforms of both forms
    for Q, t in transforms(dim):
        if t is None and V == () and False:
            continue
        H2 = moved(H, Q, t)
        s2 = sf.transform(**kw(Q, t))
        if V or t is None:
            chk_span(ck, s2, H2, f"span.transform({kw(Q,t)})")
        f2 = ff.transform(**kw(Q, t))
        chk_face(ck, f2, H2, f"face.transform({kw(Q,t)})")
        ck.trace(2)


def face_case(ck, rows, eqs):
    """rows/eqs: lists of (a,b); exact emptiness by Fourier-Motzkin."""
    import rigeo as rg
    dim = len((rows or eqs)[0][0])
    allrows = list(rows) + [x for a, b in eqs for x in ((a, b), (ex.sc(F(-1), a), -b))]
    ck.state(("H", tuple(rows), tuple(eqs)))
    A = farr([a for a, _ in rows]) if rows else np.zeros((0, dim))
    b = farr([b for _, b in rows]) if rows else np.zeros(0)
    if eqs:
        ff = rg.FaceForm(A, b, farr([a for a, _ in eqs]), farr([b for _, b in eqs]))
    else:
        ff = rg.FaceForm(A, b)
    ck.trace()
    got = rat_rows(ff)
    ck.expect(got is not None and fm.subset(allrows, got) and fm.subset(got, allrows), "constructor", lambda: f"face form {ff} differs from its inequalities/equalities")
    nonempty = fm.feasible([(a, b, False) for a, b in allrows])
    sf = ff.to_span_form()
    ck.step()
    if not nonempty:
        ck.outcome("empty")
        ck.expect(sf is None, "empty-has-span", lambda: f"empty set {allrows} has span form {sf}")
        return
    ck.outcome("nonempty")
    if not ck.expect(sf is not None, "empty", "no span form for a non-empty set"):
        return
    g = rat_gens(sf)
    if not ck.expect(g is not None, "not-rational", f"{sf}"):
        return
    V, R = g
    H = hull_of(V, R, dim)
    VV = V or [(F(0),) * dim]
    ck.expect(sat_gens(allrows, VV, R), "set-changed", lambda: f"span form {sf} leaves {allrows}")
    ck.expect(all(fm.implied(allrows, a, b) for a, b in hull_rows(H) if any(a)), "set-changed", lambda: f"span form {sf} misses part of {allrows}")
    recess = any(fm.feasible([(a, 0, False) for a, _ in allrows] + [(d, F(-1), False)]) for d in
                 [tuple(F(s) if i == j else F(0) for j in range(dim)) for i in range(dim) for s in (1, -1)])
    ck.expect(bool(sf.bounded()) == (not recess), "bounded", lambda: f"bounded() = {sf.bounded()} for {allrows}")
    ck.expect(bool(sf.is_cone()) == is_cone(H), "is_cone", lambda: f"is_cone() = {sf.is_cone()} for {sf}")
    cf = ff.canonical()
    rows2 = chk_face(ck, cf, H, "canonical") if any(any(a) for a, _ in hull_rows(H)) else None
    if rows2:
        ck.expect(irredundant_rows(rows2), "redundant", lambda: f"canonical face form has a redundant row: {cf}")
    back = sf.to_face_form() if any(any(a) for a, _ in hull_rows(H)) else None
    if back is not None:
        chk_face(ck, back, H, "round trip")
    for Q, t in transforms(dim)[:2]:
        chk_face(ck, ff.transform(**kw(Q, t)), moved(H, Q, t), f"face.transform({kw(Q,t)})")


def stack_case(ck, r1, r2):
    import rigeo as rg
    mk = lambda rows: rg.FaceForm(farr([a for a, _ in rows]), farr([b for _, b in rows]))
    f1, f2 = mk(r1), mk(r2)
    ck.state(("stack", r1, r2)); ck.trace()
    both = list(r1) + list(r2)
    for o in (f1.stack(f2), f2.stack(f1)):
        got = rat_rows(o)
        ck.step()
        ck.expect(got is not None and fm.subset(both, got) and fm.subset(got, both), "stack", lambda: f"stack of {f1} and {f2} is {o}")
    o3 = f1.stack(f2).stack(f1)
    got = rat_rows(o3)
    ck.expect(fm.subset(both, got) and fm.subset(got, both), "stack", "stacking again changes the intersection")


def span_space(ck):
    T = ck.thorough
    out = []
    v = lambda L: [tuple(map(fr, x)) for x in L]
    # 1-D
    for k in range(0, 4):
        for V in combinations(v([(-1,), (0,), (1,), (2,)]), k):
            for R in ((), v([(1,)]), v([(-2,)]), v([(1,), (-1,)])):
                if V or R:
                    out.append((tuple(V), tuple(R), ()))
    # 2-D
    pts = v(product((0, 1, 2), (0, 1, 3)) if T else product((0, 1, 2), (0, 1)))
    rays = v([(1, 0), (-1, 0), (0, 1), (1, 1), (-1, 2)])
    Rs = [()] + [(r,) for r in rays] + list(combinations(rays, 2)) + (list(combinations(rays, 3)) if T else [])
    Ss = [(), (v([(1, 0)])[0],), (v([(1, -1)])[0],)]
    for k in range(0, 5 if T else 4):
        for V in combinations(pts, k):
            for R in Rs:
                for S in Ss:
                    if V or R or S:
                        if not T and k == 3 and R and S:
                            continue
                        out.append((tuple(V), tuple(R), tuple(S)))
    # 3-D
    pts = v(product((0, 1), repeat=3))
    Rs = [(), v([(0, 0, 1)]), v([(1, 1, 1), (0, 0, -1)]), v([(1, 0, 0), (0, 1, 0)])] + ([v([(1, 0, 0), (0, 1, 0), (0, 0, 1)]), v([(1, 0, 0), (0, 1, 0), (-1, -1, 0)])] if T else [])
    Ss = [(), v([(1, -1, 0)])] + ([v([(1, 0, 0), (0, 1, 1)])] if T else [])
    for k in range(0, 8 if T else 5):
        for V in combinations(pts, k):
            for R in Rs:
                for S in Ss:
                    if (V or R or S) and not (not T and k >= 3 and (R or S) and len(V) != 4):
                        out.append((tuple(V), tuple(R), tuple(S)))
    # redundant points, degenerate, 3-D and 4-D
    out.append((tuple(v([(0, 0, 0), (2, 0, 0), (1, 0, 0), (0, 2, 0), (F(1, 2), F(1, 2), 0)])), (), ()))
    out.append((tuple(v([(0, 0, 0), (2, 0, 0), (1, 0, 0)])), (), ()))
    out.append((tuple(v([(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (F(1, 8), F(1, 8), F(1, 8), F(1, 8))])), (), ()))
    out.append((tuple(v([(0, 0, 0, 1), (1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, 1)])), tuple(v([(0, 0, 0, 1)])), ()))
    return out


def face_space(ck):
    T = ck.thorough
    out = []
    n2 = [tuple(map(fr, a)) for a in [(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, 1), (-1, -2)]]
    # vary offsets per row so that empty, point, segment and full-dimensional sets all occur
    offs = (-1, 0, 1) if not T else (-1, 0, 1, 2)
    for k in (1, 2, 3) + ((4,) if T else ()):
        for A in combinations(n2, k):
            for b in product(offs, repeat=k):
                if k == 4 and sum(b) % 2:
                    continue
                rows = tuple((a, fr(x)) for a, x in zip(A, b))
                out.append((rows, ()))
    for a in n2[::2]:
        for A in combinations(n2, 2):
            for b in product((0, 1), repeat=2):
                for e in (0, 1):
                    out.append((tuple((x, fr(y)) for x, y in zip(A, b)), ((a, fr(e)),)))
    n3 = [tuple(map(fr, a)) for a in [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]]
    box = tuple((a, fr(1)) for a in n3)
    for a in [(1, 1, 1), (1, -1, 0), (-2, 1, 1)]:
        a = tuple(map(fr, a))
        for b in (-4, -3, -2, -1, 0, 1, 2, 3, 4):
            out.append((box + ((a, fr(b)),), ()))
            out.append((box, ((a, fr(b)),)))
            out.append((box[:5], ((a, fr(b)),)))
    for drop in range(6):
        out.append((box[:drop] + box[drop + 1:], ()))
    # cones (b = 0)
    for A in combinations(n3[::2] + [tuple(map(fr, a)) for a in [(1, 1, 1), (-1, 1, 0), (0, -1, 1)]], 3):
        out.append((tuple((a, fr(0)) for a in A), ()))
    return out


NEAR = {
    "box": [(sx, 2 * sy, 0.5 * sz) for sx in (1, -1) for sy in (1, -1) for sz in (1, -1)],
    "prism": [(0, 0, 0), (2, 0, 0), (0, 1, 0), (0, 0, 3), (2, 0, 3), (0, 1, 3)],
    "pyramid": [(1, 1, 0), (1, -1, 0), (-1, 1, 0), (-1, -1, 0), (0.5, 0, 2)],
    "octahedron": [(2, 0, 0), (-2, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 0.5), (0, 0, -0.5)],
    "tetrahedron": [(0, 0, 0), (2, 0, 0), (0, 1, 0), (0, 0, 1.5)],
}


AXES = {"x": (1, 0, 0), "z": (0, 0, 1), "xy": (1, 1, 0), "xyz": (1, 2, 3), "skew": (-10, 3, 2)}


def tilted(V, axis, t):
    """V rotated by about 2t about an axis (Rodrigues with rational tangent)"""
    u = np.array(axis, float) / np.linalg.norm(axis)
    K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    sn, cs = 2 * t / (1 + t * t), (1 - t * t) / (1 + t * t)
    return np.array(V, float) @ (np.eye(3) + sn * K + (1 - cs) * K @ K).T


def near_case(ck, V, k, ax, e, size=1.0):
    """A polytope one of whose vertices is displaced by a small amount, so that facets are barely twisted;
    also a slightly rotated one, or one of another size or far from the origin."""
    from rigeo.polydd import SpanForm
    W = np.array(V, float)
    if k is not None:
        W[k, ax] += e
    ck.state(("near", tuple(map(tuple, W)))); ck.step(2); ck.trace()
    ff = SpanForm(vertices=W).to_face_form()
    n = np.linalg.norm(ff.A, axis=1)
    slack = lambda X: np.min((ff.b - np.atleast_2d(X) @ ff.A.T) / n, axis=1)
    ck.expect(np.all(slack(W) >= -2 * e - 1e-9 * size), "set-changed", lambda: f"vertices {W.tolist()} are up to {-slack(W).min():.3g} outside their own face form")
    cen = W.mean(axis=0)
    far = np.array([cen + 1.2 * (w - cen) for w in W])
    ck.expect(np.all(slack(far) < 0), "set-changed", lambda: f"the face form of {W.tolist()} also contains {far[np.argmax(slack(far))].tolist()}")
    sf = ff.to_span_form()
    if ck.expect(sf is not None and sf.vertices is not None and sf.rays is None, "set-changed", "converting back does not give a polytope"):
        d = np.min(np.linalg.norm(sf.vertices[:, None] - W[None], axis=2), axis=1)
        d2 = np.min(np.linalg.norm(sf.vertices[:, None] - W[None], axis=2), axis=0)
        ck.expect(np.all(d <= 20 * e + 1e-6 * size) and np.all(d2 <= 20 * e + 1e-6 * size), "set-changed", lambda: f"converting {W.tolist()} back gives {sf.vertices.tolist()}")


def main(ck):
    sp = span_space(ck)
    for nm, V in NEAR.items():
        for p in (3, 4, 6, 10, 13):
            for k in range(len(V)):
                for ax in range(3):
                    ck.run(f"near/{nm}/1e-{p}/{k}/{'xyz'[ax]}", near_case, ck, V, k, ax, 10.0 ** -p, repro=f"{nm} with vertex {k} displaced by 1e-{p} along {'xyz'[ax]}")
    # slightly rotated polytopes
    for nm, V in NEAR.items():
        for an, axis in AXES.items():
            for t in (5e-4, 5e-3, 0.05, 0.25):
                ck.run(f"tilt/{nm}/{an}/{t:g}", near_case, ck, tilted(V, axis, t), None, None, 1e-8, repro=f"{nm} {V} rotated by 2*atan({t}) about {axis}")
    # other sizes, and polytopes far from the origin
    for nm, V in NEAR.items():
        for rn in ("I", "x345*third"):
            W = np.array(V, float) @ farr(ex.R3[rn]).T
            for p in range(-6, 7):
                ck.run(f"size/{nm}/{rn}/1e{p}", near_case, ck, W * 10.0 ** p, None, None, 1e-8 * 10.0 ** p, 10.0 ** p, repro=f"{nm} {V} rotated by {rn} and scaled by 1e{p}")
            for p in (1, 2, 3, 4):
                for sg in ((1, 1, 1), (1, -2, 0.5), (0, 0, -1)):
                    ck.run(f"at/{nm}/{rn}/{','.join(map(str, sg))}/1e{p}", near_case, ck, W + np.array(sg) * 10.0 ** p, None, None, 1e-12 * 10.0 ** p, repro=f"{nm} {V} rotated by {rn}, translated by {sg} times 1e{p}")
    d = 2
    def job(k, items):
        for i, it in items:
            lab = f"span/{i}"
            k.run(lab, span_case, k, *it, d, repro=f"SpanForm(vertices={[list(map(float, x)) for x in it[0]]}, rays={[list(map(float, x)) for x in it[1]]}, span={[list(map(float, x)) for x in it[2]]})")
    idx = list(enumerate(sp))
    ck.pmap(job, [idx[i::32] for i in range(32)])
    # the same sets written differently, and scaled sets
    rich = [(i, it) for i, it in idx if sum(map(bool, it)) >= 2 or len(it[1]) > 1 or len(it[0]) > 2]
    var = [(f"span/{i}/{vn}", it, vn) for q, vn in enumerate(VARIANTS) for i, it in rich[q % 3::ck.pick(9, 2)]]
    var += [(f"span/{i}*{k}", scaled_set(it, k), None) for q, k in enumerate((F(1, 100), F(1, 16), F(100))) for i, it in rich[q::ck.pick(13, 3)] if it[0]]
    def jobv(k, items):
        for key, it, vn in items:
            k.run(key, span_case, k, *it, 1, vn, repro=f"SpanForm(vertices={[list(map(float, x)) for x in it[0]]}, rays={[list(map(float, x)) for x in it[1]]}, span={[list(map(float, x)) for x in it[2]]}) given as {vn}")
    ck.pmap(jobv, [var[i::32] for i in range(32)])
    fs = face_space(ck)
    def job2(k, items):
        for i, it in items:
            k.run(f"face/{i}", face_case, k, *it, repro=f"rows={[(list(map(float, a)), float(b)) for a, b in it[0]]}, eqs={[(list(map(float, a)), float(b)) for a, b in it[1]]}")
    idx = list(enumerate(fs))
    ck.pmap(job2, [idx[i::32] for i in range(32)])
    st = [f[0] for f in fs if not f[1]]
    pairs = [(st[i], st[j]) for i in range(0, len(st), ck.pick(23, 7)) for j in range(0, len(st), ck.pick(29, 11)) if len(st[i][0][0]) == len(st[j][0][0])]
    def job3(k, items):
        for i, (a, b) in items:
            k.run(f"stack/{i}", stack_case, k, a, b)
    idx = list(enumerate(pairs))
    ck.pmap(job3, [idx[i::16] for i in range(16)])
    ck.sample(dict(span=[[list(map(float, x)) for x in part] for part in sp[len(sp) // 2]]))
    ck.sample(dict(face=repr([(list(map(float, a)), float(b)) for a, b in fs[len(fs) // 2][0]])))
    ck.notes["span_sets"] = len(sp)
    ck.notes["face_systems"] = len(fs)
