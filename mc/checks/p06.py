"""P06: axis-aligned bounding boxes are bounding and tight."""
from fractions import Fraction as F
from itertools import product, combinations
import numpy as np
from .. import zoo, exact as ex
from ..exact import farr, fr


def check_box(ck, box, lo, hi, what):
    V = np.asarray(box.vertices, float)
    ck.step()
    ok = np.allclose(V.min(axis=0), lo, atol=1e-9, rtol=1e-9) and np.allclose(V.max(axis=0), hi, atol=1e-9, rtol=1e-9)
    ck.expect(ok, "bounds", lambda: f"{what}: box spans {V.min(axis=0)}..{V.max(axis=0)}, tight bounds are {lo}..{hi}")
    C = np.array(list(product(*zip(lo, hi))))
    ck.expect(all(np.min(np.linalg.norm(V - c, axis=1)) < 1e-8 * (1 + np.max(np.abs(c))) for c in C) and len(V) == 8, "not-axis-aligned", f"{what}: box is not axis-aligned")
    ck.expect(np.allclose(box.center, (lo + hi) / 2, atol=1e-9, rtol=1e-9), "center", f"{what}: box center {box.center}")
    ck.expect(np.allclose(np.abs(box.Rf if hasattr(box, 'Rf') else box.rotation) @ box.half_extents, (hi - lo) / 2, atol=1e-9, rtol=1e-9), "extents", f"{what}: half extents")


def shape_case(ck, spec, num=farr):
    s = spec.build(num)
    ck.state(spec.key); ck.trace()
    E = np.eye(3)
    hi = np.array([spec.support(e) for e in E])
    lo = np.array([-spec.support(-e) for e in E])
    b = s.aabb()
    check_box(ck, b, lo, hi, "aabb")
    ck.outcome(spec.kind)
    X, ins = spec.world_probes()
    X = X[ins]
    ck.step(len(X))
    ck.expect(bool(np.all(b.contains(X))), "not-bounding", "aabb misses points of the shape")


def points_case(ck, P):
    import rigeo as rg
    P = np.array(P, float)
    As = [P, P[::-1], P.tolist(), np.asfortranarray(P), np.vstack((P, P))]
    if np.all(P == np.round(P)):
        As.append(P.astype(int))
    for A in As:
        b = rg.Box.from_points_to_bound(A)
        ck.trace()
        check_box(ck, b, P.min(axis=0), P.max(axis=0), f"from_points_to_bound({P.tolist()})")


def many_case(ck, d, n):
    """many points, the extreme ones anywhere in the list"""
    import rigeo as rg
    base = np.array([[((i * (3 + 2 * j)) % 101) / 128 for j in range(d)] for i in range(n)])
    lo, hi = np.array([-3.0, -0.5, -7, -2])[:d], np.array([2.0, 5, 1.5, 64])[:d]
    for at in (0, 1, n // 3, n // 2, n - 2 * d, n - 2 * d - 1):
        P = base.copy()
        for j in range(d):
            P[at + j, j], P[n - 1 - (at + j) if at + j < n // 3 else at + d + j if at + d + j < n else j, j] = lo[j], hi[j]
        b = rg.Box.from_points_to_bound(P)
        ck.state((d, n, at)); ck.step(n); ck.trace(); ck.outcome("many points")
        check_box(ck, b, P.min(axis=0), P.max(axis=0), f"from_points_to_bound of {n} points")


def pair_case(ck, lo, hi):
    import rigeo as rg
    lo, hi = np.array(lo, float), np.array(hi, float)
    for m in product((0, 1), repeat=3):
        v1 = np.where(m, hi, lo)
        v2 = np.where(m, lo, hi)
        for a, b in ((v1, v2), (v1.tolist(), v2.tolist())) + tuple((v.astype(int), w) for v, w in ((v1, v2),) if np.all(v == np.round(v))) + tuple((v, w.astype(int)) for v, w in ((v1, v2),) if np.all(w == np.round(w))):
            ck.trace()
            check_box(ck, rg.Box.from_two_vertices(a, b), np.minimum(lo, hi), np.maximum(lo, hi), f"from_two_vertices({v1},{v2})")


def float_case(ck, loc, Rf, tf, num=farr):
    """Poses whose rotation is a floating-point product (entries may exceed 1 by a rounding error)."""
    s = loc.build(num).transform(rotation=Rf, translation=tf)
    ck.state((loc.key, Rf.tobytes(), tf.tobytes())); ck.trace()
    E = np.eye(3)
    hi = np.array([loc.support(Rf.T @ e) + tf @ e for e in E])
    lo = np.array([-loc.support(-Rf.T @ e) + tf @ e for e in E])
    check_box(ck, s.aabb(), lo, hi, "aabb")
    ck.outcome("rounding poses")


def rounded_rotations():
    """products of elementary rotations that are a coordinate permutation up to rounding,
    preferring those with an entry of magnitude above 1"""
    def ax(i, a):
        c, s = np.cos(a), np.sin(a)
        R = np.eye(3)
        j, k = (i + 1) % 3, (i + 2) % 3
        R[j, j] = R[k, k] = c
        R[j, k], R[k, j] = -s, s
        return R
    out = {}
    for i, a, b in product(range(3), np.arange(1, 40) * 0.05, (0.4, 1.0, np.pi / 2)):
        S, R = ax(i, a), ax((i + 1) % 3, b)
        for n, Q in (("inv", (S @ R) @ (R.T @ S.T)), ("half", S @ ax(i, np.pi / 2 - a)), ("pi", S @ ax(i, np.pi - a)), ("conj", (R @ S @ R) @ (R.T @ S.T @ R.T) @ ax(i, np.pi / 2))):
            over = int(np.sum(np.abs(Q) > 1))
            if over and len([1 for k in out if k[:2] == (n, i)]) < 3:
                out[(n, i, len(out))] = Q
    return {f"{n}{i}.{k}": Q for (n, i, k), Q in out.items()}


def spindles():
    """polyhedra with many vertices, some extremal ones near the middle of all vertices"""
    ring = [(F(2) * F(q, 5), F(2) * F(p, 5), F(0)) for q, p in ((5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3))]
    tips = [(F(0), F(0), F(1, 10)), (F(0), F(0), F(-1, 5))]
    for n, V in (("first", tips + ring), ("last", ring + tips), ("mixed", ring[:5] + tips[:1] + ring[5:] + tips[1:])):
        yield n, V
        yield n + "-long", [(a / 10, b / 10, 20 * c) for a, b, c in V]
        yield n + "-off", [(a + 7, b / 50, c + a) for a, b, c in V]


def main(ck):
    locs = [l for l in ck.pick(zoo.LOCAL3, zoo.LOCAL3_T)]
    Rs = dict(ex.R3)
    for i, R in enumerate(ex.cube_rotations()):
        Rs[f"cube{i}"] = R
        if ck.thorough:
            for n in ("third", "z345", "x345*third"):
                Rs[f"cube{i}*{n}"] = ex.mm(R, ex.R3[n])
                Rs[f"{n}*cube{i}"] = ex.mm(ex.R3[n], R)
    jobs = []
    for loc in locs:
        for rn, R in Rs.items():
            for c in zoo.C3[:2]:
                jobs.append((f"aabb/{zoo.name(loc)}/{rn}/{','.join(map(str, c))}", loc.with_pose(R, tuple(map(fr, c)))))
    for loc in zoo.REG3:
        for rn, R, c in zoo.reg_poses(3, loc.kind == "poly"):
            jobs.append((f"regime/{zoo.name(loc)}/{rn}", loc.with_pose(R, c)))
    for loc in zoo.LOCAL3_T:
        for rn, R, c in zoo.int_poses(3):
            jobs.append((f"int/{zoo.name(loc)}/{rn}/{','.join(map(str, c))}", loc.with_pose(R, c), zoo.iarr))
    for n, V in spindles():
        for rn, R, c in (("I", ex.eye(3), (0, 0, 0)), ("third", ex.R3["third"], (1, -2, 3)), ("x90", ex.R3["x90"], (0, 0, 0))):
            jobs.append((f"many/{n}/{rn}", zoo.PolyS(V, R, c)))
    jobs += list(zoo.via_specs())
    fl = [(f"rounding/{zoo.name(loc)}/{rn}/{i}", loc, R, np.array(t, float)) for loc in zoo.LOCAL3_T for rn, R in rounded_rotations().items() for i, t in enumerate(((0, 0, 0), (1, -2, 0.5)))]
    for d in (3,):
        for n in (20, 65, 257, 1001, 1030, 10007):
            ck.run(f"points-many/{d}/{n}", many_case, ck, d, n, repro=f"{n} points in dimension {d}")
    ck.pmap(lambda k, items: [k.run(key, float_case, k, *a) for key, *a in items], [fl[i::16] for i in range(16)])

    def job(k, items):
        for key, sp, *a in items:
            k.run(key, shape_case, k, sp, *a, repro=sp.repro() + "; s.aabb()")
    ck.pmap(job, [jobs[i::16] for i in range(16)])
    ck.sample(dict(shape=repr(jobs[-1][1])))
    grid = list(product((-1, 0.5), (0, 2), (-3, -1)))
    n = 0
    for k in ck.pick((1, 2, 3), (1, 2, 3, 4, 5)):
        for P in combinations(grid, k):
            n += 1
            ck.state(("pts", P))
            ck.run(f"points/{n}", points_case, ck, P)
    for sc in (1e-6, 1e-3, 1e4):
        for off in (0, 7e3):
            for k in (2, 3):
                for i, P in enumerate(combinations([tuple(sc * x + off for x in p) for p in grid], k)):
                    ck.state(("pts", P))
                    ck.run(f"points/{sc:g}/{off:g}/{k}/{i}", points_case, ck, P)
    g2 = [tuple(map(float, p)) for p in product((0, 3, -2), (1, 4), (-1, 2, 0))]
    for n in ck.pick((12, 18), (6, 12, 17, 18)):
        for i in range(len(g2)):
            P = tuple((g2[i:] + g2[:i])[:n])
            ck.state(("pts", P))
            ck.run(f"points/many/{n}/{i}", points_case, ck, P)
    for lo in product((-1, 0.25), repeat=3):
        for hi in product((-2, 0.25, 3), repeat=3):
            ck.state(("pair", lo, hi))
            ck.run(f"pair/{lo}/{hi}", pair_case, ck, lo, hi)
    for k in (1e-5, 1e-3, 500):
        for lo in product((-k, 2 * k), (k,), (-3 * k, 0)):
            for hi in product((3 * k,), (-k, 1.25 * k), (3 * k, 1)):
                ck.state(("pair", lo, hi))
                ck.run(f"pair/{k}/{lo}/{hi}", pair_case, ck, lo, hi)
