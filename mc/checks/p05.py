"""P05: intersections of polyhedra, against exact vertex enumeration."""
from fractions import Fraction as F
from itertools import combinations, permutations, product
import numpy as np
from .. import zoo, exact as ex, fm
from ..exact import farr, fr
from .p03 import hull_rows


def world_rows(spec):
    """Exact inequality rows of a posed PolyS/BoxS."""
    if spec.kind == "box":
        V = spec.vertices_local()
        H = zoo._hull(tuple(V))
    else:
        H = spec.hull
    out = []
    for a, b in hull_rows(H):
        if not any(a):
            continue
        aw = ex.mv(spec.R, a)
        out.append((aw, b + ex.dot(aw, spec.c)))
    return out


def vertices_of(rows, dim):
    """Exact vertices of the bounded set {rows}."""
    rows = list(dict.fromkeys(rows))
    V = {}
    for comb in combinations(rows, dim):
        A = tuple(r[0] for r in comb)
        if ex.det(A) == 0:
            continue
        x = ex.mv(ex.inv(A), tuple(r[1] for r in comb))
        if all(ex.dot(a, x) <= b for a, b in rows):
            V[x] = None
    return list(V)


def sup(spec, u):
    return spec.support(u)


def check_result(ck, res, parts, V, what):
    """res: impl result; parts: specs; V: exact vertices of the intersection."""
    ck.step(); ck.trace()
    if not V:
        ck.expect(res is None, "not-none", lambda: f"{what}: sets are disjoint but the result is {res}")
        return
    if not ck.expect(res is not None, "none", lambda: f"{what}: sets share {farr(V).tolist()} but the result is None"):
        return
    W = np.asarray(res.vertices, float)
    for sp in parts:
        for a, b in world_rows(sp):
            af, bf = farr(a), float(b)
            ck.expect(bool(np.all(W @ af <= bf + 1e-7 * (1 + abs(bf)))), "outside-operand", lambda: f"{what}: result vertex outside an operand")
    E = farr(V)
    ck.step(len(E))
    ck.expect(bool(np.all(res.contains(E, tol=1e-7))), "misses", lambda: f"{what}: result misses {E[~res.contains(E, tol=1e-7)][0].tolist()}")
    # a few non-members
    c = E.mean(axis=0)
    lo, hi = E.min(axis=0), E.max(axis=0)
    m = max(1e-3, float(np.max(hi - lo))) * 0.05
    for i in range(len(c)):
        for p in (np.where(np.arange(len(c)) == i, hi + m, c), np.where(np.arange(len(c)) == i, lo - m, c)):
            ck.step()
            ck.expect(not res.contains(p), "too-large", lambda: f"{what}: result contains {p.tolist()} beyond the intersection")
    H = zoo._hull(tuple(V))
    for a, b in hull_rows(H):
        if not any(a):
            continue
        n = farr(a)
        n = n / np.linalg.norm(n)
        on = [v for v in V if ex.dot(a, v) == b]
        if on:
            p = farr(on).mean(axis=0) + n * max(1e-4, 0.02 * m)
            ck.step()
            ck.expect(not res.contains(p), "too-large", lambda: f"{what}: result contains {p.tolist()} beyond the intersection")


def pair_case(ck, A, B, chk_sym=True):
    rows = world_rows(A) + world_rows(B)
    V = vertices_of(rows, A.dim)
    ck.state((A.key, B.key))
    ck.outcome("empty" if not V else f"dim{ex.rank([ex.sub(v, V[0]) for v in V[1:]])}")
    a, b = A.build(), B.build()
    check_result(ck, a.intersect(b), (A, B), V, "a & b")
    if chk_sym:
        check_result(ck, b.intersect(a), (A, B), V, "b & a")
        check_result(ck, a.intersect(a), (A,), [tuple(map(fr, v)) for v in (A.world_V if A.kind == "poly" else [A.to_world(x) for x in A.vertices_local()])], "a & a")
        r = a.intersect(b)
        if r is not None:
            check_result(ck, r.intersect(a), (A, B), V, "(a & b) & a")
            # box operand as polyhedron
            check_result(ck, r.intersect(r), (A, B), V, "r & r")


def chain_case(ck, specs):
    rows = [r for s in specs for r in world_rows(s)]
    V = vertices_of(rows, specs[0].dim)
    ck.state(tuple(s.key for s in specs))
    ck.outcome("chain-empty" if not V else "chain")
    objs = [s.build() for s in specs]
    for perm in permutations(range(len(specs))):
        # left-assoc and right-assoc
        r = objs[perm[0]]
        for i in perm[1:]:
            if r is None:
                break
            r = r.intersect(objs[i])
        check_result(ck, r, specs, V, f"left chain {perm}")
        r = objs[perm[-1]]
        for i in perm[-2::-1]:
            if r is None:
                break
            r = objs[i].intersect(r)
        check_result(ck, r, specs, V, f"right chain {perm}")


def main(ck):
    T = ck.thorough
    P = zoo.PolyS
    one = F(1)
    d3 = [zoo.BoxS((1, 1, 1)), zoo.BoxS((F(1, 2), 1, 2)), P(zoo.TET), P(zoo.OCT), P(zoo.PYR), P([(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0)]), P([(0, 0, 0), (1, 1, 1)])]
    d2 = [P([(0, 0), (1, 0), (0, 1), (1, 1)]), P(zoo.TRI2), P(zoo.QUAD2), P(zoo.SEG2), P([(0, 0), (2, 0)])]
    d1 = [P([(0,), (1,)]), P([(-1,), (3,)]), P([(0,)])]
    offs3 = [tuple(map(fr, o)) for o in product((-2, -1, 0, 1, 2), (0, 1), (0, F(1, 2), 2))]
    if T:
        offs3 = [tuple(map(fr, o)) for o in product((-3, -2, -1, F(-1, 2), 0, 1, 2), (-1, 0, 1, 2), (0, F(1, 2), 1, 2, F(-3, 2)))]
    offs2 = [tuple(map(fr, o)) for o in product((-3, -2, -1, 0, F(1, 2), 1, 2), (-2, -1, 0, F(1, 2), 1))]
    offs1 = [tuple(map(fr, o)) for o in product((-3, -2, -1, F(-1, 2), 0, 1, 2, 3, 4, 5))]
    jobs = []
    for group, offs in ((d1, offs1), (d2, offs2), (d3, offs3)):
        dim = group[0].dim
        rot = list(ex.ROT[dim].items())
        exact_rots = {1: ["I", "neg"], 2: ["I", "q90"], 3: ["I", "x90", "z90"]}[dim]
        for i, a in enumerate(group):
            for j, b in enumerate(group):
                if j < i:
                    continue
                for rn in exact_rots:
                    for o in offs:
                        if dim == 3 and rn != "I" and not T and o[1] != 0:
                            continue
                        jobs.append((f"pair/{dim}/{i}-{j}/{rn}/{','.join(map(str, o))}", a, b.move(ex.ROT[dim][rn], o)))
    # generically rotated, full-dimensional operands: only robust (non-touching) relations
    for dim, group, nm in ((2, d2[:3], "345"), (3, d3[:5], "third")):
        R = ex.ROT[dim][nm]
        t = tuple(map(fr, (F(1, 7), F(-2, 11), F(1, 13))[:dim]))
        for i, a in enumerate(group):
            for j, b in enumerate(group):
                for o in ([0] * dim, [F(1, 2)] + [0] * (dim - 1), [F(3, 4)] * dim, [9] + [0] * (dim - 1)):
                    o = tuple(map(fr, o))
                    jobs.append((f"rot/{dim}/{i}-{j}/{','.join(map(str, o))}", a, b.move(R, ex.add(o, t))))
                    jobs.append((f"both/{dim}/{i}-{j}/{','.join(map(str, o))}", a.move(R, t), b.move(None, ex.add(o, t)).move(ex.tr(R), o)))
    # barely overlapping, barely protruding and barely separated operands
    for dim, outer in ((2, [d2[0], d2[2]]), (3, [zoo.BoxS((1, 1, 1)), d3[2], d3[3], d3[4]])):
        q = F(1, 8)
        unit = [tuple(F(int(i == j)) for j in range(dim)) for i in range(dim)]
        inner = [P([ex.zeros(dim)] + [ex.sc(q, e) for e in unit]), P([ex.zeros(dim), ex.sc(q, unit[0])]), P([ex.sc(q, tuple(map(fr, x))) for x in product((0, 1), repeat=dim)])]
        for i, a in enumerate(outer):
            V = [tuple(map(fr, v)) for v in (a.world_V if a.kind == "poly" else [a.to_world(x) for x in a.vertices_local()])]
            cen = ex.sc(F(1, len(V)), tuple(map(sum, zip(*V))))
            for j, b in enumerate(inner):
                for ax in range(dim):
                    for e in (F(1, 100), F(1, 1000)):
                        for sg in (1, -1):
                            # extreme of a along the axis direction through its centroid
                            n = tuple(F(sg) * x for x in unit[ax])
                            top = max(ex.dot(n, v) for v in V)
                            ext = max(ex.dot(n, v) for v in b.V)
                            low = min(ex.dot(n, v) for v in b.V)
                            for place, lev in (("in", top - e - ext), ("out", top + e - ext), ("touch+", top - e - low), ("gap", top + e - low)):
                                o = tuple(lev * F(sg) if k == ax else cen[k] for k in range(dim))
                                jobs.append((f"barely/{dim}/{i}-{j}/{'-+'[sg > 0]}{ax}/{place}/{e}", a, b.move(None, o)))
    # tiny and large operands
    for dim, group in ((2, d2), (3, d3[:5])):
        for k in (F(1, 128), F(128)):
            for i, a in enumerate(group):
                for j, b in enumerate(group):
                    for o in (offs2[3::7] if dim == 2 else offs3[2::5]):
                        sc = lambda s: zoo.BoxS(tuple(k * x for x in s.h)) if s.kind == "box" else P([ex.sc(k, v) for v in s.V])
                        jobs.append((f"scaled/{dim}/{i}-{j}/{k}/{','.join(map(str, o))}", sc(a), sc(b).move(None, ex.sc(k, o))))
    def robust(a, b):
        rows = world_rows(a) + world_rows(b)
        V = vertices_of(rows, a.dim)
        if not V:
            # separated by a margin?
            r2 = [(x, y + F(1, 1000)) for x, y in rows]
            return not fm.feasible([(x, y, False) for x, y in r2])
        r2 = [(x, y - F(1, 1000)) for x, y in rows]
        return bool(vertices_of(r2, a.dim))
    def job(k, items):
        for key, a, b in items:
            if (key.startswith("rot") or key.startswith("both")) and not robust(a, b):
                k.outcome("skipped-touching-rotated")
                continue
            k.run(key, pair_case, k, a, b, repro=f"a={a!r}; b={b!r}; a.intersect(b)")
    ck.pmap(job, [jobs[i::64] for i in range(64)])
    ck.sample(dict(a=repr(jobs[40][1]), b=repr(jobs[40][2])))
    # chains of three
    chains = []
    sq, tri, seg = d2[0], d2[1], d2[4]
    h = F(1, 2)
    offs2 = [tuple(map(fr, o)) for o in product((-h, 0, h, 1), (-1, 0, h))]
    offs3 = [tuple(map(fr, o)) for o in product((-2, -h, 0, 1), (-1, 0, h), (-h, 0, 1))]
    for o1 in offs2:
        for o2 in offs2[::2]:
            chains.append([sq, tri.move(None, o1), sq.move(None, o2)])
    bx, te, oc = d3[0], d3[2], d3[3]
    for o1 in offs3[::ck.pick(6, 5)]:
        for o2 in offs3[::ck.pick(7, 9)]:
            chains.append([bx, te.move(None, o1), bx.move(None, o2)])
            if T:
                chains.append([bx, oc.move(ex.R3["x90"], o1), te.move(None, o2)])
    def job2(k, items):
        for i, c in items:
            k.run(f"chain/{i}", chain_case, k, c, repro="; ".join(map(repr, c)))
    idx = list(enumerate(chains))
    ck.pmap(job2, [idx[i::32] for i in range(32)])
    ck.notes["pairs"] = len(jobs)
    ck.notes["chains"] = len(chains)
