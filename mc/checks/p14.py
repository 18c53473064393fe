"""P14: density-model parameters equal the exact integrals (reference: product Gauss quadrature,
exact for the quadratic integrands, written independently over the pieces of each set)."""
from fractions import Fraction as F
from itertools import product
import numpy as np
from .. import zoo, exact as ex
from ..exact import farr, fr
from ..mass import Mass

# 2-point Gauss-Legendre nodes on [-1,1] integrate quadratics exactly; used via moments 1, 0, 1/3.


def pieces_box_solid(h):
    return [(F(1), (0, 0, 0), [(h[0], 0, 0), (0, h[1], 0), (0, 0, h[2])])]


def pieces_box_hollow(h):
    out = []
    for i in range(3):
        j, k = [a for a in range(3) if a != i]
        area = h[j] * h[k]
        for s in (1, -1):
            c = [F(0)] * 3
            c[i] = s * h[i]
            e1, e2 = [F(0)] * 3, [F(0)] * 3
            e1[j], e2[k] = h[j], h[k]
            out.append((area, tuple(c), [tuple(e1), tuple(e2)]))
    return out


def pieces_box_wire(h):
    out = []
    for i in range(3):
        j, k = [a for a in range(3) if a != i]
        for s, t in product((1, -1), repeat=2):
            c = [F(0)] * 3
            c[j], c[k] = s * h[j], t * h[k]
            e = [F(0)] * 3
            e[i] = h[i]
            out.append((h[i], tuple(c), [tuple(e)]))
    return out


def integrate(pieces, m):
    """Mass m spread uniformly over pieces (weight, centre, half-edges): exact second moments."""
    W = sum(p[0] for p in pieces)
    tot = Mass.zero()
    for w, c, es in pieces:
        mm = fr(m) * w / W
        c = tuple(map(fr, c))
        H = ex.outer(c, c)
        for e in es:
            e = tuple(map(fr, e))
            H = ex.madd(H, ex.msc(F(1, 3), ex.outer(e, e)))
        tot = tot + Mass(mm, ex.sc(mm, c), ex.msc(mm, H))
    return tot


def diagmass(m, d):
    m = fr(m)
    return Mass(m, ex.zeros(3), [[m * fr(d[i]) if i == j else F(0) for j in range(3)] for i in range(3)])


def ellipsoid_shell_uniform(h):
    """Second moments per unit mass of the uniform surface measure of an ellipsoid (numeric)."""
    h = np.array([float(x) for x in h])
    n = 400
    x, w = np.polynomial.legendre.leggauss(n)
    ph = (np.arange(2 * n) + 0.5) * np.pi / n
    U = np.stack([np.sqrt(1 - x[:, None] ** 2) * np.cos(ph), np.sqrt(1 - x[:, None] ** 2) * np.sin(ph), np.broadcast_to(x[:, None], (n, 2 * n))], -1)
    dens = np.prod(h) * np.linalg.norm(U / h, axis=-1)  # area element
    W = w[:, None] * dens
    P = U * h
    return np.einsum("ij,ija,ijb->ab", W, P, P) / W.sum()


def shell_limit_formula(h):
    """The formula the code documents: limit of the difference of two solid ellipsoids."""
    x, y, z = (float(a) for a in h)
    d = 5 * (x * y + x * z + y * z)
    return np.diag([x**2 * (x * y + x * z + 3 * y * z) / d, y**2 * (x * y + 3 * x * z + y * z) / d, z**2 * (3 * x * y + x * z + y * z) / d])


def near(p, mass, tol=1e-9):
    from ..mass import differs
    return differs(p, mass, tol)


def model_case(ck, spec, meth, local, num=farr):
    """local(m) -> exact Mass of the local shape."""
    s = spec.build(num)
    ck.state((spec.key, meth))
    first = None
    for m in (F(0), F(1), F(5, 2), F(1000), F(3, 10**9)):
        want = local(m).move(spec.R, spec.c)
        for arg in {float(m), int(m)} if m.denominator == 1 else {float(m)}:
            p = getattr(s, meth)(arg)
            ck.step(); ck.trace()
            d = near(p, want)
            ck.expect(d is None, "wrong", lambda: f"{meth}({arg}): {d}")
    # moves with the shape
    Q, t = ex.R3["third*z345"], tuple(map(fr, (2, 0, -1)))
    moved = getattr(s.transform(rotation=farr(Q), translation=farr(t)), meth)(2.0)
    ck.step()
    w2 = local(F(2)).move(spec.R, spec.c)
    d = near(moved, w2.move(Q, t), 1e-8)
    ck.expect(d is None, "moved", lambda: f"{meth} of the transformed shape: {d}")
    ck.outcome(f"{spec.kind}.{meth}")


def shell_case(ck, spec):
    """Hollow ellipsoid: exact for spheres; for other ellipsoids the published formula is a known finding."""
    s = spec.build()
    ck.state((spec.key, "hollow"))
    sphere = len(set(spec.h)) == 1
    U = np.diag([float(spec.h[0]) ** 2 / 3] * 3) if sphere else ellipsoid_shell_uniform(spec.h)
    R, c = spec.Rf, spec.cf
    for m in (0.0, 1.0, 2.5):
        p = s.hollow_density_params(m)
        ck.step(); ck.trace(); ck.outcome("ell.hollow")
        J = np.asarray(p.J, float)

        def ref(S):
            H = m * (R @ S @ R.T + np.outer(c, c))
            return np.block([[H, m * c[:, None]], [m * c[None, :], np.array([[m]])]])
        if not np.all(np.isfinite(J)):
            ck.fail("wrong", f"hollow_density_params({m}) = {J.tolist()}")
            continue
        sc = 1e-6 * (1 + np.abs(ref(U)).max())
        if np.abs(J - ref(U)).max() <= sc:
            continue
        if not sphere and np.abs(J - ref(shell_limit_formula(spec.h))).max() <= sc:
            ck.fail("not-uniform-on-surface", f"hollow_density_params({m}) is the thin-shell limit between scaled ellipsoids, not the uniform surface distribution")
        else:
            ck.fail("wrong", f"hollow_density_params({m}).J = {J.tolist()}, surface integral {ref(U).tolist()}")


def points_case(ck, spec, masses):
    s = spec.build()
    ck.state((spec.key, "pts", masses))
    V = s.vertices
    m = masses
    if isinstance(m, (int, float)):
        p = s.vertex_point_mass_params(m)
        ms = [fr(m) / len(V)] * len(V)
    else:
        ms = [fr(x) for x in m[: len(V)]]
        p = s.vertex_point_mass_params(np.array([float(x) for x in ms]))
        p_l = s.vertex_point_mass_params([float(x) for x in ms])
        ck.expect(np.allclose(p.J, p_l.J), "list", "list of masses gives different parameters")
    # pair the masses with the vertices in the object's own order (exact world vertices)
    locs = spec.vertices_local() if spec.kind == "box" else spec.V
    W = [spec.to_world(tuple(map(fr, v))) for v in locs]
    order = []
    for v in V:
        k = min(range(len(W)), key=lambda i: np.linalg.norm(farr(W[i]) - v))
        order.append(W[k])
    ck.expect(len(set(order)) == len(W), "vertices", "vertex list does not match the shape")
    d = near(p, Mass.points(ms, order))
    ck.step(); ck.trace(); ck.outcome("vertex")
    ck.expect(d is None, "wrong", lambda: f"vertex_point_mass_params({masses}): {d}")


def main(ck):
    T = ck.thorough
    vals = (F(1, 4), F(1), F(2)) if not T else (F(1, 10), F(1, 2), F(1), F(2), F(5))
    P = [("I", ex.eye(3), (0, 0, 0)), ("z345", ex.R3["z345"], (1, -2, zoo.H)), ("third", ex.R3["third"], (-3, F(1, 4), 2)), ("x345*third", ex.R3["x345*third"], (0, 0, 0))]
    if T:
        P += [(k, R, c) for k, R in ex.R3.items() for c in zoo.C3]
    jobs = []
    near_equal = [(F(1), F(1), F(26, 25)), (F(1), F(101, 100), F(1)), (F(1), F(1001, 1000), F(999, 1000)), (F(1), F(1), F(100001, 100000)), (F(49), F(50), F(51))]
    for h in list(product(vals, repeat=3)) + near_equal:
        for rn, R, c in P if h not in near_equal else P[::2]:
            b = zoo.BoxS(h, R, c)
            e = zoo.EllS(h, R, c)
            tag = f"{','.join(map(str, h))}/{rn}/{','.join(map(str, c))}"
            jobs.append((f"box-uniform/{tag}", b, "uniform_density_params", (lambda h: lambda m: integrate(pieces_box_solid(h), m))(h)))
            jobs.append((f"box-hollow/{tag}", b, "hollow_density_params", (lambda h: lambda m: integrate(pieces_box_hollow(h), m))(h)))
            jobs.append((f"box-wire/{tag}", b, "wireframe_density_params", (lambda h: lambda m: integrate(pieces_box_wire(h), m))(h)))
            jobs.append((f"ell-uniform/{tag}", e, "uniform_density_params", (lambda h: lambda m: diagmass(m, [x * x / 5 for x in h]))(h)))
            jobs.append((f"ell-hollow/{tag}", e, None, None))
    for h in ((F(1), F(2), F(0)), (F(0), F(1), F(1, 2)), (F(2), F(0), F(1))):
        for rn, R, c in P:
            b = zoo.BoxS(h, R, c)
            tag = f"{','.join(map(str, h))}/{rn}/{','.join(map(str, c))}"
            jobs.append((f"box-uniform/{tag}", b, "uniform_density_params", (lambda h: lambda m: integrate(pieces_box_solid(h), m))(h)))
            jobs.append((f"box-hollow/{tag}", b, "hollow_density_params", (lambda h: lambda m: integrate(pieces_box_hollow(h), m))(h)))
            jobs.append((f"box-wire/{tag}", b, "wireframe_density_params", (lambda h: lambda m: integrate(pieces_box_wire(h), m))(h)))
    for L, r in list(product(vals, repeat=2)) + [(F(2), F(101, 100)), (F(7, 4), F(1))]:
        for rn, R, c in P:
            cy = zoo.CylS(L, r, R, c)
            jobs.append((f"cyl-uniform/{L},{r}/{rn}/{','.join(map(str, c))}", cy, "uniform_density_params",
                         (lambda L, r: lambda m: diagmass(m, [r * r / 4, r * r / 4, L * L / 12]))(L, r)))

    # all models, with integer arguments and for thin, tiny and large shapes
    def models(b):
        h = b.h if b.kind in ("box", "ell") else None
        if b.kind == "box" and sum(x == 0 for x in h) < 2:
            yield "uniform_density_params", lambda m: integrate(pieces_box_solid(h) if all(h) else pieces_box_solid(h), m)
            yield "hollow_density_params", lambda m: integrate(pieces_box_hollow(h), m)
            yield "wireframe_density_params", lambda m: integrate(pieces_box_wire(h), m)
        elif b.kind == "ell" and all(h):
            yield "uniform_density_params", lambda m: diagmass(m, [x * x / 5 for x in h])
        elif b.kind == "cyl":
            yield "uniform_density_params", lambda m: diagmass(m, [b.r * b.r / 4, b.r * b.r / 4, b.L * b.L / 12])
    for b0 in zoo.REG3:
        for rn, R, c in zoo.reg_poses(3):
            for meth, f in models(b0) if b0.kind != "box" or all(b0.h) else ():
                jobs.append((f"regime/{zoo.name(b0)}/{meth}/{rn}", b0.with_pose(R, c), meth, f))
    for b0 in [zoo.BoxS((3, 1, 2)), zoo.BoxS((1, 1, 1)), zoo.EllS((3, 1, 2)), zoo.CylS(3, 1), zoo.CylS(1, 4)]:
        for rn, R, c in zoo.int_poses(3):
            for meth, f in models(b0):
                jobs.append((f"int/{zoo.name(b0)}/{meth}/{rn}/{','.join(map(str, c))}", b0.with_pose(R, c), meth, f, zoo.iarr))

    for n, sp in zoo.via_specs(("box", "ell", "cyl")):
        for meth, f in models(sp):
            jobs.append((f"{n}/{meth}", sp, meth, f))

    # integers whose squares or fourth powers overflow the type they come in
    for big, nums in ((zoo.BIG64, (zoo.iarr, zoo.larr)), (zoo.BIG32, (zoo.iarr, zoo.arr32))):
        for b0 in (zoo.BoxS(big), zoo.EllS(big), zoo.CylS(*big[:2]), zoo.CylS(*big[1:])):
            for rn, R, c in list(zoo.int_poses(3))[:3]:
                for num in nums:
                    for meth, f in models(b0):
                        jobs.append((f"bigint/{zoo.name(b0)}/{meth}/{rn}/{','.join(map(str, c))}/{num.__name__}", b0.with_pose(R, ex.sc(fr(big[2]), c)), meth, f, num))

    def go(k, i):
        key, sp, meth, loc, *a = jobs[i]
        if meth is None:
            k.run(key, shell_case, k, sp, repro=sp.repro())
        else:
            k.run(key, model_case, k, sp, meth, loc, *a, repro=sp.repro() + f"; s.{meth}(m)")
    ck.pmap(lambda k, idx: [go(k, i) for i in idx], [range(len(jobs))[i::16] for i in range(16)])
    for n, loc in (("box", zoo.BoxS((1, 2, zoo.H))), ("tet", zoo.PolyS(zoo.TET)), ("oct", zoo.PolyS(zoo.OCT)), ("pyr", zoo.PolyS(zoo.PYR)), ("flat", zoo.PolyS(zoo.SQ3)),
                   ("point", zoo.PolyS(zoo.PT3)), ("segment", zoo.PolyS(zoo.SEG3)), ("triangle", zoo.PolyS(zoo.SQ3[:3])), ("prism", zoo.PolyS(zoo.PRISM)), ("flat-box", zoo.BoxS((1, zoo.H, 2))),
                   ("ball", zoo.PolyS(zoo.BALL20)), ("tiny", zoo.PolyS(zoo._scaled(zoo.TET, zoo.K)))):
        for rn, R, c in P:
            for ms in (0, 1, 2.5, (1, 0, F(1, 2), 3, F(5, 2), 0, 7, 1) * 3, (F(1, 3),) * 24, (0,) * 24):
                ck.run(f"vertex/{n}/{rn}/{','.join(map(str, c))}/{ms}", points_case, ck, loc.with_pose(R, tuple(map(fr, c))), ms)
    for n, sp in zoo.via_specs(("box", "poly")):
        if sp.kind == "box" and 0 in sp.h:
            continue
        for ms in (2.5, (1, 0, F(1, 2), 3, F(5, 2), 0, 7, 1)):
            ck.run(f"{n}/vertex/{ms}", points_case, ck, sp, ms)
    ck.sample(dict(shape=repr(jobs[7][1]), method=jobs[7][2], masses=[0, 1, 2.5, 1000]))
    ck.assumptions.append("hollow non-spherical ellipsoid reference: Gauss-Legendre surface quadrature, 1e-6 relative")
