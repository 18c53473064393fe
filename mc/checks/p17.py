"""P17: rigid bodies combine shapes and parameters as unions."""
from fractions import Fraction as F
from itertools import combinations, combinations_with_replacement, permutations, product
import numpy as np
import cvxpy as cp
from .. import zoo, exact as ex, conic, mass, optim
from ..exact import farr, fr
from ..conic import Cone, quad_values, inner_points
from ..optim import SPH
from .p15 import axes_of
from .p02 import observe

H = zoo.H
TOL = 1e-4


def alphabet():
    c = [tuple(map(fr, x)) for x in ((2, 0, 0), (-1, 1, H), (0, 0, 0), (0, -2, 1))]
    R = ex.R3
    return {
        "box": zoo.BoxS((1, H, 2), R["z345"], c[0]),
        "tet": zoo.PolyS(zoo.TET, R["I"], c[1]),
        "ell": zoo.EllS((1, 2, H), R["third"], c[2]),
        "disk": zoo.EllS((1, H, 0), R["x90"], c[3]),
        "cyl": zoo.CylS(2, 1, R["third"], c[3]),
        "sph": zoo.EllS((H, H, H), R["I"], c[0]),
    }


def more():
    """shapes concentric with, congruent to or nested in those of the alphabet"""
    A, R = alphabet(), ex.R3
    return {
        "box2": zoo.BoxS((2, H, F(1, 4)), R["third"], A["box"].c),
        "ell2": zoo.EllS((H, F(1, 4), 2), R["I"], A["ell"].c),
        "ell3": zoo.EllS(A["ell"].h, R["x90"], A["ell"].c),
        "cyl2": zoo.CylS(4, F(1, 4), R["I"], A["cyl"].c),
        "cyl3": zoo.CylS(2, 1, R["third"], ex.add(A["cyl"].c, (F(1), F(0), F(0)))),
        "tet2": zoo.PolyS([ex.sc(F(1, 2), tuple(map(fr, v))) for v in zoo.TET], R["z345"], A["tet"].c),
        "sph2": zoo.EllS((F(1, 4),) * 3, R["I"], A["sph"].c),
    }


def own_constraints(obj, var, eps=0, d=2):
    import rigeo as rg
    if isinstance(obj, rg.Ellipsoid):
        return obj.moment_constraints(var, eps=eps)
    return obj.moment_sdp_constraints(var, eps=eps, d=d)


def objectives(specs):
    out = []
    for s in specs:
        out += [D for _, D, _ in conic.objective_alphabet(s, axes_of(s)[:3], rich=False)][::2]
        out += conic.general_objectives(s, False)
    return out


_SINGLE = {}


def constraint_case(ck, specs, kind, d=2, motion=None, single_arg=False):
    import rigeo as rg
    specs0 = specs
    objs = [s.build() for s in specs]
    body = rg.RigidBody(objs[0] if single_arg else objs)
    if motion is not None:
        Q, t = motion
        body = body.transform(rotation=farr(Q), translation=farr(t))
        specs = [s.move(Q, t) for s in specs]
        objs = [s.build() for s in specs]
    ck.state((tuple(s.key for s in specs), kind, d, motion is not None))
    ck.outcome(f"{len(specs)} shapes")
    if d is None:
        cone = Cone(lambda v, e: body.moment_sdp_constraints(v), kind)
    else:
        cone = Cone(lambda v, e: body.moment_sdp_constraints(v, d=d), kind)
    dd = 2 if d is None else d
    singles = [Cone(lambda v, e, o=o: own_constraints(o, v, d=dd), "mat") for o in objs]
    X = np.vstack([inner_points(s) for s in specs])
    scale = 1 + float(np.max(np.abs(X))) ** 2
    for i, D in enumerate(objectives(specs)):
        if len(specs) > 1 and i % len(specs):
            continue
        st, val = cone.sup(D, skew=1.0 if kind == "mat" else 0.0)
        ck.step()
        ck.trace()
        best = float(quad_values(D, X).max())
        vs = [c.sup(D)[1] for c in singles]
        if st == "solver-error" or any(v is None for v in vs):
            ck.unsure("solver error")
            continue
        tol = TOL * (scale + abs(best)) * (30 if st == "optimal_inaccurate" else 1)
        if not ck.expect(val is not None, "status", lambda: f"body constraints are {st}"):
            continue
        want = max(vs)
        ck.expect(val >= want - tol, "too-tight", lambda: f"body: max <D,J> = {val}, its shapes alone allow {vs} (D={np.round(D, 5).tolist()})")
        ck.expect(val <= want + tol, "too-loose", lambda: f"body: max <D,J> = {val}, its shapes alone allow only {vs} (D={np.round(D, 5).tolist()})")
        ck.expect(val >= best - tol, "rejects-realizable", lambda: f"body: max <D,J> = {val}, a point mass in its shapes attains {best}")
    # sums of parameters realizable on the individual shapes
    js = []
    for i, s in enumerate(specs):
        ms = conic.mixtures(s, 3)
        js.append([ms[0][1], ms[2][1], ms[-1][1] * (1 + i), conic.point_J(s.support_point(np.array([0.6, -0.48, 0.64])), 0.5)])
    sums = [sum(j[k] for j in js) for k in range(len(js[0]))] + [sum(j[(k + i) % 4] for i, j in enumerate(js)) for k in range(1, 4)]
    for Js in sums:
        st, dist = cone.near(Js)
        ck.step()
        ck.trace()
        if dist is None:
            if st == "solver-error":
                ck.unsure("solver error")
            else:
                ck.fail("status", f"body constraints are {st}")
            continue
        ck.expect(dist <= 2e-4 * scale * max(1, Js[3, 3]) * (20 if st == "optimal_inaccurate" else 1), "rejects-sum", lambda: f"a sum of parameters realizable on the shapes is {dist:.2e} away from the body's constraints")


def eps_case(ck, specs, kind, eps):
    """A margin restricts the total only: sums that satisfy it stay allowed, whatever the single shapes' shares."""
    import rigeo as rg
    objs = [s.build() for s in specs]
    body = rg.RigidBody(objs)
    ck.state((tuple(s.key for s in specs), kind, eps))
    ck.outcome("margin")
    X = np.vstack([inner_points(s) for s in specs])
    scale = 1 + float(np.max(np.abs(X))) ** 2
    cone = Cone(lambda v, e: body.moment_sdp_constraints(v, eps=eps), kind)
    share = []
    for i, s in enumerate(specs):
        share.append([J for _, J in conic.mixtures(s, 3)] + [np.zeros((4, 4))])
    picks = [(0,) * len(specs), (2,) * len(specs)]
    picks += [tuple(2 if i == j else -1 for i in range(len(specs))) for j in range(len(specs))]
    for pk in picks:
        J = sum(sh[k] for sh, k in zip(share, pk))
        lam = float(np.linalg.eigvalsh(J)[0])
        if lam < 1e-3:
            continue
        J = J * max(1.0, 2 * eps / lam)
        st, dist = cone.near(J)
        ck.step()
        ck.trace()
        if dist is None:
            if st == "solver-error":
                ck.unsure("solver error")
            else:
                ck.fail("status", f"body constraints with margin {eps} are {st}")
            continue
        ck.expect(dist <= 2e-4 * scale * max(1, J[3, 3]) * (20 if st == "optimal_inaccurate" else 1), "rejects-sum", lambda: f"a sum of parameters realizable on the shapes with least eigenvalue {2 * eps} or more is {dist:.2e} away from the body's constraints with margin {eps}")


# ---- algebra of bodies ---------------------------------------------------------
def matches(ck, body, specs, M, what):
    import rigeo as rg
    ck.step()
    ck.trace()
    if not ck.expect(isinstance(body, rg.RigidBody), "type", lambda: f"{what}: {type(body)}"):
        return
    if not ck.expect(len(body.shapes) == len(specs), "shapes", lambda: f"{what}: {len(body.shapes)} shapes, expected {len(specs)}"):
        return
    left = list(range(len(specs)))
    order = []
    for sh in body.shapes:
        k = next((i for i in left if denotes(sh, specs[i])), None)
        ck.expect(k is not None, "shapes", lambda: f"{what}: {sh} is none of the expected shapes {[repr(specs[i]) for i in left]}")
        if k is not None:
            left.remove(k)
            order.append(k)
    e = mass.differs(body.params, M)
    ck.expect(e is None, "params", lambda: f"{what}: {e}")
    return order


_OBS = {}


def denotes(sh, spec):
    """Does the rigeo shape denote the spec's set (kind, pose, membership of the probe points)?"""
    import rigeo as rg
    kinds = {"box": rg.Box, "ell": rg.Ellipsoid, "cyl": rg.Cylinder, "cap": rg.Capsule, "poly": rg.ConvexPolyhedron}
    if not isinstance(sh, kinds[spec.kind]):
        return False
    X, inside = spec.world_probes()
    st = max(1, len(X) // 60)
    return bool(np.all(sh.contains(X[::st], tol=1e-6) == inside[::st]))


def algebra_case(ck, names, masses):
    import rigeo as rg
    A = alphabet()
    A["cap"] = zoo.CapS(2, H, ex.R3["third"], tuple(map(fr, (1, 1, -1))))
    M = mass.alphabet() | {"central": mass.Mass(2, (0, 0, 0), [[3, 1, 0], [1, 2, H], [0, H, 1]]), "bar": mass.Mass(1, (0, 0, 0), [[1, 0, 0], [0, 0, 0], [0, 0, 0]]),
                           "-bar": mass.Mass.points([1, 1], [(1, 0, 0), (-1, 0, 0)])}
    items = []
    for n, m in zip(names, masses):
        sp = A[n]
        mm = M[m] if m else mass.Mass.zero()
        items.append((sp, mm, m))
    ck.state((names, masses))
    mk = lambda it: rg.RigidBody([it[0].build()], None if it[2] is None else rg.InertialParameters(mass=float(it[1].m), h=farr(it[1].h), H=farr(it[1].H)))
    for perm in permutations(range(len(items))):
        bodies = [mk(items[i]) for i in perm]
        before = [[observe(s) for s in b.shapes] for b in bodies]
        tot = mass.Mass.zero()
        for _, m, _ in items:
            tot = tot + m
        specs = [it[0] for it in items]
        matches(ck, sum(bodies), specs, tot, f"sum of bodies {perm}")
        r = bodies[0]
        for b in bodies[1:]:
            r = r + b
        matches(ck, r, specs, tot, f"left addition {perm}")
        l = bodies[-1]
        for b in bodies[-2::-1]:
            l = b + l
        matches(ck, l, specs, tot, f"right addition {perm}")
        for b, it, ob in zip(bodies, perm, before):
            matches(ck, b, [items[it][0]], items[it][1], "operand after addition")
        # transforms of the sum, in two steps
        for Q, t in ((ex.R3["third"], tuple(map(fr, (1, -2, H)))), (ex.R3["z345"], None), (None, tuple(map(fr, (0, 3, -1))))):
            kw = {}
            if Q is not None:
                kw["rotation"] = farr(Q)
            if t is not None:
                kw["translation"] = farr(t)
            mv = r.transform(**kw)
            o1 = matches(ck, mv, [s.move(Q, t) for s in specs], tot.move(Q, t), f"transform({'rotation ' if Q else ''}{'translation' if t else ''}) of the sum")
            o0 = matches(ck, r, specs, tot, "body before being transformed")
            ck.expect(o0 == o1, "shapes", lambda: f"transform changed the order of the shapes: {o0} became {o1}")
            back = mv.transform(rotation=farr(ex.tr(Q)) if Q is not None else None, translation=None if t is None else -farr(ex.mv(ex.tr(Q), t) if Q is not None else t))
            matches(ck, back, specs, tot, "transform and back")
            matches(ck, r, specs, tot, "body after being transformed")
        parts = [b.transform(rotation=farr(ex.R3["third"])) for b in bodies]
        matches(ck, sum(parts), [s.move(ex.R3["third"], None) for s in specs], tot.move(ex.R3["third"], None), "sum of transformed bodies")


def massless_case(ck):
    import rigeo as rg
    for n, sp in alphabet().items():
        b = rg.RigidBody([sp.build()])
        ck.state(("massless", n))
        matches(ck, b, [sp], mass.Mass.zero(), "body without parameters")
        matches(ck, b + b, [sp, sp], mass.Mass.zero(), "sum of massless bodies")
        matches(ck, b.transform(translation=np.array([1.0, 2, 3])), [sp.move(None, (1, 2, 3))], mass.Mass.zero(), "moved massless body")
        matches(ck, rg.RigidBody(sp.build()), [sp], mass.Mass.zero(), "body of a bare shape")
        m = mass.alphabet()["asym"]
        p = rg.InertialParameters(mass=float(m.m), h=farr(m.h), H=farr(m.H))
        matches(ck, b + rg.RigidBody([sp.build()], p), [sp, sp], m, "massless + massive")
        matches(ck, rg.RigidBody(sp.build(), p), [sp], m, "bare shape with parameters")
        matches(ck, rg.RigidBody([], p), [], m, "body without shapes")


def mbes_case(ck, spec, sphere):
    import rigeo as rg
    m = mass.alphabet()["asym"]
    p = rg.InertialParameters(mass=float(m.m), h=farr(m.h), H=farr(m.H))
    other = zoo.EllS((1, 2, H), ex.R3["z345"], (1, 0, 0))
    for specs in ([spec], [other, spec], [spec, other, spec], [spec, other, spec, other], [other] * 4 + [spec]):
        ck.state((tuple(s.key for s in specs), "mbes", sphere))
        objs = [s.build() for s in specs]
        body = rg.RigidBody(objs, p)
        r = body.mbes(**SPH[sphere], solver=cp.CLARABEL)
        ck.step()
        ck.trace()
        ck.outcome(f"mbes {spec.kind}")
        if not ck.expect(len(r.shapes) == len(specs), "mbes-count", f"{len(r.shapes)} shapes instead of {len(specs)}"):
            continue
        e = mass.differs(r.params, m)
        ck.expect(e is None, "mbes-params", lambda: f"mbes changed the parameters: {e}")
        for s, q, o, orig in zip(specs, r.shapes, objs, body.shapes):
            ck.expect(orig is o, "mbes-mutates", "mbes changed the original body's shapes")
            if not ck.expect(isinstance(q, rg.Ellipsoid), "mbes-type", lambda: f"mbes produced {type(q)}"):
                continue
            E, c = q.rotation @ np.diag(np.asarray(q.half_extents) ** 2) @ q.rotation.T, q.center
            sc = 1 + float(np.max(np.abs(s.cf)))
            for u in zoo.dirs(3, big=True):
                ck.step()
                ck.expect(s.support(u) <= u @ c + np.sqrt(max(u @ E @ u, 0)) * (1 + 1e-4) + 1e-6 * sc, "mbes-not-bounding", lambda: f"bounding ellipsoid of {s!r} does not bound it in direction {u.tolist()}")
            w = o.mbe(sphere=sphere, solver=cp.CLARABEL)
            W = w.rotation @ np.diag(np.asarray(w.half_extents) ** 2) @ w.rotation.T
            ck.expect(np.max(np.abs(E - W)) <= 2e-3 * max(np.max(np.abs(W)), 1e-6) and np.max(np.abs(c - w.center)) <= 2e-3 * sc, "mbes-not-minimal", lambda: f"mbes(sphere={sphere}) gives {q.half_extents}, the shape's own bounding ellipsoid is {w.half_extents}")
            if sphere:
                ck.expect(np.ptp(np.asarray(q.half_extents)) < 1e-4 * max(1e-9, np.max(q.half_extents)), "mbes-not-sphere", lambda: f"{q.half_extents}")


def main(ck):
    T = ck.thorough
    A = alphabet()
    jobs = []
    mot = (ex.R3["z345"], tuple(map(fr, (1, -1, 2))))
    for k in (1, 2, 3) + ((4,) if T else ()):
        for names in combinations_with_replacement(A, k):
            if k == 3 and not T and len(set(names)) < 3:
                continue
            if k == 4 and len(set(names)) < 4:
                continue
            for kind in ("mat", "vec"):
                specs = [A[n] for n in names]
                jobs.append((f"cone/{'+'.join(names)}/{kind}", constraint_case, (specs, kind)))
                if k <= 2:
                    jobs.append((f"moved/{'+'.join(names)}/{kind}", constraint_case, (specs, kind, 2, mot)))
            if k == 1:
                jobs.append((f"bare/{names[0]}", constraint_case, (specs, "mat", None, None, True)))
            if k == 2 and names[0] != names[1]:
                jobs.append((f"rev/{'+'.join(names)}", constraint_case, (specs[::-1], "mat", None)))
    B = A | more()
    for names in (("box", "box2"), ("box2", "box"), ("ell", "ell2"), ("ell2", "ell3"), ("ell", "ell3"), ("cyl", "cyl2"), ("cyl", "cyl3"), ("tet", "tet2"), ("tet2", "tet"), ("sph", "sph2"), ("sph2", "sph"), ("sph", "box2"), ("ell", "ell2", "ell3"), ("box", "tet", "box2")):
        jobs.append((f"like/{'+'.join(names)}", constraint_case, ([B[n] for n in names], "mat" if len(jobs) % 2 else "vec")))
    viaA = {n: zoo.via(s, m) for (n, s), m in zip(A.items(), ("t", "used", "r", "steps", "used") * 9) if s.kind != "cap"}
    for names in combinations(viaA, 2):
        jobs.append((f"via/{'+'.join(names)}", constraint_case, ([viaA[n] for n in names], "mat" if len(jobs) % 2 else "vec")))
    for n, s in zoo.via_specs(modes=("used",)):
        if n.endswith("/" + list(ex.R3)[-1]):
            jobs.append((f"{n}/mbes", mbes_case, (s, False)))
    for names in combinations(A, 2):
        if T or names[0] in ("box", "ell"):
            for eps in (0.05, 0.5):
                for kind in ("mat", "vec"):
                    jobs.append((f"eps/{'+'.join(names)}/{kind}/{eps}", eps_case, ([A[n] for n in names], kind, eps)))
    for names in (("box", "tet"), ("cyl", "ell")) + ((("cyl", "box"),) if T else ()):
        jobs.append((f"d3/{'+'.join(names)}", constraint_case, ([A[n] for n in names], "mat", 3)))
    jobs.append(("d3/box", constraint_case, ([A["tet"]], "vec", 3)))
    names = list(A) + ["cap"]
    ms = ["pt", "asym", None, "zero", "full", "small"]
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            jobs.append((f"alg/{a}+{b}", algebra_case, ((a, b), (ms[(i + j) % 6], ms[(i + 2 * j + 1) % 6]))))
    trip = list(combinations(names, 3))
    for i, t in enumerate(trip):
        if T or i % 3 == 0:
            jobs.append((f"alg/{'+'.join(t)}", algebra_case, (t, tuple(ms[(i + 2 * q) % 6] for q in range(3)))))
    jobs.append(("massless", massless_case, ()))
    for i, (a, b) in enumerate(combinations(names, 2)):
        if T or i % 2:
            jobs.append((f"alg/centred/{a}+{b}", algebra_case, ((a, b), (("central", "bar"), ("bar", None), ("central", "asym"), ("central", "-bar"))[i // 2 % 4])))
    R, c = ex.R3["third"], tuple(map(fr, (1, -2, H)))
    for sp in zoo.LOCAL3_T if T else zoo.LOCAL3:
        for sphere in (False, True):
            if sphere and ((sp.kind in ("box", "ell") and 0 in sp.h) or (sp.kind == "poly" and sp.hull.eqs)):
                continue
            jobs.append((f"mbes/{zoo.name(sp)}/{sphere}", mbes_case, (sp.move(R, c), sphere)))
    jobs.sort(key=lambda j: 0 if j[0].startswith("d3") else 1)

    def job(k, items):
        for key, fn, a in items:
            k.run(key, fn, k, *a, repro=repr(a))
    ck.pmap(job, [jobs[i::96] for i in range(96)])
    ck.sample(dict(body=[repr(A["box"]), repr(A["cyl"])]))
