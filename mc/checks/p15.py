"""P15: realizability conditions never reject a realizable body."""
from fractions import Fraction as F
from itertools import product
import numpy as np
import cvxpy as cp
from .. import zoo, exact as ex, conic
from ..exact import farr, fr
from ..conic import Cone, families, quad_values, inner_points

TOL = 1e-4
H = zoo.H


def shapes(T):
    out = [zoo.BoxS((1, 2, H)), zoo.BoxS((H, H, H)), zoo.BoxS((1, H, 0)), zoo.PolyS(zoo.TET), zoo.PolyS(zoo.PYR), zoo.PolyS(zoo.OCT), zoo.PolyS(zoo.SQ3), zoo.PolyS(zoo.SEG3), zoo.PolyS(zoo.PT3),
           zoo.EllS((1, 2, H)), zoo.EllS((2, 2, 2)), zoo.EllS((1, H, 0)), zoo.EllS((0, 2, 1)), zoo.EllS((0, 0, 2)), zoo.EllS((0, 0, 0)), zoo.CylS(2, 1), zoo.CylS(3, H), zoo.CylS(1, 2)]
    if T:
        out += [zoo.BoxS((3, 1, 2)), zoo.BoxS((2, 0, 0)), zoo.PolyS(zoo.PRISM), zoo.EllS((2, 0, 1)), zoo.EllS((3, 1, 2)), zoo.CylS(F(1, 5), 3), zoo.CylS(4, F(1, 5)), zoo.CylS(0, 1)]
    return out


def some_poses(T):
    c0, c1, c2 = [tuple(map(fr, c)) for c in zoo.C3]
    P = [("I", ex.eye(3), c0), ("I", ex.eye(3), c1), ("z345", ex.R3["z345"], c0), ("third", ex.R3["third"], c1), ("x90", ex.R3["x90"], c2)]
    if T:
        P += [("x345*third", ex.R3["x345*third"], c2), ("y", ex.mm(ex.R3["x90"], ex.R3["z345"]), c1), ("third", ex.R3["third"], c2)]
    return P


def axes_of(spec):
    """Face normals / principal axes of a posed spec, as unit vectors."""
    if spec.kind == "poly":
        A = []
        for f in list(spec.hull.facets) + list(spec.hull.eqs):
            n = farr(f)[:-1]
            if np.linalg.norm(n) > 1e-12:
                A.append(spec.Rf @ (n / np.linalg.norm(n)))
        return A
    A = [spec.Rf[:, i] for i in range(3)]
    if spec.kind == "cyl":
        A.append(spec.Rf @ np.array([0.6, 0.8, 0]))
    return A


def lower(ck, st, val, best, tol, what):
    ck.step()
    ck.trace()
    if st == "solver-error":
        ck.unsure(f"solver error {ck.case_key.split(chr(47))[0]} {ck.case_key.split(chr(47))[2]}")
        return
    if st in ("unbounded", "unbounded_inaccurate"):
        return
    if st == "optimal_inaccurate":
        tol = tol * 30
    if not ck.expect(val is not None, "infeasible", lambda: f"{what}: the constraints are {st} at mass 1, but the shape has realizable parameters"):
        return
    ck.expect(val >= best - tol, "rejects-realizable", lambda: f"{what}: optimum {val}, but a point mass in the shape attains {best}")


def cone_case(ck, spec, fam, build, kind, rich, eng="both"):
    obj = spec.build()
    ck.state((spec.key, fam, kind))
    X = inner_points(spec)
    scale = 1 + float(np.max(np.abs(X))) ** 2
    cone = Cone(lambda v, e: build(obj, v, e), kind)
    ck.outcome(fam)
    objs = [D for _, D, _ in conic.objective_alphabet(spec, axes_of(spec), rich=rich)] + conic.general_objectives(spec, rich)
    for i, D in enumerate(objs):
        if not rich and i % 2:
            continue
        best = float(quad_values(D, X).max())
        st, val = cone.sup(D, bound=4 * scale if fam == "sdp1" else None)
        lower(ck, st, val, best, TOL * (scale + abs(best)), f"{fam}[{kind}] max <D,J>, D={np.round(D, 6).tolist()}")
    # membership of explicit distributions
    tol = 2e-4 * scale
    targets = conic.mixtures(spec, 6 if rich else 3)
    E = inner_points(spec, 12 if rich else 5)
    targets += [(f"point{i}", conic.point_J(x, (1.0, 3.0, 0.2)[i % 3])) for i, x in enumerate(E)]
    targets += solids(spec)
    for nm, Js in targets:
        st, dist = cone.near(Js)
        ck.step()
        ck.trace()
        if st == "solver-error":
            ck.unsure(f"solver error {ck.case_key.split(chr(47))[0]} {ck.case_key.split(chr(47))[2]}")
            continue
        if ck.expect(dist is not None, "infeasible", lambda: f"{fam}[{kind}]: constraints are {st}"):
            t = tol * max(1.0, Js[3, 3]) * (20 if st == "optimal_inaccurate" else 1)
            ck.expect(dist <= t, "rejects-realizable", lambda: f"{fam}[{kind}]: parameters of {nm} in the shape are {dist:.2e} away from the constraints; J={Js.tolist()}")


def solids(spec):
    """Exact uniform solids of the shape (independent formulas)."""
    m = 2.5
    if spec.kind == "box":
        S = np.diag([float(h) ** 2 / 3 for h in spec.h])
    elif spec.kind == "ell":
        if 0 in spec.h:
            return []
        S = np.diag([float(h) ** 2 / 5 for h in spec.h])
    elif spec.kind == "cyl":
        r, L = float(spec.r), float(spec.L)
        S = np.diag([r * r / 4, r * r / 4, L * L / 12])
    else:
        return []
    J = np.zeros((4, 4))
    J[:3, :3] = spec.Rf @ S @ spec.Rf.T + np.outer(spec.cf, spec.cf)
    J[:3, 3] = J[3, :3] = spec.cf
    J[3, 3] = 1
    return [("uniform solid", m * J)]


def feas_case(ck, spec, d):
    """The feasibility-problem interface with a parameter in place of the variable: interior distributions are feasible."""
    obj = spec.build()
    ck.state((spec.key, "feas", d))
    J = cp.Parameter((4, 4), PSD=True)
    prob = obj.moment_sdp_feasibility_problem(J, **conic.opts(0, d))
    for nm, Js in solids(spec) + [("all", conic.mixtures(spec)[-1][1])]:
        w = np.linalg.eigvalsh(Js)
        if w[0] < 1e-3:
            continue
        J.value = Js
        prob.solve(solver=cp.CLARABEL)
        ck.step()
        ck.trace()
        ck.outcome("feasibility-problem")
        ck.expect(prob.status in ("optimal", "optimal_inaccurate"), "rejects-realizable", lambda: f"moment_sdp_feasibility_problem(d={d}) is {prob.status} for {nm} in the shape")
    J.value = farr(ex.eye(4)) * 0 + 0.0
    # eps keyword
    prob = obj.moment_sdp_feasibility_problem(J, **conic.opts(1e-4, d))
    for nm, Js in solids(spec):
        if np.linalg.eigvalsh(Js)[0] < 1e-2:
            continue
        J.value = Js
        prob.solve(solver=cp.CLARABEL)
        ck.step()
        ck.expect(prob.status in ("optimal", "optimal_inaccurate"), "rejects-realizable", lambda: f"moment_sdp_feasibility_problem(eps=1e-4, d={d}) is {prob.status} for {nm} in the shape")


def direct_case(ck, spec):
    """Ellipsoid.can_realize over an exactly classified lattice of distributions."""
    import rigeo as rg
    obj = spec.build()
    ck.state((spec.key, "direct"))
    X = inner_points(spec)
    # pull slightly inside along the non-degenerate axes, to keep clear of rounding at the boundary
    X = spec.cf + (X - spec.cf) * 0.999
    cases = [("point", [x], [1.0]) for x in X[:30]]
    k = len(X)
    for i in range(20):
        idx = [(11 * i + 7 * j + j * j) % k for j in range(2 + i % 5)]
        cases.append(("mix", X[idx], [0.5 + (j % 3) for j in range(len(idx))]))
    for nm, P, ms in cases:
        p = rg.InertialParameters.from_point_masses(masses=np.array(ms), points=np.array(P))
        ck.step()
        ck.trace()
        ck.expect(bool(obj.can_realize(p, eps=-1e-8)), "direct-rejects", lambda: f"can_realize is False for point masses {ms} at {np.array(P).tolist()} inside the ellipsoid")
    if 0 not in spec.h:
        for m in (0.0, 2.0):
            p = obj.uniform_density_params(m)
            ck.step()
            ck.expect(bool(obj.can_realize(p, eps=-1e-8)), "direct-rejects", f"can_realize is False for the uniform solid of mass {m}")
        ck.expect(bool(obj.can_realize(obj.uniform_density_params(3.0))), "direct-rejects", "can_realize(eps=0) is False for the uniform solid")
        # between the solid and the shell (whose trace condition is exactly zero, a rounding matter)
        mix = obj.uniform_density_params(1.0) + obj.hollow_density_params(3.0)
        ck.expect(bool(obj.can_realize(mix)), "direct-rejects", "can_realize is False for the solid plus shell parameters")
    ck.expect(bool(obj.can_realize(rg.InertialParameters.zero(), eps=-1e-8)), "direct-rejects", "can_realize is False for the massless body")


def thin_case(ck, spec, fam, build, kind):
    """Thin, tiny and large shapes: every half width and half spread is within reach."""
    obj = spec.build()
    ck.state((spec.key, "thin", fam, kind))
    cone = Cone(lambda v, e: build(obj, v, e), kind)
    for what, st, val, want, tol in conic.axis_sups(spec, cone, axes_of(spec)):
        ck.step()
        ck.trace()
        if st != "optimal":
            ck.outcome(f"thin {st}")
            if st == "infeasible":
                ck.fail("infeasible", f"{fam}[{kind}]: the constraints are infeasible at mass 1")
            continue
        ck.outcome("thin")
        ck.expect(val >= want - tol, "rejects-realizable", lambda: f"{fam}[{kind}]: {what} reaches {val} only, the shape attains {want}")


def mass_case(ck, spec, fam, build, kind, K):
    """Light and heavy bodies: the reach of the centre of mass does not depend on the mass."""
    obj = spec.build()
    ck.state((spec.key, "mass", fam, kind, K))
    cone = Cone(lambda v, e: build(obj, v, e), kind)
    for u in zoo.dirs(3)[::2]:
        D = np.zeros((4, 4))
        D[:3, 3] = D[3, :3] = u / (2 * K)
        st, val = cone.sup(D, mass=K)
        ck.step()
        ck.trace()
        ck.outcome(f"mass {K:g} {st}")
        hi, lo = spec.support(u), -spec.support(-u)
        if st == "infeasible":
            ck.fail("infeasible", f"{fam}[{kind}]: the constraints are infeasible at mass {K:g}")
        elif st == "optimal":
            ck.expect(val >= hi - 0.05 * (hi - lo), "rejects-realizable", lambda: f"{fam}[{kind}] at mass {K:g}: the centre of mass along {u.tolist()} reaches {val} only, the shape attains {hi}")


def regime_jobs(T, fn):
    for sp, fams in conic.regime_shapes():
        for rn, R, c in some_poses(T)[:4:3] if not T else some_poses(T):
            s = sp.move(R, c)
            for fam, build in families(sp, (2,)):
                # a trace form leaves a set without interior: the solver's tolerance shows at these scales
                if fam == "trace" or fams and fam not in fams:
                    continue
                for kind in ("mat", "vec"):
                    yield (f"thin/{fam}/{kind}/{zoo.name(sp)}/{rn}/{','.join(map(str, c))}", fn, (s, fam, build, kind))


def main(ck):
    T = ck.thorough
    jobs = list(regime_jobs(T, thin_case))
    for sp, _ in conic.regime_shapes():
        if sp.kind == "ell":
            for rn, R, c in some_poses(T):
                jobs.append((f"direct/{zoo.name(sp)}/{rn}/{','.join(map(str, c))}", direct_case, (sp.move(R, c),)))
    for sp in shapes(T):
        for i, (rn, R, c) in enumerate(some_poses(T)):
            s = sp.move(R, c)
            key = f"{zoo.name(sp)}/{rn}/{','.join(map(str, c))}"
            for fam, build in families(sp, (1, 2, 3)):
                if fam == "sdp3" and (not (T or i == 3) or (sp.kind == "poly" and len(sp.V) < 3)):
                    continue
                if fam == "sdp1" and not (T or i in (0, 3)):
                    continue
                for kind in ("mat", "vec", "psd"):
                    if kind == "psd" and i % 3:
                        continue
                    if fam == "sdp3" and kind != ("vec" if sp.kind == "cyl" else "mat"):
                        continue
                    rich = T if fam != "sdp3" else (T and i < 3)
                    jobs.append((f"{fam}/{kind}/{key}", cone_case, (s, fam, build, kind, rich or (i == 3 and fam != "sdp3"))))
            if i in (0, 3) and (not sp.hull.eqs if sp.kind == "poly" else not (sp.kind in ("box", "ell") and 0 in sp.h)):
                for fam, build in families(sp, (2,)):
                    for K in (1e-3, 300.0):
                        for kind in ("mat", "vec"):
                            jobs.append((f"mass/{K:g}/{fam}/{kind}/{key}", mass_case, (s, fam, build, kind, K)))
            if sp.kind in ("box", "poly", "cyl") and i in (0, 3):
                jobs.append((f"feas/{key}", feas_case, (s, 2)))
            if sp.kind == "ell":
                jobs.append((f"direct/{key}", direct_case, (s,)))
    for q, (n, s) in enumerate(zoo.via_specs(("box", "ell", "cyl", "poly"), modes=zoo.MODES if T else ("t", "r", "used", "centre"))):
        for fam, build in families(s, (2,)):
            jobs.append((f"{n}/{fam}", cone_case, (s, fam, build, ("mat", "vec")[q % 2], False)))
    # slow ones first
    jobs.sort(key=lambda j: 0 if j[0].startswith("sdp3") else 1)

    def job(k, items):
        for key, fn, a in items:
            k.run(key, fn, k, *a, repro=repr(a[0]))
    ck.pmap(job, [jobs[i::96] for i in range(96)])
    ck.sample(repr(jobs[-1][2][0]))
