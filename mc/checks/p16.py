"""P16: realizability conditions bind."""
from fractions import Fraction as F
from itertools import product
import numpy as np
import cvxpy as cp
from .. import zoo, exact as ex, conic, mass
from ..exact import farr, fr
from ..conic import Cone, families, quad_values, inner_points, max_quad_ellipsoid
from .p15 import shapes, some_poses, axes_of, regime_jobs, solids

TOL = 1e-4


def upper(ck, st, val, want, tol, what, tag):
    ck.step()
    ck.trace()
    if st == "solver-error":
        ck.unsure(f"solver error {ck.case_key.split('/')[0]}")
        return
    if st == "optimal_inaccurate":
        tol = tol * 30
    if not ck.expect(val is not None, "status", lambda: f"{what}: {st}; attainable in the shape: {want}"):
        return
    ck.expect(val <= want + tol, tag, lambda: f"{what}: {val} satisfies the constraints, but the shape attains at most {want}")


def cone_case(ck, spec, fam, build, kind, rich):
    obj = spec.build()
    ck.state((spec.key, fam, kind))
    ck.outcome(fam)
    X = inner_points(spec)
    scale = 1 + float(np.max(np.abs(X))) ** 2
    cone = Cone(lambda v, e: build(obj, v, e), kind)
    st, v = cone.min_quad(np.eye(4)[3])
    ck.step()
    ck.expect(st == "solver-error" or (v is not None and v >= -TOL), "negative-mass", lambda: f"{fam}[{kind}]: infimum of the mass is {v} ({st})")
    for i, (tag, D, want) in enumerate(conic.objective_alphabet(spec, axes_of(spec), rich=rich)):
        if tag == "sq" and fam == "sdp1":
            continue
        if tag == "sq" and not rich and i % 2:
            continue
        st, val = cone.sup(D, skew=1.0 if kind == "mat" else 0.0)
        if fam == "sdp1" and st != "optimal":
            st, val = cone.sup(D, skew=1.0 if kind == "mat" else 0.0, bound=None)
            if st in ("solver-error", "optimal_inaccurate"):
                ck.outcome("sdp1-inaccurate")
                continue
        what = f"{fam}[{kind}] at mass 1, " + ("centre of mass along " + str(np.round(2 * D[:3, 3], 4).tolist()) if tag == "com" else f"second moment with D={np.round(D, 5).tolist()}")
        upper(ck, st, val, want, TOL * (scale + abs(want)), what, "com-outside" if tag == "com" else "spread-too-large")
    if spec.kind == "ell":
        for D in conic.general_objectives(spec, True):
            want = max_quad_ellipsoid(spec, D)
            best = float(quad_values(D, X).max())
            if best > want + 1e-6 * scale:
                raise AssertionError(f"reference maximum {want} below an attained value {best}")
            st, val = cone.sup(D)
            upper(ck, st, val, want, TOL * (scale + abs(want)), f"{fam}[{kind}] at mass 1, D={np.round(D, 5).tolist()}", "inexact")
            if val is not None:
                ck.expect(val >= want - TOL * (scale + abs(want)), "inexact", lambda: f"{fam}[{kind}]: optimum {val}, the ellipsoid attains {want}")
    # explicit outsiders stay away from the cone
    if fam != "sdp1":
        for x, e in outsiders(spec, 8 if rich else 3):
            for m in (1.0, 5.0):
                st, dist = cone.near(conic.point_J(x, m))
                ck.step()
                ck.trace()
                if dist is None:
                    continue
                ck.expect(dist >= 0.5 * e * m - 1e-4, "accepts-outsider", lambda: f"{fam}[{kind}]: a point mass at {x.tolist()} outside the shape is only {dist:.2e} away from the constraints (at least {e * m:.2e} is due)")


def outsiders(spec, n):
    """Float points outside with a lower bound on the distance of their J from any cone with the right centres of mass."""
    out = []
    U = zoo.dirs(3)
    for i, u in enumerate(U):
        x = spec.support_point(u) + (0.5, 0.1, 2.0)[i % 3] * u
        e = max((w @ x - spec.support(w)) / np.sqrt(0.5 + spec.support(w) ** 2) for w in U)
        out.append((x, e))
    return out[:: max(1, len(out) // n)][:n]


def order_case(ck, spec, rich):
    """Tightness order: custom <= sdp2, sdp3 <= sdp2 <= sdp1 (support functions)."""
    obj = spec.build()
    ck.state((spec.key, "order"))
    X = inner_points(spec)
    scale = 1 + float(np.max(np.abs(X))) ** 2
    fams = dict(families(spec, (1, 2, 3)))
    cones = {f: Cone(lambda v, e, b=b: b(obj, v, e), "mat") for f, b in fams.items()}
    bound = 4 * scale
    objs = conic.general_objectives(spec, True) + [D for _, D, _ in conic.objective_alphabet(spec, axes_of(spec), rich=False)][::2]
    for i, D in enumerate(objs):
        val = {}
        for f, c in cones.items():
            if f == "sdp3" and not rich and i % 4:
                continue
            st, v = c.sup(D, bound=bound)
            ck.step()
            if st == "optimal":
                val[f] = v
            elif st == "optimal_inaccurate":
                val[f] = None
            else:
                if st != "solver-error":
                    ck.fail("status", f"{f}: {st}")
                val[f] = None
        tol = 2e-4 * (scale + max([abs(v) for v in val.values() if v is not None] + [0]))
        for a, b in (("custom", "sdp2"), ("sdp3", "sdp2"), ("sdp2", "sdp1"), ("sdp3", "sdp1"), ("custom", "sdp1")):
            if val.get(a) is None or val.get(b) is None:
                continue
            ck.trace()
            ck.outcome(f"{a}<={b}")
            ck.expect(val[a] <= val[b] + tol, "looser", lambda: f"{a} allows {val[a]} where {b} allows only {val[b]} (D={np.round(D, 5).tolist()})")


def direct_case(ck, spec):
    """can_realize on an exact lattice of inertial parameters, truth decided in exact arithmetic."""
    import rigeo as rg
    obj = spec.build()
    ck.state((spec.key, "direct"))
    h = spec.h
    s = max(h) or F(1)
    coms = [tuple(a * b for a, b in zip(f, [x if x > 0 else s for x in h])) for f in product((0, F(1, 2), F(-1, 2), F(9, 10)), repeat=3)]
    coms += [(s * F(3, 2), 0, 0), (0, s * 2, 0), (0, 0, -s * F(3, 2))]
    spreads = [(0, 0, 0), (F(1, 10),) * 3, (F(1, 2), 0, 0), (0, F(1, 2), 0), (0, 0, F(1, 2)), (F(1, 4), F(1, 4), F(1, 4)), (F(3, 4), F(1, 8), 0), (1, 1, 1), (F(-1, 20), F(1, 10), F(1, 10)), (F(1, 10), F(1, 10), F(-1, 10)), (2, 0, 0)]
    for com, sp, m in product(coms, spreads, (1, 3)):
        com = tuple(map(fr, com))
        # local second moment about the centre: spread_i * (h_i or 1)^2
        Hc = ex.mat([[fr(sp[i]) * (h[i] ** 2 if h[i] > 0 else s * s) if i == j else 0 for j in range(3)] for i in range(3)])
        M0 = mass.Mass(m, ex.sc(fr(m), com), ex.madd(ex.msc(fr(m), Hc), ex.msc(fr(m), ex.outer(com, com))))
        # truth, in the local frame
        level = F(0)
        flat_bad = False
        amount = F(0)
        for i in range(3):
            if h[i] == 0:
                if M0.H[i][i] != 0:
                    flat_bad = True
                    amount = max(amount, abs(M0.H[i][i]))
            else:
                level += M0.H[i][i] / h[i] ** 2
        gap = M0.m - level  # tr(QJ)
        is_psd = mass.psd(M0.J)
        if is_psd:
            if abs(gap) < F(1, 1000) * m and not flat_bad:
                continue
            if flat_bad and amount < F(1, 1000):
                continue
        else:
            # clear of the threshold?
            if min(np.linalg.eigvalsh(farr(M0.J))) > -1e-4:
                continue
        truth = is_psd and gap > 0 and not flat_bad
        M = M0.move(spec.R, spec.c)
        if not is_psd and min(np.linalg.eigvalsh(farr(M.J))) > -1e-5:
            continue
        p = rg.InertialParameters(mass=float(M.m), h=farr(M.h), H=farr(M.H))
        ck.step()
        ck.trace()
        ck.outcome("direct-yes" if truth else "direct-no")
        got = bool(obj.can_realize(p, eps=-1e-8))
        ck.expect(got == truth, "direct-wrong", lambda: f"can_realize={got}, but {'some' if truth else 'no'} distribution in the ellipsoid has mass {m}, com {farr(M.com).tolist()}, H {farr(M.H).tolist()}")
    # eps: threshold on the eigenvalues of J
    if 0 not in h:
        p = obj.uniform_density_params(2.0)
        w = float(np.min(np.linalg.eigvalsh(p.J)))
        ck.step(2)
        ck.expect(bool(obj.can_realize(p, eps=w * 0.9)), "direct-eps", "can_realize rejects parameters whose eigenvalues exceed eps")
        ck.expect(not bool(obj.can_realize(p, eps=w * 1.1)), "direct-eps", "can_realize accepts parameters with an eigenvalue below eps")


def thin_case(ck, spec, fam, build, kind):
    """Thin, tiny and large shapes: nothing beyond the half widths and half spreads is allowed."""
    obj = spec.build()
    ck.state((spec.key, "thin", fam, kind))
    cone = Cone(lambda v, e: build(obj, v, e), kind)
    for what, st, val, want, tol in conic.axis_sups(spec, cone, axes_of(spec)):
        ck.step()
        ck.trace()
        if st in ("unbounded", "unbounded_inaccurate"):
            ck.fail("status", f"{fam}[{kind}] at mass 1, {what}: {st}; attainable in the shape: {want}")
        if st != "optimal":
            ck.outcome(f"thin {st}")
            continue
        ck.outcome("thin")
        ck.expect(val <= want + tol, "com-outside" if "centre" in what else "spread-too-large", lambda: f"{fam}[{kind}] at mass 1, {what} reaches {val}, the shape attains at most {want}")


def feas_case(ck, spec, d, margins=(0,)):
    """The feasibility-problem interface: unrealizable parameters and ones within the margin are infeasible."""
    obj = spec.build()
    ck.state((spec.key, "feas", d))
    sol = solids(spec) or [("mixture", conic.mixtures(spec)[-1][1])]
    J0 = np.array(sol[0][1]) / sol[0][1][3, 3]
    c = J0[:3, 3]
    S = J0[:3, :3] - np.outer(c, c)

    def about(c, S, m=1.0):
        J = np.zeros((4, 4))
        J[:3, :3] = S + np.outer(c, c)
        J[:3, 3] = J[3, :3] = c
        J[3, 3] = 1
        return m * J
    bad = []
    for u in axes_of(spec):
        u = np.asarray(u, float)
        hi, lo = spec.support(u), -spec.support(-u)
        w = hi - lo
        if w < 1e-6:
            continue
        for cu in (hi + 0.1 * w, lo - 0.1 * w):
            bad.append((f"centre of mass beyond the shape along {u.tolist()}", about(c + (cu - u @ c) * u, 0.01 * S)))
        if d >= 2:
            e = (0.55 * w) ** 2 - (u @ c - (hi + lo) / 2) ** 2
            bad.append((f"too wide a spread along {u.tolist()}", about(c, S + (e - u @ S @ u) * np.outer(u, u))))
    u = np.asarray(axes_of(spec)[0], float)
    bad.append(("negative second moment", about(c, S - (u @ S @ u * 1.2 + 0.01) * np.outer(u, u))))
    bad.append(("negative mass", -about(c, S)))
    J = cp.Parameter((4, 4), symmetric=True)
    good = solids(spec)
    for eps in margins:
        prob = obj.moment_sdp_feasibility_problem(J, **conic.opts(eps, d))
        w = np.linalg.eigvalsh(J0)[0]
        cases = bad if eps == 0 else [("half the margin", J0 * (0.5 * eps / w))] if w > 1e-6 else []
        for nm, Js in cases:
            for m in (1.0, 3.0) if eps == 0 else (1.0,):
                J.value = m * (Js + Js.T) / 2
                ck.step()
                try:
                    prob.solve(solver=cp.CLARABEL)
                except cp.SolverError:
                    ck.outcome("feasibility-problem no answer")
                    continue
                ck.trace()
                ck.outcome(f"feasibility-problem {prob.status}")
                ck.expect(prob.status not in ("optimal", "optimal_inaccurate"), "accepts-unrealizable", lambda: f"moment_sdp_feasibility_problem(d={d}, eps={eps}) is {prob.status} for parameters of mass {m} with {nm}: {Js.tolist()}")
        if eps and good and w > 1e-6:
            J.value = J0 * (2 * eps / w)
            prob.solve(solver=cp.CLARABEL)
            ck.step()
            ck.outcome(f"feasibility-problem {prob.status}")
            ck.expect(prob.status in ("optimal", "optimal_inaccurate"), "rejects-realizable", lambda: f"moment_sdp_feasibility_problem(d={d}, eps={eps}) is {prob.status} for the uniform solid with twice the margin")


def main(ck):
    T = ck.thorough
    jobs = list(regime_jobs(T, thin_case))
    for sp, _ in conic.regime_shapes():
        if sp.kind == "ell":
            for rn, R, c in some_poses(T):
                jobs.append((f"direct/{zoo.name(sp)}/{rn}/{','.join(map(str, c))}", direct_case, (sp.move(R, c),)))
    P = some_poses(T)
    for sp in shapes(T):
        for i, (rn, R, c) in enumerate(P):
            s = sp.move(R, c)
            key = f"{zoo.name(sp)}/{rn}/{','.join(map(str, c))}"
            for fam, build in families(sp, (1, 2, 3)):
                if fam == "sdp3" and (not T or i > 3 or (sp.kind == "poly" and len(sp.V) < 3)):
                    continue
                if fam == "sdp1" and i not in (0, 3):
                    continue
                for kind in ("mat", "vec"):
                    if fam in ("sdp1", "sdp3") and kind == "vec":
                        continue
                    jobs.append((f"{fam}/{kind}/{key}", cone_case, (s, fam, build, kind, T or i == 3)))
            if sp.kind in ("box", "cyl", "poly") and not (sp.kind == "poly" and len(sp.V) < 4) and not (sp.kind == "box" and 0 in sp.h):
                if T or i in (0, 3):
                    for d in (1, 2):
                        jobs.append((f"feasibility/{d}/{key}", feas_case, (s, d)))
                    jobs.append((f"order/{key}", order_case, (s, T)))
            if sp.kind == "ell":
                jobs.append((f"direct/{key}", direct_case, (s,)))
    for q, (n, s) in enumerate(zoo.via_specs(("box", "ell", "cyl", "poly"), modes=zoo.MODES if T else ("t", "used"))):
        for fam, build in families(s, (2,)):
            jobs.append((f"{n}/{fam}", cone_case, (s, fam, build, ("mat", "vec")[q % 2], False)))
    jobs.sort(key=lambda j: 0 if j[0].startswith(("sdp3", "order")) else 1)

    def job(k, items):
        for key, fn, a in items:
            k.run(key, fn, k, *a, repro=repr(a[0]))
    ck.pmap(job, [jobs[i::96] for i in range(96)])
    ck.sample(repr(jobs[-1][2][0]))
