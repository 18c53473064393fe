"""P18: the definiteness margin is enforced by every realizability constraint."""
from fractions import Fraction as F
from itertools import product
import numpy as np
import cvxpy as cp
from .. import zoo, exact as ex, conic
from ..exact import farr, fr
from ..conic import Cone, families, inner_points
from .p15 import shapes, some_poses
from .p16 import feas_case
from .p17 import alphabet

DIRS4 = [np.array(u, float) for u in [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 1, 0, 0), (1, -1, 0, 0), (0, 1, 0, 1), (0, 0, 1, -1), (1, 0, 0, -1), (1, 2, -1, 1), (-1, 1, 1, 0.5)]]


def margin_case(ck, build, kind, eps, targets, what, degenerate=False):
    """build(var, eps) -> constraints; targets: J's that must remain feasible."""
    cone = Cone(build, kind, eps)
    ck.state((ck.case_key, eps))
    inf_seen = 0
    ok = [np.trace(Js) for _, Js in targets if np.linalg.eigvalsh(Js)[0] >= eps * 1.02 + 1e-6]
    bound = max([200.0] + [3 * min(ok)] if ok else [200.0])
    # inf of u'Ju over the feasible set for every u of the alphabet
    for u in DIRS4:
        u = u / np.linalg.norm(u)
        st, val = cone.min_quad(u, extra=lambda c: [cp.trace(c.J) <= bound])
        ck.step()
        ck.trace()
        if st == "solver-error":
            ck.unsure(f"solver error {what.split()[0]}")
            continue
        if st in ("infeasible", "infeasible_inaccurate"):
            inf_seen += 1
            continue
        tol = (2e-5 + 1e-3 * eps) * bound / 200.0
        if st == "optimal_inaccurate":
            tol *= 50
        if not ck.expect(val is not None, "status", lambda: f"{what}: {st}"):
            continue
        bad = cone.violation()
        if val < eps - tol and bad > 1e-2 * (eps - val):
            # the solver's answer does not satisfy the constraints it was given
            ck.unsure(f"inaccurate answer {what.split()[0]}")
            continue
        ck.expect(val >= eps - tol, "margin", lambda: f"{what} eps={eps}: a feasible J has u'Ju = {val} < eps for u={u.tolist()}")
        J = cone.value()
        if J is not None:
            ck.expect(np.max(np.abs(J - J.T)) < 1e-4 * (1 + np.max(np.abs(J))), "asymmetric", f"{what}: feasible J is not symmetric")
            w = np.linalg.eigvalsh(0.5 * (J + J.T))[0]
            ck.expect(w >= eps - 50 * tol - 10 * bad, "margin", lambda: f"{what} eps={eps}: feasible J has eigenvalue {w}")
    ck.outcome("infeasible" if inf_seen else "feasible")
    ck.expect(not inf_seen or degenerate, "infeasible", lambda: f"{what} eps={eps}: constraints are infeasible although the shape has distributions exceeding the margin")
    u = None
    for nm, Js in targets:
        w = np.linalg.eigvalsh(Js)[0]
        if w < eps * 1.02 + 1e-6:
            continue
        st, dist = cone.near(Js)
        ck.step()
        ck.trace()
        ck.outcome("target")
        if st == "solver-error":
            ck.unsure(f"solver error {what.split()[0]}")
            continue
        if ck.expect(dist is not None, "infeasible", lambda: f"{what} eps={eps}: {st}"):
            ck.expect(dist <= 2e-4 * (1 + np.max(np.abs(Js))) * (20 if st == "optimal_inaccurate" else 1), "excludes", lambda: f"{what} eps={eps}: parameters of {nm} in the shape, with smallest eigenvalue {w}, are {dist:.2e} away from the constraints")


def small_case(ck, spec, fam, build, kind, eps):
    """Margins far below the usual sizes: the least u'Ju over light bodies, in units of the margin."""
    obj = spec.build()
    ck.state(("small", spec.key, fam, kind, eps))
    cone = Cone(lambda v, e: build(obj, v, e), kind, eps)
    for u in DIRS4[:6]:
        u = u / np.linalg.norm(u)
        st, val = cone.min_quad(u / np.sqrt(eps), extra=lambda c: [cp.trace(c.J) <= min(2e5 * eps, 50)])
        ck.step()
        ck.trace()
        ck.outcome(f"small margin: {st}")
        if st == "optimal" and val < 0.9:
            if cone.violation() > 0.1 * eps * (1 - val):
                ck.outcome("small margin: inaccurate answer")
                continue
            ck.fail("margin", f"{fam}[{kind}] eps={eps}: a feasible J has u'Ju = {val * eps} < eps for u={u.tolist()}")


def targets_of(specs, eps):
    out = []
    for nm, J in conic.mixtures(specs[0], 5):
        out.append((nm, sum([J] + [conic.mixtures(s, 2)[-1][1] for s in specs[1:]])))
    base = out[-1][1]
    w = np.linalg.eigvalsh(base)[0]
    if w > 1e-9:
        for f in (1.05, 2.0, 10.0):
            out.append((f"scaled {f}", base * (f * eps / w if eps > 0 else f)))
    # the most asymmetric ones: all mass near one end, plus the least needed spread
    X = inner_points(specs[0])
    J0 = conic.point_J(X[0], 3.0)
    if w > 1e-9 and eps > 0:
        out.append(("point plus spread", J0 + base * (1.3 * eps / w)))
    return out


def shape_case(ck, spec, fam, build, kind, eps):
    obj = spec.build()
    deg = (spec.kind in ("box", "ell") and 0 in spec.h) or (spec.kind == "poly" and bool(spec.hull.eqs)) or (spec.kind == "cyl" and (spec.L == 0 or spec.r == 0))
    ck.outcome(fam)
    margin_case(ck, lambda v, e: build(obj, v, e), kind, eps, [] if deg and eps > 0 else targets_of([spec], eps), f"{fam} [{kind}]", degenerate=deg)


def body_case(ck, names, kind, eps, d=2):
    import rigeo as rg
    A = alphabet()
    specs = [A[n] for n in names]
    body = rg.RigidBody([s.build() for s in specs])
    ck.outcome(f"body{len(names)}")
    deg = all(0 in s.local_key() for s in specs if s.kind == "ell") and all(s.kind == "ell" for s in specs)
    margin_case(ck, lambda v, e: body.moment_sdp_constraints(v, eps=e, d=d), kind, eps, targets_of(specs, eps) if not deg else [], f"body of {'+'.join(names)} [{kind}]", degenerate=deg and len(names) == 1)


def primitive_case(ck, eps):
    """pim_psd / pim_must_equal_param_var, the primitives users combine with their own conditions."""
    from rigeo.constraint import pim_psd, pim_must_equal_param_var
    ck.state(("primitive", eps))
    t = [("full", np.diag([1.0, 2, 3, 4])), ("eps", np.eye(4) * max(eps, 0.1) * 1.05), ("mixed", np.diag([0.5, 0.5, 1, 2]) + 0.1)]
    margin_case(ck, lambda v, e: pim_psd(v, eps=e), "mat", eps, t, "pim_psd")
    for kind in ("mat", "vec"):
        def build(v, e):
            J, cons = pim_must_equal_param_var(v, e)
            w = cp.Variable((4, 4))
            return cons + [w == J]
        margin_case(ck, build, kind, eps, t, f"pim_must_equal_param_var [{kind}]")


def main(ck):
    T = ck.thorough
    jobs = []
    P = some_poses(T)
    for sp in shapes(T):
        for i, (rn, R, c) in enumerate(P):
            if not T and i not in (0, 3, 4):
                continue
            s = sp.move(R, c)
            key = f"{zoo.name(sp)}/{rn}/{','.join(map(str, c))}"
            if sp.kind in ("box", "cyl", "poly") and i in (0, 3) and np.linalg.eigvalsh(conic.mixtures(s)[-1][1])[0] > 1e-3:
                for d in (1, 2):
                    jobs.append((f"feasibility/{d}/{key}", feas_case, (s, d, (0.05, 0.3))))
            for fam, build in families(sp, (1, 2, 3)):
                if fam == "sdp3" and (not (T or i == 3) or (sp.kind == "poly" and sp.hull.eqs) or (sp.kind == "box" and 0 in sp.h)):
                    continue
                for kind in ("mat", "vec", "psd"):
                    if fam == "sdp3" and kind != ("mat" if i == 3 else "vec"):
                        continue
                    if kind == "psd" and i:
                        continue
                    for eps in (0.0, 0.02) + ((0.3, 1e-3) if T and fam != "sdp3" else (0.3,) if i == 3 and fam not in ("sdp1", "sdp3") else ()):
                        if eps == 0 and fam != "sdp2" and not T:
                            continue
                        jobs.append((f"{fam}/{kind}/{eps}/{key}", shape_case, (s, fam, build, kind, eps)))
                    if i == 3 and fam not in ("sdp1", "sdp3"):
                        jobs.append((f"{fam}/{kind}/20.0/{key}", shape_case, (s, fam, build, kind, 20.0)))
                    deg = (sp.kind in ("box", "ell") and 0 in sp.h) or (sp.kind == "poly" and bool(sp.hull.eqs)) or (sp.kind == "cyl" and (sp.L == 0 or sp.r == 0))
                    if i in (0, 3) and fam != "sdp3" and kind != "psd" and not deg:
                        for eps in (3e-5, 3e-4):
                            jobs.append((f"small/{fam}/{kind}/{eps}/{key}", small_case, (s, fam, build, kind, eps)))
    bodies = [("box",), ("ell",), ("cyl",), ("tet",), ("disk",), ("box", "cyl"), ("ell", "tet"), ("ell", "sph"), ("disk", "box"), ("cyl", "ell", "tet"), ("box", "box"), ("box", "ell", "tet", "cyl"), ("sph", "disk", "box", "ell", "cyl")]
    for q, (n, s) in enumerate(zoo.via_specs(("box", "ell", "cyl", "poly"), modes=zoo.MODES if T else ("t", "used"))):
        for fam, build in families(s, (2,)):
            jobs.append((f"{n}/{fam}", shape_case, (s, fam, build, ("mat", "vec")[q % 2], 0.02)))
    for names in bodies:
        for kind in ("mat", "vec"):
            for eps in (0.0, 0.02, 0.3):
                jobs.append((f"body/{'+'.join(names)}/{kind}/{eps}", body_case, (names, kind, eps)))
    jobs.append(("body-d3/tet", body_case, (("tet",), "mat", 0.02, 3)))
    jobs.append(("body-d3/tet+cyl", body_case, (("tet", "cyl"), "vec", 0.02, 3)))
    for eps in (0, 0.0, 1e-3, 0.1, 1):
        jobs.append((f"primitive/{eps!r}", primitive_case, (eps,)))
    jobs.sort(key=lambda j: 0 if "d3" in j[0] or "sdp3" in j[0] else 1)

    def job(k, items):
        for key, fn, a in items:
            k.run(key, fn, k, *a, repro=repr(a[0]))
    ck.pmap(job, [jobs[i::96] for i in range(96)])
    ck.sample(repr(jobs[-1][2][0]))
