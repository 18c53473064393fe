"""P09: containment constraints describe exactly (a multiple of) the shape, through their support function."""
from fractions import Fraction as F
from itertools import product
import numpy as np
import cvxpy as cp
from .. import zoo, exact as ex, optim
from ..exact import farr, fr

TOL = 2e-5
SOLVE = dict(solver=cp.CLARABEL)


class Sup:
    """max c.p (+ ...) subject to fixed constraints, for many c (compiled once)."""

    def __init__(self, expr, cons, n):
        self.c = cp.Parameter(n)
        self.expr = expr
        self.prob = cp.Problem(cp.Maximize(self.c @ expr), cons)

    def __call__(self, c):
        self.c.value = np.asarray(c, float)
        try:
            self.prob.solve(**SOLVE)
        except cp.SolverError as e:
            return "solver-error", None, None
        st = self.prob.status
        if st not in ("optimal", "optimal_inaccurate"):
            return st, None, None
        return st, float(self.prob.value), np.asarray(self.expr.value, float)


def compare(ck, sup, u, want, what, scale):
    ck.step()
    ck.trace()
    st, val, x = sup(u)
    if st == "solver-error":
        ck.unsure(f"solver error {what[:30]}")
        return None
    tol = TOL * scale * (50 if st == "optimal_inaccurate" else 1)
    if not ck.expect(val is not None, "status", lambda: f"{what}: maximising {list(map(float, u))} is {st}, support of the set is {want}"):
        return None
    ck.expect(val <= want + tol, "too-loose", lambda: f"{what}: max of {list(map(float, u))} is {val}, over the shape {want}")
    ck.expect(val >= want - tol, "too-tight", lambda: f"{what}: max of {list(map(float, u))} is {val}, over the shape {want}")
    return x


def shape_case(ck, spec, full):
    """One posed shape: all scale kinds and point layouts."""
    ck.state(spec.key)
    obj = spec.build()
    d = spec.dim
    D = zoo.dirs(d)
    if not full:
        D = D[::3] + D[-2:]
    flat = 1.0 + np.abs(spec.cf).sum() + max(abs(spec.support(u)) for u in D)
    mk = lambda n=None: cp.Variable(d) if n is None else cp.Variable((n, d))
    # single point, default scale
    p = mk()
    sup = Sup(p, obj.must_contain(p), d)
    for u in D:
        compare(ck, sup, u, spec.support(u), "must_contain(p)", flat)
    ck.outcome("unit")
    # constant scales
    for s in (2.5, 0.5, 1):
        p = mk()
        sup = Sup(p, obj.must_contain(p, scale=s), d)
        for u in D[::2]:
            compare(ck, sup, u, s * spec.support(u), f"must_contain(p, scale={s})", flat * s)
    ck.outcome("scaled")
    # variable scale: s ranges over [1/2, 3]; u.p - k s is maximised at an end
    for svar in (cp.Variable(), cp.Variable(1)):
        p = mk()
        z = cp.hstack([p, cp.reshape(svar, (1,), order="C")])
        sup = Sup(z, obj.must_contain(p, scale=svar) + [svar >= 0.5, svar <= 3], d + 1)
        for u in D[::3]:
            su = spec.support(u)
            for k in (su + 1.0, su - 1.0):
                want = (su - k) * (3.0 if su > k else 0.5)
                x = compare(ck, sup, np.append(u, -k), want, f"must_contain(p, scale=variable), slope {k:+.3f}", 3 * flat)
                if x is not None:
                    ck.expect(optim.excess(spec, x[:d] / x[d]) < 1e-3 * flat, "outside", lambda: f"scale=variable: optimiser {x.tolist()} is not in s times the shape")
    # scale given as an expression of a parameter-free affine kind
    p = mk()
    s = cp.Variable()
    sup = Sup(p, obj.must_contain(p, scale=2 * s - 1) + [s == 1.5], d)
    for u in D[::5]:
        compare(ck, sup, u, 2 * spec.support(u), "must_contain(p, scale=expression)", 2 * flat)
    ck.outcome("variable-scale")
    # several points
    for n in (1, 2, 3) if d > 1 or spec.kind != "cyl" else (2,):
        P = mk(n)
        sup = Sup(cp.vec(P, order="C"), obj.must_contain(P), n * d)
        for j in range(len(D)):
            if j % (2 if full else 4):
                continue
            us = [D[(j + 5 * i) % len(D)] * (1 + i) for i in range(n)]
            compare(ck, sup, np.concatenate(us), sum(spec.support(u) for u in us), f"must_contain of {n} points", flat * 3 * n)
    # many points: each of them in turn is the only one that matters, then all
    n = 24 if full else 6
    P = mk(n)
    sup = Sup(cp.vec(P, order="C"), obj.must_contain(P), n * d)
    for i in range(n):
        u = D[(3 * i + 1) % len(D)]
        z = np.zeros((n, d))
        z[i] = u
        compare(ck, sup, z.ravel(), spec.support(u), f"must_contain of {n} points, point {i}", flat)
    us = [D[(5 * i) % len(D)] for i in range(n)]
    compare(ck, sup, np.concatenate(us), sum(spec.support(u) for u in us), f"must_contain of {n} points", flat * n)
    ck.outcome("multi")
    P = mk(2)
    sup = Sup(cp.vec(P, order="C"), obj.must_contain(P, scale=2.0), 2 * d)
    for u in D[::4]:
        compare(ck, sup, np.concatenate((u, -u)), 2 * (spec.support(u) + spec.support(-u)), "must_contain of 2 points, scale=2", 4 * flat)
    # an affine expression of a variable
    if full:
        y = mk()
        sup = Sup(y, obj.must_contain(2 * y + 1), d)
        for u in D[::4]:
            compare(ck, sup, u, (spec.support(u) - u.sum()) / 2, "must_contain(2y+1)", flat)


def member_case(ck, spec):
    """Feasibility for a fixed point, over the exactly classified probe points."""
    ck.state(("member", spec.key))
    obj = spec.build()
    d = spec.dim
    q = cp.Parameter(d)
    p = cp.Variable(d)
    slack = cp.Variable(nonneg=True)
    # the distance from q to the constrained set
    prob = cp.Problem(cp.Minimize(cp.norm(p - q)), obj.must_contain(p))
    X, inside = spec.world_probes()
    stride = max(1, len(X) // 40)
    for x, b in list(zip(X, inside))[::stride]:
        q.value = x
        try:
            prob.solve(**SOLVE)
        except cp.SolverError:
            ck.unsure("solver error")
            continue
        ck.step()
        ck.trace()
        if not ck.expect(prob.status in ("optimal", "optimal_inaccurate"), "status", f"constraints infeasible: {prob.status}"):
            return
        dist = float(prob.value)
        if b:
            ck.outcome("inside")
            ck.expect(dist < 2e-4 * (1 + np.abs(x).max()), "rejects-member", lambda: f"{x.tolist()} belongs to the shape but is {dist:.2e} away from the constrained set")
        else:
            e = optim.excess(spec, x)
            if e > 1e-2:
                ck.outcome("outside")
                ck.expect(dist > 1e-3, "accepts-outsider", lambda: f"{x.tolist()} is outside by {e:.3g} but satisfies the constraints")


def main(ck):
    T = ck.thorough
    jobs = []
    shapes = (zoo.LOCAL3_T + [zoo.CylS(0, 1), zoo.CylS(2, 0), zoo.CapS(0, 1)]) + zoo.LOCAL_LOW + zoo.LOCAL4
    for sp in shapes:
        ps = list(zoo.poses(sp.dim, T))
        for i, (rn, R, c) in enumerate(ps):
            if not T and i % 3 not in (0, 1) and i != len(ps) - 1:
                continue
            s = sp.move(R, c)
            jobs.append((f"sup/{zoo.name(sp)}/{rn}/{','.join(map(str, c))}", shape_case, (s, T or i == len(ps) - 1)))
        rn, R, c = ps[-1]
        jobs.append((f"member/{zoo.name(sp)}", member_case, (sp.move(R, c),)))

    for n, s in zoo.via_specs(low=True, modes=zoo.MODES if T else ("t", "used", "centre")):
        jobs.append((n + "/sup", shape_case, (s, False)))
        if T or n.startswith("via/used"):
            jobs.append((n + "/member", member_case, (s,)))

    def job(k, items):
        import warnings
        warnings.simplefilter("ignore")
        for key, fn, a in items:
            k.run(key, fn, k, *a, repro=repr(a[0]))
    ck.pmap(job, [jobs[i::64] for i in range(64)])
    ck.sample(repr(jobs[7][2][0]))
