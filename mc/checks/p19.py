"""P19: wrench / regressor / mass matrix against particle Newton-Euler.

The wrench is a polynomial map: linear in the parameters, linear in the acceleration,
quadratic in the velocity.  Enumerating a unisolvent set of each (10 independent point
masses; 0 and the 6 unit accelerations; 0, e_i and e_i + e_j velocities) decides the
identity for all inputs; further integer values check the polynomial-degree assumption.
"""
from fractions import Fraction as F
from itertools import combinations, product
import numpy as np
from .. import exact as ex
from ..exact import farr, fr
from ..mass import Mass, alphabet


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def particle_wrench(ms, ps, V, A):
    """(moment, force) needed by point masses ps moving rigidly; V=(w,v), A=(alpha,a)."""
    w, v, al, a = V[:3], V[3:], A[:3], A[3:]
    n, f = ex.zeros(3), ex.zeros(3)
    for m, p in zip(ms, ps):
        u = ex.add(v, cross(w, p))
        acc = ex.add(ex.add(a, cross(al, p)), cross(w, u))
        fm = ex.sc(m, acc)
        f = ex.add(f, fm)
        n = ex.add(n, cross(p, fm))
    return n + f


def momentum(ms, ps, V):
    w, v = V[:3], V[3:]
    L, P, T = ex.zeros(3), ex.zeros(3), F(0)
    for m, p in zip(ms, ps):
        u = ex.add(v, cross(w, p))
        P = ex.add(P, ex.sc(m, u))
        L = ex.add(L, cross(p, ex.sc(m, u)))
        T += m * ex.dot(u, u) / 2
    return L + P, T


def sv(rg, x):
    return rg.SV(angular=farr(x[:3]), linear=farr(x[3:]))


def vel_alphabet(extra):
    E = ex.eye(6)
    out = [ex.zeros(6)] + list(E) + [ex.add(E[i], E[j]) for i, j in combinations(range(6), 2)]
    out += [tuple(map(fr, v)) for v in extra]
    return out


def wrench_case(ck, ms, ps, Vs, As):
    import rigeo as rg
    ms = [fr(m) for m in ms]
    ps = [tuple(map(fr, p)) for p in ps]
    M = Mass.points(ms, ps)
    if M.m == 0:
        prm = rg.InertialParameters.zero()
    else:
        prm = rg.InertialParameters(mass=float(M.m), h=farr(M.h), H=farr(M.H))
    vec = np.array(prm.vec, float)
    sc0 = np.abs(vec).max() + 1e-300
    close = lambda a, b, t: np.max(np.abs(np.asarray(a, float) - b)) <= t
    for V in Vs:
        v = sv(rg, V)
        nv = float(max(map(abs, V)))
        sc = sc0 * (nv + nv * nv)
        L, T = momentum(ms, ps, V)
        got = prm.M @ v.vec
        ck.step()
        ck.expect(close(got, farr(L), 1e-9 * sc), "momentum", lambda: f"M V = {got}, momentum {farr(L)} at V={farr(V)}")
        e = 0.5 * v.vec @ prm.M @ v.vec
        ck.expect(abs(e - float(T)) <= 1e-9 * sc, "energy", lambda: f"kinetic energy {e}, exact {float(T)} at V={farr(V)}")
        for A in As:
            a = sv(rg, A)
            sc = sc0 * (nv * nv + float(max(map(abs, A))))
            va, aa = v.vec.copy(), a.vec.copy()
            want = farr(particle_wrench(ms, ps, V, A))
            w = prm.body_wrench(v, a)
            Y = rg.RigidBody.regressor(v, a)
            ck.state((M.key, V, A)); ck.step(2); ck.trace()
            ck.expect(close(w.vec, want, 1e-9 * sc) and close(np.r_[w.angular, w.linear], want, 1e-9 * sc), "wrench", lambda: f"body_wrench = {w.vec}, Newton-Euler gives {want} at V={farr(V)}, A={farr(A)}")
            ck.expect(np.shape(Y) == (6, 10) and close(Y @ vec, want, 1e-9 * sc), "regressor", lambda: f"regressor @ vec = {Y @ vec}, Newton-Euler gives {want} at V={farr(V)}, A={farr(A)}")
            ck.expect(np.array_equal(v.vec, va) and np.array_equal(a.vec, aa), "input-modified", "velocity or acceleration was modified")


def regressor_rigid(ck):
    """regressor through an instance equals the static call, for a body with shapes."""
    import rigeo as rg
    body = rg.RigidBody(rg.Box.cube(1.0), rg.InertialParameters(mass=2.0, com=np.array([1.0, 2, 3])))
    V = rg.SV(linear=[1, 2, 3], angular=[-1, 0, 2]); A = rg.SV(linear=[0, 1, 5], angular=[2, 2, 1])
    ck.expect(np.allclose(body.regressor(V, A), rg.RigidBody.regressor(V, A)), "regressor", "instance and static regressor differ")
    ck.expect(np.allclose(body.regressor(V, A) @ body.params.vec, body.params.body_wrench(V, A).vec), "regressor", "body regressor")


def jac_case(ck, p, k=1.0):
    import rigeo as rg
    J = rg.contact_jacobian(farr(p))
    for q in [farr(p).astype(int)] if all(x.denominator == 1 for x in p) else []:
        ck.expect(np.array_equal(rg.contact_jacobian(q), J), "contact_jacobian", f"contact_jacobian({q}) differs from that of the float array")
    ck.state(("jac", p)); ck.trace()
    for f in ex.eye(3) + ((F(1), F(-2), F(3)),):
        want = cross(p, f) + tuple(f)
        ck.step()
        ck.expect(np.shape(J) == (6, 3) and np.allclose((J @ farr(f))[:3] / k, farr(want)[:3] / k, atol=1e-12) and np.array_equal((J @ farr(f))[3:], farr(f)), "contact_jacobian", lambda: f"contact_jacobian({farr(p)}) @ {farr(f)} = {J @ farr(f)}, wrench is {farr(want)}")


def sv_case(ck, x, y, k):
    import rigeo as rg
    X, Y = farr(x), farr(y)
    a, b = sv(rg, x), sv(rg, y)
    ck.state(("sv", x, y, k)); ck.trace()
    def eq(s, v, what):
        ck.step()
        ck.expect(isinstance(s, rg.SpatialVector) and s.vec.shape == (6,) and np.allclose(s.vec, v, atol=1e-12, rtol=1e-12) and np.allclose(s.angular, v[:3], rtol=1e-12) and np.allclose(s.linear, v[3:], rtol=1e-12), "spatial-vector", lambda: f"{what}: {s} expected {v}")
    eq(a, X, "construct")
    eq(rg.SV.from_vec(X), X, "from_vec")
    eq(rg.SV.zero(), np.zeros(6), "zero")
    eq(rg.SV(linear=X[3:]), np.r_[np.zeros(3), X[3:]], "linear only")
    eq(rg.SV(angular=X[:3]), np.r_[X[:3], np.zeros(3)], "angular only")
    eq(rg.SV(linear=list(X[3:]), angular=list(X[:3])), X, "lists")
    eq(a + b, X + Y, "add")
    eq(a - b, X - Y, "sub")
    if np.all(X == np.round(X)):
        eq(rg.SV.from_vec(X.astype(int)), X, "from_vec(int)")
        eq(rg.SV(linear=X[3:].astype(int), angular=X[:3].astype(int)), X, "integers")
        eq(rg.SV.from_vec(X.astype(int)) + b, X + Y, "add to integers")
        eq(rg.SV.from_vec(X.astype(int)) - b, X - Y, "sub from integers")
        eq(rg.SV.from_vec(X.astype(int)) / float(k), X / float(k), "integers divided")
    if k == int(k):
        eq(a * int(k), X * float(k), "mul by int")
        eq(a / int(k), X / float(k), "div by int")
    eq(a * 1e-9, X * 1e-9, "mul by small") if not any(X) else ck.expect(np.allclose((a * 1e-9).vec * 1e9, X, rtol=1e-12, atol=0), "spatial-vector", "mul by small")
    eq(a * float(k), X * float(k), "mul")
    eq(a / float(k), X / float(k), "div")
    ck.expect(np.array_equal(a.vec, X) and np.array_equal(b.vec, Y), "operand-modified", "an operand was modified")
    # results own their data
    c = a + b
    c.vec[:] = 99.0
    d = rg.SV.from_vec(X)
    d.vec[:] = 7.0
    ck.expect(np.array_equal(a.vec, farr(x)) and np.array_equal(b.vec, farr(y)) and np.array_equal(X, farr(x)), "aliasing", "modifying a result changed an operand")
    # adjoint: crm in (angular, linear) order
    w, v = x[:3], x[3:]
    z = a.adjoint() @ Y
    want = cross(w, y[:3]) + ex.add(cross(v, y[:3]), cross(w, y[3:]))
    ck.step()
    ck.expect(np.allclose(z, farr(want), atol=1e-12), "adjoint", lambda: f"adjoint({X}) @ {Y} = {z}, expected {farr(want)}")


def rmse_case(ck, body, other, motions):
    """root mean square of the wrench error of one body's parameters against another's wrenches"""
    import rigeo as rg
    fz = lambda b: ([fr(x) for x in b[0]], [tuple(map(fr, q)) for q in b[1]])
    body, other = fz(body), fz(other)
    vec = farr(Mass.points(*body).vec)
    Ys, ws, sq = [], [], []
    for V, A in motions:
        Ys.append(rg.RigidBody.regressor(rg.SV.from_vec(farr(V)), rg.SV.from_vec(farr(A))))
        a, b = particle_wrench(*body, V, A), particle_wrench(*other, V, A)
        a, b = tuple(a[0]) + tuple(a[1]) if len(a) == 2 else a, tuple(b[0]) + tuple(b[1]) if len(b) == 2 else b
        ws.append(farr(b))
        sq.append(sum((x - y) ** 2 for x, y in zip(a, b)))
    for k in range(1, len(motions) + 1):
        want = float(sum(sq[:k]) / k) ** 0.5
        got = float(rg.validation_rmse(np.array(Ys[:k]), np.array(ws[:k]), vec))
        ck.state(("rmse", repr(body), repr(other), k)); ck.step(); ck.trace(); ck.outcome("rmse")
        ck.expect(abs(got - want) <= 1e-9 * (1 + want), "rmse", lambda: f"validation_rmse of {k} samples is {got}, expected {want}")


def main(ck):
    H = F(1, 2)
    pts = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2), (1, 1, 0), (1, 0, 1), (0, 1, 1)]
    bodies = [([1], [p]) for p in pts]
    bodies += [([], []), ([1, H, 2], [(1, -1, 3), (0, 2, 0), (-2, H, 1)]), ([1, 2, H, 3], [(1, 0, 0), (0, 2, 0), (1, -1, 3), (-2, H, 1)])]
    Vs = vel_alphabet([(1, -2, 3, 2, 0, -1), (0, 0, 5, 1, -1, 1), (-1, -1, -1, -3, 2, H)] + ([tuple(v) for v in product((0, 1, -2), repeat=6)][::17] if ck.thorough else []))
    As = [ex.zeros(6)] + list(ex.eye(6)) + [tuple(map(fr, (1, 2, -3, H, 0, 4)))]
    J = np.array([farr(Mass.points([1], [p]).vec) for p in pts])
    ck.expect(np.linalg.matrix_rank(J) == 10, "model", "point masses do not span the parameter space")
    def job(k, i):
        k.run(f"wrench/{i}", wrench_case, k, *bodies[i], Vs, As, repro=f"point masses {bodies[i]}")
    ck.pmap(job, range(len(bodies)))
    # light, heavy, small, large bodies; slow and fast motions
    def job2(k, it):
        (mk, lk), vk = it
        ms, ps = bodies[-1]
        sub = [ex.sc(fr(vk), tuple(map(fr, v))) for v in Vs[::3]]
        k.run(f"regime/{mk}/{lk}/{vk}", wrench_case, k, [fr(mk) * fr(m) for m in ms], [ex.sc(fr(lk), tuple(map(fr, p))) for p in ps], sub, [ex.sc(fr(vk), tuple(map(fr, a))) for a in As])
    ck.pmap(job2, [(a, v) for a in ((F(1, 10**9), 1), (10**6, 1), (1, F(1, 100)), (1, 100), (F(1, 10**5), 30)) for v in (1, F(1, 1000), 1000)])
    mo = [(tuple(map(fr, v)), a) for v, a in product(Vs[::7], As[::3])]
    for i, b in enumerate(bodies):
        for o in (bodies[-1], bodies[-2], bodies[1], b):
            ck.run(f"rmse/{i}", rmse_case, ck, b, o, mo)
    ck.run("body-regressor", regressor_rigid, ck)
    for p in product((-1, 0, 2), repeat=3):
        ck.run(f"jac/{p}", jac_case, ck, tuple(map(fr, p)))
    for k in (F(1, 10**9), F(1, 10**6), F(1, 10**4), F(1, 100), 300, 10**6):
        for p in ((1, 0, 0), (-2, 1, 3), (0, 0, -1), (1, F(1, 1000), 0)):
            ck.run(f"jac/{k}*{p}", jac_case, ck, ex.sc(fr(k), tuple(map(fr, p))), float(k))
    S = [ex.zeros(6)] + list(ex.eye(6)) + [tuple(map(fr, v)) for v in [(1, -2, 3, 2, 0, -1), (0, 0, 5, 1, -1, 1)]]
    for i, x in enumerate(S):
        for j, y in enumerate(S):
            for k in (F(2), F(-1, 4)):
                ck.run(f"sv/{i}/{j}/{k}", sv_case, ck, x, y, k)
    ck.sample(dict(body=repr(bodies[-1]), V=farr(Vs[-1]).tolist(), A=farr(As[-1]).tolist()))
