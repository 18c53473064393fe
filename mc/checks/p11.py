"""P11: all inertial representations agree; every chain of conversions keeps the distribution."""
from fractions import Fraction as F
from itertools import combinations, product
import numpy as np
from .. import exact as ex
from ..exact import farr, fr
from ..mass import Mass, differs, alphabet, regimes


def builders(rg):
    """name -> function(params-like object with .mass,.h,.com,.H,.I,.Hc,.Ic,.vec,.J) -> InertialParameters."""
    IP = rg.InertialParameters
    return {
        "h,H": lambda q: IP(mass=q.mass, h=q.h, H=q.H),
        "com,H": lambda q: IP(mass=q.mass, com=q.com, H=q.H),
        "h,I": lambda q: IP(mass=q.mass, h=q.h, I=q.I),
        "com,I": lambda q: IP(mass=q.mass, com=q.com, I=q.I),
        "com,Hc": lambda q: IP(mass=q.mass, com=q.com, H=q.Hc, translate_from_com=True),
        "h,Hc": lambda q: IP(mass=q.mass, h=q.h, H=q.Hc, translate_from_com=True),
        "com,Ic": lambda q: IP(mass=q.mass, com=q.com, I=q.Ic, translate_from_com=True),
        "h,Ic": lambda q: IP(mass=q.mass, h=q.h, I=q.Ic, translate_from_com=True),
        "vec": lambda q: IP.from_vec(q.vec),
        "pim": lambda q: IP.from_pim(q.J),
        "I2H": lambda q: IP(mass=q.mass, h=q.h, H=rg.I2H(q.I)),
        "H2I": lambda q: IP(mass=q.mass, com=q.com, I=rg.H2I(q.H)),
        "sum-vec": lambda q: IP.from_pim(sum(A * t for A, t in zip(rg.pim_sum_vec_matrices(), q.vec))),
        "expr-vec": lambda q: IP.from_pim(val(rg.pim_must_equal_vec(q.vec))),
    }


def val(E):
    return np.asarray(getattr(E, "value", E), float)


class Ref:
    def __init__(self, m):
        self.mass = float(m.m)
        for n in ("h", "com", "H", "I", "Hc", "Ic", "vec", "J"):
            setattr(self, n, farr(getattr(m, n)))


def chain_case(ck, mass, depth):
    import rigeo as rg
    B = builders(rg)
    ck.state(mass.key)
    frontier = [((), Ref(mass))]
    if not any(mass.h):
        # a first moment that is not given is zero
        q = frontier[0][1]
        for n, kw in (("H", dict(H=q.H)), ("I", dict(I=q.I)), ("Hc", dict(H=q.Hc, translate_from_com=True)), ("Ic", dict(I=q.Ic, translate_from_com=True))):
            ck.step(); ck.trace()
            d = differs(rg.InertialParameters(mass=q.mass, **kw), mass)
            ck.expect(d is None, "lost", lambda: f"building from mass and {n} alone: {d}")
    for _ in range(depth):
        nxt = []
        for path, q in frontier:
            for n, f in B.items():
                p = f(q)
                ck.step(); ck.trace()
                d = differs(p, mass)
                ck.expect(d is None, "lost", lambda: f"building via {path + (n,)}: {d}")
                nxt.append((path + (n,), p))
        frontier = nxt


def points_case(ck, ms, ps):
    import rigeo as rg
    m = Mass.points(ms, ps)
    ck.state(("pts", tuple(ms), tuple(ps)))
    M, P = farr(list(map(fr, ms))), farr([tuple(map(fr, p)) for p in ps])
    forms = [(M, P), (M.tolist(), P.tolist()), (M[::-1], P[::-1]), (M, np.asfortranarray(P)), (np.repeat(M, 2) / 2, np.repeat(P, 2, axis=0))]
    if np.all(P == np.round(P)):
        forms.append((M, P.astype(int)))
    if np.all(M == np.round(M)):
        W = M.astype(int)
        forms += [(W, P), (W.tolist(), P), (W, P.tolist()), (W.tolist(), P.tolist())]
        if np.all(P == np.round(P)):
            forms.append((W, P.astype(int)))
    elif np.all(P == np.round(P)):
        forms += [(M.tolist(), P.astype(int)), (M, P.astype(int).tolist())]
    for a, b in forms:
        q = rg.InertialParameters.from_point_masses(masses=a, points=b)
        ck.step(); ck.trace()
        d = differs(q, m)
        ck.expect(d is None, "point-masses", lambda: f"from_point_masses({ms},{ps}): {d}")
    # linearity: reading the vector through the matrices gives the pseudo-inertia
    J = sum(A * t for A, t in zip(rg.pim_sum_vec_matrices(), q.vec))
    ck.expect(np.allclose(J, farr(m.J), atol=1e-12), "pim_sum_vec_matrices", "sum of matrices differs from J")
    E = rg.pim_must_equal_vec(q.vec)
    ck.expect(np.allclose(val(E), farr(m.J), atol=1e-12), "pim_must_equal_vec", "expression differs from J")
    # point mass shorthands
    if len(ps) == 1:
        for kw in (dict(com=P[0]), dict(h=M[0] * P[0]), dict(com=P[0], translate_from_com=True)) + (() if P.any() else ({},)):
            ck.step()
            d = differs(rg.InertialParameters(mass=M[0], **kw), m)
            ck.expect(d is None, "point-mass-default", lambda: f"InertialParameters(mass={M[0]}, {kw}): {d}")


def variable_case(ck, mass):
    """The optimisation expression of a parameter-vector variable, evaluated at the vector."""
    import rigeo as rg, cvxpy as cp
    th = cp.Variable(10)
    E = rg.pim_must_equal_vec(th)
    J2, cons = rg.pim_must_equal_param_var(th, 0)
    th.value = farr(mass.vec)
    ck.step(2); ck.trace()
    ck.state(("var", mass.key))
    ck.expect(E.shape == (4, 4) and np.allclose(E.value, farr(mass.J), rtol=1e-9, atol=1e-14), "pim_must_equal_vec", "expression of the variable differs from J")
    ck.expect(np.allclose(J2.value, farr(mass.J), rtol=1e-9, atol=1e-14), "pim_must_equal_param_var", "J of the vector variable differs")
    Jv = cp.Variable((4, 4), symmetric=True)
    J3, _ = rg.pim_must_equal_param_var(Jv, 0)
    Jv.value = farr(mass.J)
    ck.expect(np.allclose(J3.value, farr(mass.J), rtol=1e-9, atol=1e-14), "pim_must_equal_param_var", "J of the matrix variable differs")


def int_case(ck, ms, ps, dt):
    """Integer masses, points, centres of mass, first moments and second moments, also where their
    products overflow the integer type they come in."""
    import rigeo as rg
    IP = rg.InertialParameters
    m = Mass.points(ms, ps)
    ck.state(("int", tuple(ms), tuple(ps), dt))
    A = (lambda x: x) if dt == "list" else (lambda x: np.array(x, dtype=dt))
    lim = np.iinfo(np.int64 if dt == "list" else dt).max

    def ints(x):
        a = np.array([[int(v) for v in r] if isinstance(r, tuple) else int(r) for r in x], dtype=object)
        return A(a.tolist()) if np.all(np.abs(a) <= lim) else None
    def arr(x):
        # (moment matrices leave room for their own trace)
        v = ints(x)
        return None if v is None or np.any(np.abs(farr(x)) > lim / 100) else np.asarray(v)
    scalar = int(m.m) if dt == "list" else np.dtype(dt).type(int(m.m))
    whole = lambda M: all(fr(v).denominator == 1 for r in M for v in (r if isinstance(r, tuple) else (r,)))
    first = [("com", m.com), ("h", m.h)]
    second = [("H", m.H, False), ("I", m.I, False), ("H", m.Hc, True), ("I", m.Ic, True)]
    todo = []
    for fn, f in first:
        for sn, sv, tr in second:
            for a in ((arr(f) if whole(f) else None), farr(f)):
                for b in ((arr(sv) if whole(sv) else None), farr(sv)):
                    if a is not None and b is not None:
                        todo.append((f"mass={m.m}, {fn}, {sn}, translate_from_com={tr} [{dt}]", lambda fn=fn, sn=sn, a=a, b=b, tr=tr: IP(mass=scalar, **{fn: a, sn: b}, translate_from_com=tr)))
        if len(ps) == 1 and whole(f) and ints(f) is not None:
            todo.append((f"mass={m.m}, {fn} alone [{dt}]", lambda fn=fn, f=f: IP(mass=scalar, **{fn: arr(f)})))
    if whole([m.vec]) and arr(m.vec) is not None:
        todo.append((f"from_vec [{dt}]", lambda: IP.from_vec(arr(m.vec))))
    if whole(m.J) and arr(m.J) is not None:
        todo.append((f"from_pim [{dt}]", lambda: IP.from_pim(arr(m.J))))
    pa, ma = ints(tuple(map(tuple, ps))), ints(tuple(ms))
    todo.append((f"from_point_masses [{dt}]", lambda: IP.from_point_masses(masses=ma, points=pa)))
    for what, f in todo:
        q = f()
        ck.step(); ck.trace(); ck.outcome("integer input")
        d = differs(q, m)
        ck.expect(d is None, "integers", lambda: f"{what}: {d}")


def errors_case(ck):
    import rigeo as rg
    z, E = np.zeros(3), np.eye(3)
    for kw in (dict(h=z, com=z), dict(H=E, I=E)):
        try:
            rg.InertialParameters(mass=1.0, **kw)
        except ValueError:
            ck.outcome("rejected")
        else:
            ck.fail("ambiguous-accepted", f"InertialParameters(mass=1, {list(kw)}) was accepted")


def main(ck):
    al = alphabet()
    H = F(1, 2)
    for Q, t, n in ((ex.R3["third"], None, "third"), (ex.R3["x345*third"], (1, -2, H), "pose"), (None, (0, 3, -1), "t")):
        for k, m in list(alphabet().items()):
            al[f"{k}@{n}"] = m.move(Q, None if t is None else tuple(map(fr, t)))
    al.update(regimes())
    # a basis of the 10-dimensional parameter space, as differences are linear
    for i, p in enumerate(product((0, 1, -2), repeat=3)):
        al[f"basis{i}"] = Mass.points([1], [p])
    def job(k, items):
        for n, m in items:
            k.run(f"chain/{n}", chain_case, k, m, ck.pick(2, 3) if "basis" not in n else 2, repro=f"vec={farr(m.vec).tolist()}")
            k.run(f"var/{n}", variable_case, k, m)
    it = list(al.items())
    ck.pmap(job, [it[i::16] for i in range(16)])
    pts = [(0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, -1), (1, -1, 3), (-2, H, 1), (H, H / 2, -3 * H)]
    n = 0
    for k in ck.pick((1, 2, 3), (1, 2, 3, 4)):
        for ps in combinations(pts, k):
            for ms in product((0, H, 2), repeat=k):
                n += 1
                ck.run(f"points/{n}", points_case, ck, ms, ps, repro=f"from_point_masses({[float(x) for x in ms]}, {[list(map(float, p)) for p in ps]})")
    for mk in (F(1, 10**9), 10**6):
        for lk in (F(1, 1000), 1, 500):
            for ps in combinations(pts, 3):
                for ms in ((1, H, 2), (0, 1, 3), (2, 0, 0)):
                    n += 1
                    ck.run(f"points/{n}", points_case, ck, [mk * fr(x) for x in ms], [ex.sc(fr(lk), tuple(map(fr, p))) for p in ps])
    many = list(product((-1, 0, 2), (0, 3), (1, -2, H)))
    for k in (33, 101, 257, 1030, ck.pick(3001, 20011)):
        n += 1
        ck.run(f"points-many/{k}", points_case, ck, [F(i % 5 + 1, 2) for i in range(k)], [(i % 7 - 3, F(i % 11, 2), 1 - i % 3) for i in range(k)])
    for k in (4, 10, 18):
        n += 1
        ck.run(f"points/{n}", points_case, ck, [F(i % 5, 2) for i in range(1, k + 1)], many[:k])
    for k in (1, 7, 50_000, 3 * 10**9):
        for ps in ([(1, 0, 0)], [(1, -2, 3)], [(1, 0, 0), (-1, 2, 0)], [(1, -2, 3), (0, 1, 1), (2, 2, -1)], [(0, 0, 0), (1, 1, 1), (-2, 1, 0), (0, 3, 1)]):
            for ms in ((1,) * len(ps), (2, 3, 1, 4)[:len(ps)]):
                for dt in ("int64", "list") + (("int32",) if k < 10**6 else ()):
                    n += 1
                    ck.run(f"int/{k}/{n}", int_case, ck, ms, [tuple(k * x for x in p) for p in ps], dt)
    ck.run("errors", errors_case, ck)
    ck.sample(dict(vec=farr(al["asym@pose"].vec).tolist(), chain=["h,Ic", "vec"]))
