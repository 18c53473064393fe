"""P20: polynomial and moment-matrix algebra, against exact rational polynomials."""
from fractions import Fraction as F
from itertools import product, combinations_with_replacement
from math import comb
import warnings
import numpy as np
import cvxpy as cp

# ---- reference polynomials: dict exponent tuple -> Fraction ------------------


def padd(p, q):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v != 0}


def peval(p, x):
    s = F(0)
    for k, v in p.items():
        t = F(v)
        for a, e in zip(x, k):
            t *= F(a) ** e
        s += t
    return s


def pshift(p, m):
    return {tuple(a + b for a, b in zip(k, m)): v for k, v in p.items()}


def pdeg(p):
    return max(sum(k) for k in p)


def monomials(n, d):
    return [e for e in product(range(d + 1), repeat=n) if sum(e) <= d]


def mono(x, e):
    t = F(1)
    for a, k in zip(x, e):
        t *= F(a) ** k
    return t


def grid(n, small=False):
    vals = (F(-2), F(0), F(1, 2), F(3)) if n <= 2 and not small else (F(-1), F(1, 2), F(2)) if n <= 3 else (F(-1), F(2))
    return list(product(vals, repeat=n))


def read(p):
    """rigeo polynomial -> reference dict (zero coefficients dropped)."""
    return {tuple(k.value): F(float(v)) for k, v in p.coefficients.items() if v != 0}


def fl(p):
    return {k: float(v) for k, v in p.items()}


def close(a, b, scale=1.0):
    return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(b)) * scale)


def near(v, p, x, m=None):
    """v is the value of p (times the monomial m) at x, relative to the sizes of the terms."""
    f = mono(x, m) if m else F(1)
    mag = sum(abs(c * mono(x, k)) for k, c in p.items()) * abs(f)
    return abs(F(float(v)) - peval(p, x) * f) <= F(1, 10**12) * mag


# ---- cases --------------------------------------------------------------------
def basis_case(ck, n, d):
    import rigeo as rg
    from rigeo.moment import MomentIndex
    P = rg.Polynomial
    b = list(P.basis(n, d))
    want = monomials(n, d)
    ck.state(("basis", n, d))
    ck.step(len(want)); ck.trace()
    got = []
    for t in b:
        if not ck.expect(isinstance(t, MomentIndex) and len(t.value) == n, "basis-type", lambda: f"basis({n},{d}) has an entry {t!r} that is not a MomentIndex of {n} variables"):
            return
        got.append(tuple(t.value))
    ck.expect(len(got) == len(set(got)), "basis-duplicate", lambda: f"basis({n},{d}) lists a monomial twice: {got}")
    ck.expect(set(got) == set(want), "basis-set", lambda: f"basis({n},{d}) is {got}")
    degs = [sum(e) for e in got]
    ck.expect(degs == sorted(degs), "basis-order", lambda: f"basis({n},{d}) is not in graded order: {got}")
    # graded lexicographic order: within a degree, powers of earlier variables first
    ck.expect(got == sorted(want, key=lambda e: (sum(e), tuple(-a for a in e))), "basis-order", lambda: f"basis({n},{d}) is not in graded lexicographic order: {got}")
    ck.expect(P.dim(n, d) == comb(n + d, d) == len(got), "dim", lambda: f"dim({n},{d}) = {P.dim(n, d)}, there are {comb(n + d, d)} monomials")
    one = P.ones(n, d)
    ck.expect(read(one) == {e: F(1) for e in want}, "ones", lambda: f"ones({n},{d}) = {one}")
    ck.expect(one.degree == d, "degree", lambda: f"ones({n},{d}).degree = {one.degree}")
    for x in grid(n)[::5]:
        ck.step()
        ck.expect(close(one.evaluate(np.array([float(a) for a in x])), sum(mono(x, e) for e in want)), "ones-eval", f"ones({n},{d}) at {x}")


def index_case(ck, n):
    from rigeo.moment import MomentIndex
    M = monomials(n, 2)
    for a, b in product(M, repeat=2):
        ia, ib = MomentIndex(a), MomentIndex(b)
        ck.state(("idx", a, b)); ck.step(); ck.trace()
        s = tuple(x + y for x, y in zip(a, b))
        for op, r in (("+", ia + ib), ("*", ia * ib), ("sum", sum([ia, ib], start=MomentIndex((0,) * n))), ("sum0", sum([ia, ib]))):
            ck.expect(isinstance(r, MomentIndex) and tuple(r.value) == s, "index-arith", lambda: f"{a} {op} {b} = {r}")
        ck.expect((ia == ib) == (a == b) and (a != b or hash(ia) == hash(ib)), "index-eq", f"{a} == {b}")
        ck.expect(tuple(ia.value) == a and tuple(ib.value) == b, "index-mutated", f"{a}, {b} changed")
    if n <= 4:
        for a in M:
            s = "".join(map(str, a))
            ck.expect(tuple(MomentIndex(s).value) == a, "index-parse", f"MomentIndex({s!r})")


def polys(n, thorough=False):
    """Alphabet of non-zero polynomials in n variables."""
    M = monomials(n, 2 if n <= 2 else 1)
    out = {}

    def put(p):
        p = {k: F(v) for k, v in p.items() if v != 0}
        if p:
            out[tuple(sorted(p.items()))] = p
    coef = (F(-1), F(0), F(2))
    if n == 1:
        for c in product(coef, repeat=len(M)):
            put(dict(zip(M, c)))
    elif n == 2:
        for c in product(coef, repeat=len(M)):
            if thorough or sum(1 for a in c if a) <= 3:
                put(dict(zip(M, c)))
    else:
        for c in product(coef, repeat=len(M)):
            put(dict(zip(M, c)))
    e = lambda i, k: tuple(k if j == i else 0 for j in range(n))
    z = (0,) * n
    for i in range(n):
        put({e(i, 2): -1, z: F(9, 4)})
        put({e(i, 3): F(1, 2), e(n - 1 - i, 1): -1})
        put({e(i, 4): 1, e(n - 1 - i, 2): F(-1, 2), z: 1})
        put({e(i, 1): 1, z: F(1, 2)})
    put({e(i, 2): -1 - i for i in range(n)} | {z: 4})
    # exponents of two digits, and coefficients of very different sizes
    T30 = F(1, 2**30)
    put({e(0, 12): 1, e(0, 11): F(-1, 2), z: 1})
    put({e(0, 1): T30, z: 3 * T30})
    put({e(0, 2): T30 / 2**10, e(n - 1, 1): -T30})
    put({e(0, 1): 1, z: T30})
    put({e(0, 1): 2**20, e(n - 1, 2): -T30, z: 5 * 2**10})
    if n > 1:
        put({tuple([1, 11] + [0] * (n - 2)): 1, tuple([11, 1] + [0] * (n - 2)): 2})
        put({tuple([1, 11] + [0] * (n - 2)): 1, tuple([11, 1] + [0] * (n - 2)): -1, tuple([1] * n): 1})
        put({tuple([1, 0] + [0] * (n - 2)): 1, tuple([10, 0] + [0] * (n - 2)): -1, tuple([0, 10] + [0] * (n - 2)): 4})
        put({tuple([1] * n): F(3, 2), z: -1})
        put({tuple([2, 1] + [0] * (n - 2)): 1, e(1, 2): F(1, 4)})
    return list(out.values())


def poly_case(ck, n, p, others):
    import rigeo as rg
    from rigeo.moment import MomentIndex
    P = rg.Polynomial
    ck.state(("poly", n, tuple(sorted(p.items()))))
    rp = P(fl(p))
    ck.expect(read(rp) == p, "construct", lambda: f"Polynomial({fl(p)}) has coefficients {rp.coefficients}")
    if max(map(max, p)) < 10:
        rs = P({"".join(map(str, k)): float(v) for k, v in p.items()})
        ck.expect(read(rs) == p, "construct", "string keys")
    ri = P({MomentIndex(k): float(v) for k, v in p.items()})
    ck.expect(read(ri) == p, "construct", "index keys")
    ck.step(); ck.trace()
    ck.expect(rp.degree == pdeg(p), "degree", lambda: f"degree of {rp} is {rp.degree}, expected {pdeg(p)}")
    G = grid(n)
    for x in G:
        ck.step()
        xf = np.array([float(a) for a in x])
        v = rp.evaluate(xf)
        ck.expect(np.ndim(v) == 0 and near(v, p, x), "evaluate", lambda: f"({rp})({xf.tolist()}) = {v}, expected {float(peval(p, x))}")
    x = [float(a) for a in G[-1]]
    ck.expect(near(rp.evaluate(x), p, G[-1]), "evaluate", "list argument")
    xi = np.array([2 + i for i in range(n)])
    ck.expect(near(rp.evaluate(xi), p, tuple(int(a) for a in xi)), "evaluate", "integer argument")
    # integer points, in every integer type and up to sizes whose powers overflow it
    for k, types in ((1, (int, np.int64, np.int32, list)), (3_000, (int, np.int64, np.int32, list)), (70_000, (int, np.int64, np.int32, list)), (5 * 10**9, (int, np.int64, list))):
        for sg in (1, -1):
            xi = [sg * k * (2 + i) for i in range(n)]
            for ty in types:
                arg = list(xi) if ty is list else np.array(xi, dtype=ty)
                ck.step()
                v = rp.evaluate(arg)
                ck.expect(near(v, p, tuple(xi)), "evaluate", lambda: f"({rp})({xi} as {ty.__name__}) = {v}, expected {float(peval(p, xi))}")
    for m in monomials(n, 2):
        ck.step(); ck.trace()
        q = rp.localize(MomentIndex(m))
        ck.expect(read(q) == pshift(p, m), "localize", lambda: f"({rp}) times x^{m} gives {q}")
        ck.expect(q.degree == pdeg(p) + sum(m), "localize", "degree")
        for x in G[::4]:
            ck.expect(near(q.evaluate(np.array([float(a) for a in x])), p, x, m), "localize", "value")
    for q in others:
        ck.step(); ck.trace()
        rq = P(fl(q))
        s = rp + rq
        want = padd(p, q)
        ck.expect(read(s) == want, "add", lambda: f"({rp}) + ({rq}) = {s}")
        if want:
            ck.expect(s.degree == pdeg(want), "add-degree", lambda: f"degree of ({rp}) + ({rq}) is {s.degree}, expected {pdeg(want)}")
        for x in G[::4]:
            xf = np.array([float(a) for a in x])
            ck.expect(near(s.evaluate(xf), want, x), "add-eval", lambda: f"(({rp}) + ({rq}))({xf.tolist()}) = {s.evaluate(xf)}")
        ck.expect(read(rp) == p and read(rq) == q, "mutated", "operands of + changed")
    z = P.zeros()
    ck.expect(read(rp + z) == p and read(z + rp) == p and not read(z), "zeros", "adding the zero polynomial")


def pair_case(ck, n):
    """Distinct exponents, however large, are distinct monomials; substitution reads each one's own value."""
    import rigeo as rg
    from rigeo.moment import MomentIndex
    vals = (0, 1, 2, 10, 11, 12, 21, 111) if n <= 2 else (0, 1, 10, 11)
    M = list(product(vals, repeat=n))
    I = [MomentIndex(m) for m in M]
    for a, ia in zip(M, I):
        for b, ib in zip(M, I):
            ck.state(("pair", a, b)); ck.step(); ck.trace()
            ck.expect((ia == ib) == (a == b), "index-eq", lambda: f"x^{a} == x^{b} is {ia == ib}")
            ck.expect(tuple((ia + ib).value) == tuple(x + y for x, y in zip(a, b)), "index-arith", lambda: f"x^{a} times x^{b} is {ia + ib}")
    ck.expect(len(set(I)) == len(M), "index-eq", "distinct monomials coincide in a set")
    # every monomial its own coefficient
    p = {m: F(i + 1) for i, m in enumerate(M)}
    rp = rg.Polynomial(fl(p))
    ck.expect(read(rp) == p, "construct", lambda: f"a polynomial of {len(p)} monomials has {len(rp.coefficients)} coefficients")
    q = {m: F(-(i % 3)) for i, m in enumerate(M) if i % 3}
    ck.expect(read(rp + rg.Polynomial(fl(q))) == padd(p, q), "add", "sum of polynomials with many monomials")
    for x in grid(n)[::3]:
        v = {i: float(mono(x, m)) for m, i in zip(M, I)}
        if not all(np.isfinite(t) for t in v.values()):
            continue
        small = {m: c for m, c in p.items() if sum(m) <= 24}
        got = rg.Polynomial(fl(small)).substitute(v)
        ck.step()
        ck.expect(near(getattr(got, "value", got), small, x), "substitute", lambda: f"substituting the monomial values of {x} gives {getattr(got, 'value', got)}, expected {float(peval(small, x))}")


def tol_case(ck, n):
    """Only coefficients within the requested tolerance of zero are dropped."""
    import rigeo as rg
    M = monomials(n, 2)
    for t in (0, 1e-12, 1e-6, 1e-3, 1.0):
        for sizes in product((F(1, 2**40), F(-1, 2**31), F(1, 2**12), F(-3)), repeat=2):
            p = {M[0]: sizes[0], M[-1]: sizes[1], M[len(M) // 2]: F(5)}
            want = {k: v for k, v in p.items() if abs(v) > t}
            ck.state(("tol", n, t, sizes)); ck.step(); ck.trace()
            ck.expect(read(rg.Polynomial(fl(p), tol=t)) == want, "tol", lambda: f"Polynomial({fl(p)}, tol={t}) keeps {rg.Polynomial(fl(p), tol=t).coefficients}")
        for a in product((2.0**-40, -(2.0**-31), 2.0**-12, -3.0), repeat=n):
            for b in (2.0**-33, 4.0):
                want = {(0,) * n: F(b)} | {tuple(int(i == j) for j in range(n)): -F(a[i]) for i in range(n)}
                want = {k: v for k, v in want.items() if abs(v) > t}
                ck.step()
                got = rg.Polynomial.affine(np.array(a), b, tol=t)
                ck.expect(read(got) == want, "tol", lambda: f"affine({a}, {b}, tol={t}) = {got}")


def affine_case(ck, n, vals):
    import rigeo as rg
    for a in product(vals, repeat=n):
        for b in (F(-1), F(0), F(5, 2)) + ((F(3 * 10**6), F(-10**9), F(1, 2**20)) if n <= 2 else (F(10**7),)):
            if not any(a) and b == 0:
                continue
            ck.state(("affine", a, b)); ck.step(); ck.trace()
            p = rg.Polynomial.affine(np.array([float(t) for t in a]), float(b))
            want = {(0,) * n: b} | {tuple(int(i == j) for j in range(n)): -a[i] for i in range(n)}
            want = {k: v for k, v in want.items() if v != 0}
            ck.expect(read(p) == want, "affine", lambda: f"affine({a}, {b}) = {p}")
            ck.expect(p.degree == pdeg(want), "affine-degree", lambda: f"affine({a}, {b}).degree = {p.degree}")
            for x in grid(n, True):
                v = p.evaluate(np.array([float(t) for t in x]))
                ck.expect(close(v, b - sum(s * t for s, t in zip(a, x)), max(1.0, float(abs(b)))), "affine-eval", lambda: f"affine({a}, {b}) at {x} = {v}")


# ---- moment matrices -------------------------------------------------------------
def measures(n):
    A = [F(-1), F(1, 2), F(2)]
    pts = list(product(A, repeat=n))
    k = len(pts)
    return [
        [(F(1), pts[k // 2])],
        [(F(2), pts[0]), (F(1, 2), pts[-1])],
        [(F(1), pts[1 % k]), (F(1, 4), pts[k // 3]), (F(3), pts[(2 * k) // 3]), (F(1), tuple([F(0)] * n))],
        [(F(1), p) for p in pts[:6]],
        [(F(1, 3), tuple(F(i + 1, 2) * (-1) ** i for i in range(n)))],
    ]


def moment_of(mu, e):
    return sum(w * mono(x, e) for w, x in mu)


def order(n, d):
    return sorted(monomials(n, d), key=lambda e: (sum(e), tuple(-a for a in e)))


def mm(mu, n, d, p=None):
    """exact (localizing) moment matrix in graded order."""
    B = order(n, d)
    p = p or {(0,) * n: F(1)}
    return [[sum(w * peval(p, x) * mono(x, a) * mono(x, b) for w, x in mu) for b in B] for a in B]


def fm(M):
    return np.array([[float(a) for a in r] for r in M]).reshape(len(M), -1)


def holds(cons, tol=1e-7):
    """are all (numeric or constant cvxpy) constraints satisfied?"""
    worst = 0.0
    for c in cons:
        if isinstance(c, cp.constraints.constraint.Constraint):
            worst = max(worst, float(np.max(c.violation())))
        elif not bool(np.all(c)):
            return False
    return worst <= tol


def moment_case(ck, n, d):
    import rigeo as rg
    mom = rg.MomentMatrix(n=n, d=d)
    r = comb(n + d, d)
    B = order(n, d)
    ck.expect(tuple(mom.shape) == (r, r), "shape", lambda: f"MomentMatrix({n},{d}).shape = {mom.shape}")
    V = cp.Variable((r, r))
    cons = mom.moment_constraints(V)
    for i, mu in enumerate(measures(n)):
        M = fm(mm(mu, n, d))
        ck.state(("mm", n, d, i)); ck.step(); ck.trace()
        V.value = M
        ck.expect(holds(cons, 1e-8), "moment-reject", lambda: f"n={n} d={d}: the moment matrix of measure {mu} violates moment_constraints")
        ck.outcome("moment matrix accepted")
        # every single-moment perturbation of a symmetric pair, and every one-sided one
        count = {}
        for a in range(r):
            for b in range(r):
                e = tuple(x + y for x, y in zip(B[a], B[b]))
                count[e] = count.get(e, set()) | {(min(a, b), max(a, b))}
        if i > 1:
            continue
        for a in range(r):
            for b in range(a, r):
                ck.step(); ck.trace()
                e = tuple(x + y for x, y in zip(B[a], B[b]))
                Mp = M.copy()
                Mp[a, b] += 0.25
                if a != b:
                    Mp[b, a] += 0.25
                V.value = Mp
                ok = holds(cons, 1e-8)
                want = len(count[e]) == 1
                ck.outcome("perturbed: still a moment matrix" if want else "perturbed: not a moment matrix")
                ck.expect(ok == want, "moment-accept" if ok else "moment-reject", lambda: f"n={n} d={d}: changing the entry for x^{e} at {(a, b)} alone: moment_constraints {'hold' if ok else 'fail'}")
                # changing a moment everywhere keeps a moment matrix
                Mq = M.copy()
                for aa, bb in count[e]:
                    Mq[aa, bb] = Mq[bb, aa] = M[aa, bb] + 0.25
                V.value = Mq
                ck.expect(holds(cons, 1e-8), "moment-reject", lambda: f"n={n} d={d}: shifting moment {e} consistently violates moment_constraints")
    # symbolic indices
    for a in range(r):
        for b in range(r):
            e = tuple(x + y for x, y in zip(B[a], B[b]))
            ck.expect(tuple(mom.indices[a, b].value) == e, "indices", lambda: f"n={n} d={d}: index at {(a, b)} is {mom.indices[a, b]}, expected {e}")
    # pure numeric call
    M = fm(mm(measures(n)[0], n, d))
    ck.expect(holds(mom.moment_constraints(M), 1e-8), "moment-reject", "numeric call")


def localize_case(ck, n, d, p):
    import rigeo as rg
    mom = rg.MomentMatrix(n=n, d=d)
    v = (pdeg(p) + 1) // 2
    if v > d:
        return
    rp = rg.Polynomial(fl(p))
    ck.state(("loc", n, d, tuple(sorted(p.items()))))
    for mu in measures(n):
        M = fm(mm(mu, n, d))
        want = fm(mm(mu, n, d - v, p))
        ck.step(); ck.trace()
        L = np.asarray(mom.localize(M, rp), float)
        if ck.expect(L.shape == want.shape, "localize-shape", lambda: f"n={n} d={d} {rp}: {L.shape} != {want.shape}"):
            ck.expect(np.allclose(L, want, rtol=1e-9, atol=1e-9), "localize-matrix", lambda: f"n={n} d={d}: localizing matrix of {rp} for measure {mu} is {L.tolist()}, expected {want.tolist()}")
    sym = mom.localizing_matrix(d - v, rp)
    B = order(n, d - v)
    ck.expect(sym.shape == (len(B), len(B)), "localizing-shape", f"{sym.shape}")
    for a in range(len(B)):
        for b in range(len(B)):
            e = tuple(x + y for x, y in zip(B[a], B[b]))
            ck.expect(read(sym[a, b]) == pshift(p, e), "localizing-matrix", lambda: f"n={n} d={d}: entry {(a, b)} of the symbolic localizing matrix of {rp} is {sym[a, b]}")


def feas_case(ck, n, d, *ps):
    """localizing_constraints hold for M exactly when the localizing matrices of all polynomials are PSD."""
    import rigeo as rg
    mom = rg.MomentMatrix(n=n, d=d)
    vs = [(pdeg(p) + 1) // 2 for p in ps]
    if max(vs) > d:
        return
    rp = [rg.Polynomial(fl(p)) for p in ps]
    r = comb(n + d, d)
    V = cp.Variable((r, r), PSD=True)
    cons = mom.localizing_constraints(V, rp)
    for i, mu in enumerate(measures(n)):
        Ls = [fm(mm(mu, n, d - v, p)) for v, p in zip(vs, ps)]
        w = min(np.linalg.eigvalsh(L)[0] / (1 + np.max(np.abs(L))) for L in Ls)
        pos = all(peval(p, x) > 0 for _, x in mu for p in ps)
        if not pos and w > -1e-2:
            ck.outcome("localizing: borderline, skipped")
            continue
        ck.state(("feas", n, d, tuple(tuple(sorted(p.items())) for p in ps), i)); ck.step(); ck.trace()
        # distance of the measure's moment matrix to the constraint set
        q = cp.Problem(cp.Minimize(cp.norm(V - fm(mm(mu, n, d)), "fro")), cons + mom.moment_constraints(V))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                q.solve(solver=cp.CLARABEL)
            except cp.SolverError:
                ck.unsure("solver error")
                continue
        if q.status not in ("optimal", "optimal_inaccurate"):
            ck.expect(q.status not in ("infeasible", "unbounded"), "localizing-infeasible", lambda: f"n={n} d={d} {rp}: status {q.status}")
            continue
        sc = 1 + np.max(np.abs(fm(mm(mu, n, d))))
        if pos:
            ck.outcome("localizing: positive on the measure")
            ck.expect(q.value <= 1e-4 * sc, "localizing-reject", lambda: f"n={n} d={d}: measure {mu}, on which {rp} is positive, is {q.value} away from the localizing constraints")
        else:
            ck.outcome("localizing: negative on the measure")
            ck.expect(q.value >= 1e-5, "localizing-accept", lambda: f"n={n} d={d}: measure {mu} satisfies the localizing constraints of {rp} although a localizing matrix has relative eigenvalue {w}")


def main(ck):
    T = ck.thorough
    jobs = []
    for n in range(1, 6 if T else 5):
        for d in range(0, 5 if n <= 3 or T else 4):
            jobs.append((f"basis/{n}/{d}", basis_case, (n, d)))
        jobs.append((f"index/{n}", index_case, (n,)))
        if n <= 3:
            jobs.append((f"pair/{n}", pair_case, (n,)))
            jobs.append((f"tol/{n}", tol_case, (n,)))
        if n > 4:
            continue
        jobs.append((f"affine/{n}", affine_case, (n, (F(-2), F(0), F(1, 2), F(3)) if n <= 3 or T else (F(-1), F(0), F(2)))))
        Ps = polys(n, T)
        k = len(Ps)
        for i, p in enumerate(Ps):
            neg = {a: -b for a, b in p.items()}
            top = pdeg(p)
            lead = {a: -b for a, b in p.items() if sum(a) == top}  # cancels the leading terms
            others = [neg, lead, p] + (Ps if T and n <= 2 else [Ps[(i + s) % k] for s in (1, 7, 13, k // 2)])
            jobs.append((f"poly/{n}/{i}", poly_case, (n, p, others)))
        e = lambda i, kk: tuple(kk if j == i else 0 for j in range(n))
        z = (0,) * n
        loc = [{z: F(1)}, {z: F(2), e(0, 1): F(-1)}, {z: F(1), e(n - 1, 1): F(1, 2), e(0, 1): F(3)}, {z: F(9, 4), e(0, 2): F(-1), e(n - 1, 2): F(-1) if n > 1 else F(-2)},
               {e(0, 1): F(1)}, {e(0, 3): F(1), z: F(1)}, {e(n - 1, 4): F(-1), e(0, 1): F(1), z: F(3)}]
        loc.append({z: F(4), **{e(i, 2): F(-1 - i) for i in range(n)}, e(0, 1): F(1, 2)})
        for d in range(1, {1: 5, 2: 4, 3: 3, 4: 2}[n] + (1 if T and n <= 2 else 0)):
            jobs.append((f"moment/{n}/{d}", moment_case, (n, d)))
            for i, p in enumerate(loc):
                jobs.append((f"localize/{n}/{d}/{i}", localize_case, (n, d, p)))
                if d <= 2 or T and n <= 2:
                    jobs.append((f"feasible/{n}/{d}/{i}", feas_case, (n, d, p)))
        # several polynomials at once, a binding one at each position of lists of every length
        if n <= 2:
            one = {z: F(1)}
            for i, p in enumerate(loc[:5] if not T else loc):
                for k in ((2, 3, 7, 12) if not T else (2, 3, 4, 5, 7, 9, 12, 20)):
                    for j in sorted({0, 1, k // 2, k - 1}):
                        jobs.append((f"feasible-list/{n}/2/{i}/{k}/{j}", feas_case, (n, 2) + tuple(p if q == j else one for q in range(k))))
                    jobs.append((f"feasible-list/{n}/2/{i}/{k}/all", feas_case, (n, 2) + (p,) * k))
            jobs.append((f"feasible-list/{n}/2/mixed", feas_case, (n, 2, *loc[:6])))
            jobs.append((f"feasible-list/{n}/2/empty-product", feas_case, (n, 2, *loc[5::-1])))
        if n == 3:
            jobs.append((f"moment/3/3", moment_case, (3, 3)))

    def job(k, items):
        for key, fn, a in items:
            k.run(key, fn, k, *a, repro=f"{fn.__name__}{a!r}"[:1500])
    jobs.sort(key=lambda j: 0 if j[0].startswith(("moment/3", "moment/4", "feas")) else 1)
    ck.pmap(job, [jobs[i::64] for i in range(64)])
    ck.sample(dict(poly={str(k): str(v) for k, v in polys(2)[5].items()}))
