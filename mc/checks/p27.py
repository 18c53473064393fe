"""P27: vector and matrix utilities satisfy their defining identities."""
from fractions import Fraction as F
from itertools import product
from math import ceil
import numpy as np
from .. import exact as ex, zoo
from ..exact import farr


def sym_basis(n):
    """Basis of the symmetric n x n matrices, and one with all entries distinct."""
    for i in range(n):
        for j in range(i, n):
            A = np.zeros((n, n))
            A[i, j] = A[j, i] = 1 + i + 2 * j
            yield A
    B = np.arange(1.0, n * n + 1).reshape(n, n)
    yield B + B.T
    yield -(B + B.T) / 3 + np.eye(n)


def vech_case(ck, n, k):
    import rigeo.util as u
    for t, A in enumerate(sym_basis(n)):
        ck.outcome("vech"); ck.state(("vech", n, k, t)); ck.step(); ck.trace()
        want = [A[i, j] for i in range(n) for j in range(n) if j - i >= k]
        got = np.asarray(u.vech(A, k=k) if k else u.vech(A))
        ck.expect(got.shape == (len(want),) and got.tolist() == want, "vech", lambda: f"vech({A.tolist()}, k={k}) = {got.tolist()}, expected {want}")
        if k == 0:
            B = np.asarray(u.unvech(got))
            ck.expect(B.shape == (n, n) and np.array_equal(B, A), "round-trip", lambda: f"unvech(vech(A)) = {B.tolist()} for A = {A.tolist()}")
            C = np.asarray(u.unvech(want))
            ck.expect(np.array_equal(C, A), "round-trip", "unvech of a list")
            w = got.copy()
            ck.expect(np.array_equal(u.vech(u.unvech(w)), w), "round-trip", f"vech(unvech(a)), n={n}")
    # non-symmetric matrices: the upper part
    A = np.arange(1.0, n * n + 1).reshape(n, n)
    want = [A[i, j] for i in range(n) for j in range(n) if j - i >= k]
    ck.expect(np.asarray(u.vech(A, k)).tolist() == want, "vech", lambda: f"vech of a non-symmetric matrix, n={n}, k={k}: {u.vech(A, k)}")
    ints = np.arange(n * n).reshape(n, n)
    ck.expect(np.array_equal(u.unvech(u.vech(ints + ints.T)), ints + ints.T), "round-trip", "integer matrix")


def unvech_size_case(ck, m):
    import rigeo.util as u
    T = {n * (n + 1) // 2: n for n in range(1, 60)}
    ck.outcome("size-accepted" if m in T else "size-rejected"); ck.state(("size", m)); ck.step(); ck.trace()
    try:
        A = u.unvech(np.arange(1.0, m + 1))
    except AssertionError:
        ck.expect(m not in T, "unvech-size", f"unvech rejects a vector of size {m}")
        return
    if ck.expect(m in T, "unvech-size", f"unvech accepts a vector of size {m}"):
        ck.expect(A.shape == (T[m], T[m]) and np.array_equal(A, A.T) and np.array_equal(u.vech(A), np.arange(1.0, m + 1)), "round-trip", f"size {m}")


def tri_expect(ck, x, want, n=None, show=None):
    import rigeo.util as u
    r, got = u.is_triangular_number(x)
    ck.step(); ck.trace()
    ck.outcome("triangular" if want else "not-triangular")
    ck.expect(bool(r) == want, "triangular", lambda: f"is_triangular_number({show or repr(x)}) says {r}")
    if want and r:
        ck.expect(got == n and (isinstance(got, (int, np.integer)) or float(got).is_integer()), "triangular-root", lambda: f"is_triangular_number({show or repr(x)}) gives root {got}, expected {n}")


def tri_small(ck, lo, hi):
    T = {n * (n + 1) // 2: n for n in range(1, 2000)}
    for x in range(lo, hi):
        ck.state(("tri", x))
        tri_expect(ck, x, x in T, T.get(x))


def tri_big(ck, n):
    T = n * (n + 1) // 2
    ck.state(("tri", T))
    tri_expect(ck, T, True, n)
    if n > 2:
        for d in (1, -1, 2, -2, n // 2, n, -n + 1):
            x = T + d
            tri_expect(ck, x, x == T + n + 1, n + 1)
    tri_expect(ck, T + n + 1, True, n + 1)
    if T < 2**52:
        tri_expect(ck, float(T), True, n)
        tri_expect(ck, np.float64(T), True, n)
        if n > 2:
            tri_expect(ck, float(T + 1), False)
        if T < 2**50:
            tri_expect(ck, T + 0.5, False)
    if T < 2**62:
        tri_expect(ck, np.int64(T), True, n)
        if n > 2:
            tri_expect(ck, np.int64(T - 1), False)
    if T < 2**31:
        tri_expect(ck, np.int32(T), True, n)


def tri_none(ck):
    for x in (0, -1, -3, 0.0, -1.0, 0.5, 2.5, 1.0000001, 5.999999999, -6, np.int64(0), np.float64(-10)):
        ck.state(("tri", repr(x)))
        tri_expect(ck, x, False)


VALS = (-2, 0, 1, 3)


def skew_case(ck, a):
    import rigeo.util as u
    av = np.array(a, float)
    S = np.asarray(u.skew3(av))
    ck.outcome("skew/lift3"); ck.state(("skew", a))
    ck.expect(S.shape == (3, 3) and np.array_equal(S, -S.T), "skew", lambda: f"skew3({a}) = {S.tolist()} is not skew-symmetric")
    L = np.asarray(u.lift3(av))
    ck.expect(L.shape == (3, 6), "lift3", f"shape {L.shape}")
    for b in product((-1, 0, 2), repeat=3):
        bv = np.array(b, float)
        ck.step(); ck.trace()
        want = np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], float)
        ck.expect(np.array_equal(S @ bv, want), "skew", lambda: f"skew3({a}) @ {b} = {(S @ bv).tolist()}, cross product is {want.tolist()}")
    for A in sym_basis(3):
        ck.step(); ck.trace()
        h = np.array([A[0, 0], A[0, 1], A[0, 2], A[1, 1], A[1, 2], A[2, 2]])
        ck.expect(np.allclose(L @ h, A @ av, atol=1e-12, rtol=0), "lift3", lambda: f"lift3({a}) @ vech(A) = {(L @ h).tolist()}, A x = {(A @ av).tolist()} for A = {A.tolist()}")


def lift6_case(ck, V):
    import rigeo as rg
    import rigeo.util as u
    ck.outcome("lift6"); ck.state(("lift6", V))
    a, b = np.array(V[:3], float), np.array(V[3:], float)
    Y = np.asarray(u.lift6(rg.SV(linear=a, angular=b)))
    ck.expect(Y.shape == (6, 10), "lift6", f"shape {Y.shape}")
    for th in list(np.eye(10)) + [np.array([2.0, 1, -1, 3, 5, -1, 0.5, 4, 1, 3])]:
        m, h, I = th[0], th[1:4], np.array([[th[4], th[5], th[6]], [th[5], th[7], th[8]], [th[6], th[8], th[9]]])
        f = m * a - np.cross(h, b)
        n = np.cross(h, a) + I @ b
        ck.step(); ck.trace()
        w = Y @ th
        # the library orders wrenches and twists (angular, linear) or (linear, angular); read it off M
        want = WR(f, n)
        ck.expect(np.allclose(w, want, atol=1e-12, rtol=0), "lift6", lambda: f"lift6 @ theta = {w.tolist()}, M V = {want.tolist()} for V = {V}, theta = {th.tolist()}")
        if m > 0:
            p = rg.InertialParameters.from_vec(th)
            MV = np.asarray(p.M) @ np.asarray(rg.SV(linear=a, angular=b).vec)
            ck.expect(np.allclose(MV, w, atol=1e-9, rtol=0), "lift6", lambda: f"lift6 @ theta = {w.tolist()}, M @ V = {MV.tolist()}")


def WR(f, n):
    return np.concatenate((n, f))


def vertices_case(ck, h):
    import rigeo.util as u
    d = len(h)
    V = np.asarray(u.box_vertices(np.array(h, float)))
    ck.outcome("box-vertices"); ck.state(("vert", h)); ck.step(2 ** d); ck.trace()
    want = [tuple(s * a for s, a in zip(sg, h)) for sg in product((1, -1), repeat=d)]
    ck.expect(V.shape == (2 ** d, d) and sorted(map(tuple, V.tolist())) == sorted(tuple(map(float, w)) for w in want), "box_vertices", lambda: f"box_vertices({h}) = {V.tolist()}")
    V2 = np.asarray(u.box_vertices(list(map(float, h)))) if d != 2 ** d else V
    ck.expect(sorted(map(tuple, V2.tolist())) == sorted(map(tuple, V.tolist())), "box_vertices", "list argument")


def transform_case(ck, dim, rn, R, t):
    import rigeo.util as u
    Rf, tf = farr(R), farr(t)
    kws = [dict(rotation=Rf, translation=tf), dict(rotation=Rf), dict(translation=tf), {}]
    for kw in kws:
        if dim != 3 or kw:
            kw = dict(kw, dim=dim)
        r, s = kw.get("rotation", np.eye(dim)), kw.get("translation", np.zeros(dim))
        T, Ti = np.asarray(u.transform_matrix(**kw)), np.asarray(u.transform_matrix_inv(**kw))
        ck.outcome("transform"); ck.state(("tm", dim, rn, t, len(kw))); ck.step(2); ck.trace()
        want = np.eye(dim + 1)
        want[:dim, :dim], want[:dim, dim] = r, s
        ck.expect(T.shape == want.shape and np.allclose(T, want, atol=1e-14, rtol=0), "transform_matrix", lambda: f"transform_matrix({kw}) = {T.tolist()}")
        ck.expect(Ti.shape == want.shape and np.allclose(Ti @ want, np.eye(dim + 1), atol=1e-12, rtol=0) and np.allclose(want @ Ti, np.eye(dim + 1), atol=1e-12, rtol=0), "transform_matrix_inv", lambda: f"transform_matrix_inv({kw}) = {Ti.tolist()} is not the inverse")
        if "rotation" in kw:
            ck.expect(np.array_equal(kw["rotation"], Rf), "mutated", "rotation argument changed")


def times_case(ck, D, h):
    import rigeo.util as u
    n, t = u.compute_evaluation_times(float(D), float(h))
    t = np.asarray(t)
    ck.outcome("times"); ck.state(("times", D, h)); ck.step(); ck.trace()
    ck.expect(t.ndim == 1 and len(t) == n, "times", lambda: f"compute_evaluation_times({float(D)}, {float(h)}) says {n} times and returns {t.shape}")
    q = D / h
    exact = all(x.denominator & (x.denominator - 1) == 0 for x in (D, h))
    ok = {ceil(q)} | (set() if exact or q.denominator != 1 else {int(q), int(q) + 1})
    ck.expect(n in ok, "times-count", lambda: f"compute_evaluation_times({float(D)}, {float(h)}) gives {n} times, expected {ceil(q)}")
    if len(t):
        ck.expect(t[0] == 0 and np.allclose(t, float(h) * np.arange(len(t)), rtol=1e-12, atol=1e-12), "times", lambda: f"times {t.tolist()[:6]}... are not spaced {float(h)} from zero")
    if h == F(1, 10):
        n2, t2 = u.compute_evaluation_times(float(D))
        ck.expect(n2 == n and np.allclose(t2, t), "times-default", "the default step is not 0.1")


def int_case(ck):
    """Integer, non-contiguous and read-only arguments mean the same numbers."""
    import rigeo as rg
    import rigeo.util as u
    ck.outcome("integer-arguments")
    def frozen(x):
        x = np.array(x)
        x.setflags(write=False)
        return x
    def strided(x):
        x = np.asarray(x)
        big = np.full(tuple(2 * n for n in x.shape), 77, dtype=x.dtype)
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    forms = [("int", lambda x: np.array(x, int)), ("read-only", lambda x: frozen(np.array(x, float))), ("strided", lambda x: strided(np.array(x, float))),
             ("fortran", lambda x: np.asfortranarray(np.array(x, float))), ("big", lambda x: np.array(x, float) * 2.0**40), ("small", lambda x: np.array(x, float) * 2.0**-40)]
    scal = {"big": 2.0**40, "small": 2.0**-40}
    A = np.array([[2, -1, 3], [-1, 5, 7], [3, 7, -4]])
    for fn, f in forms:
        c = scal.get(fn, 1.0)
        ck.state(("form", fn)); ck.step(12); ck.trace()
        for a in product((-3, 0, 2), repeat=3):
            S = np.asarray(u.skew3(f(a)), float)
            L = np.asarray(u.lift3(f(a)), float)
            for b in np.eye(3):
                ck.expect(np.array_equal(S @ b, c * np.cross(np.array(a, float), b)), "skew", lambda: f"skew3({fn} {a}) = {S.tolist()}")
            ck.expect(np.allclose(L @ [2, -1, 3, 5, 7, -4], c * (A @ np.array(a)), rtol=1e-12, atol=0), "lift3", lambda: f"lift3({fn} {a}) = {L.tolist()}")
            h = np.abs(np.array(a))
            V = np.asarray(u.box_vertices(f(h)), float)
            want = sorted(tuple(c * s * x for s, x in zip(sg, h.tolist())) for sg in product((1, -1), repeat=3))
            ck.expect(V.shape == (8, 3) and sorted(map(tuple, V.tolist())) == want, "box_vertices", lambda: f"box_vertices({fn} {h}) = {V.tolist()}")
            Y = np.asarray(u.lift6(rg.SV(linear=f(a), angular=f(a[::-1]))), float)
            th = np.array([2.0, 1, -1, 3, 5, -1, 0.5, 4, 1, 3])
            I = np.array([[5, -1, .5], [-1, 4, 1], [.5, 1, 3]])
            a1, b1, hh = np.array(a, float), np.array(a[::-1], float), th[1:4]
            want = c * np.concatenate((np.cross(hh, a1) + I @ b1, 2 * a1 - np.cross(hh, b1)))
            ck.expect(np.allclose(Y @ th, want, rtol=1e-12, atol=1e-12 * c), "lift6", lambda: f"lift6({fn} {a}): {(Y @ th).tolist()}, expected {want.tolist()}")
        ck.expect(np.array_equal(u.vech(f(A)), c * np.array([2, -1, 3, 5, 7, -4])), "vech", lambda: f"vech of a {fn} matrix: {u.vech(f(A))}")
        ck.expect(np.array_equal(u.vech(f(A), 1), c * np.array([-1, 3, 7])) and np.array_equal(u.vech(f(A), k=-1), c * np.array([2, -1, 3, -1, 5, 7, 7, -4])), "vech", lambda: f"vech with an offset of a {fn} matrix")
        ck.expect(np.array_equal(u.unvech(f([2, -1, 3, 5, 7, -4])), c * A), "round-trip", lambda: f"unvech of a {fn} vector")
        x = f([2, -1, 3, 5, 7, -4])
        B = u.unvech(x)
        B[...] = 0
        ck.expect(np.array_equal(x, f([2, -1, 3, 5, 7, -4])), "mutated", "writing to the result of unvech changes its argument")
    # half-valued entries survive whatever the type of the other argument
    for R in (np.array([[0, -1], [1, 0]]), np.array([[0.0, -1], [1, 0]])):
        for t in (np.array([0.5, -2.25]), np.array([1, -2]), [0.5, 3], (1, 2)):
            for kw in (dict(rotation=R, translation=t), dict(rotation=R.tolist(), translation=t), dict(translation=t), dict(rotation=R)):
                want = np.eye(3)
                if "rotation" in kw:
                    want[:2, :2] = R
                if "translation" in kw:
                    want[:2, 2] = t
                T, Ti = np.asarray(u.transform_matrix(dim=2, **kw)), np.asarray(u.transform_matrix_inv(dim=2, **kw))
                ck.step(2)
                ck.expect(np.array_equal(T, want), "transform_matrix", lambda: f"transform_matrix({kw}) = {T.tolist()}")
                ck.expect(np.allclose(Ti @ want, np.eye(3), atol=1e-14), "transform_matrix_inv", lambda: f"transform_matrix_inv({kw}) = {Ti.tolist()}")
    R3 = np.array([[0, -1, 0], [0, 0, 1], [-1, 0, 0]])
    for t in ([0.5, 0.25, -3], [1, 2, 3], [1e9, -1e-9, 2**-20]):
        want = np.eye(4)
        want[:3, :3], want[:3, 3] = R3, t
        for Rr in (R3, R3.astype(float)):
            T, Ti = np.asarray(u.transform_matrix(Rr, np.array(t))), np.asarray(u.transform_matrix_inv(Rr, np.array(t)))
            inv = np.eye(4)
            inv[:3, :3], inv[:3, 3] = R3.T, -R3.T @ np.array(t)
            ck.step(2)
            ck.expect(np.array_equal(T, want), "transform_matrix", lambda: f"translation {t}: {T.tolist()}")
            ck.expect(np.allclose(Ti, inv, rtol=1e-12, atol=1e-15), "transform_matrix_inv", lambda: f"translation {t}: {Ti.tolist()}")


def times_scale_case(ck, D, h):
    """Scaling both arguments by a power of two scales the times and keeps their number."""
    import rigeo.util as u
    n0, t0 = u.compute_evaluation_times(float(D), float(h))
    for e in (-60, -30, -10, 10, 30, 60):
        n, t = u.compute_evaluation_times(float(D) * 2.0**e, float(h) * 2.0**e)
        ck.step(); ck.trace(); ck.state(("times", D, h, e))
        ck.outcome("times-scaled")
        ck.expect(n == n0 and len(t) == n and np.allclose(np.asarray(t) / 2.0**e, t0, rtol=1e-12, atol=0), "times-scale", lambda: f"compute_evaluation_times({float(D)}*2^{e}, {float(h)}*2^{e}) gives {n} times {np.asarray(t).tolist()[:4]}, unscaled {n0}")
    if D.denominator == 1 and h.denominator == 1:
        for ty in (int, np.int64):
            n, t = u.compute_evaluation_times(ty(D), ty(h))
            ck.step()
            ck.expect(n == n0 == len(t) and np.array_equal(np.asarray(t, float), t0), "times", lambda: f"integer arguments {D}, {h}: {n} times")
            n, t = u.compute_evaluation_times(ty(D), 0.25)
            ck.expect(n == len(t) == 4 * D and np.array_equal(t, 0.25 * np.arange(n)), "times", lambda: f"integer duration {D}, step 0.25: {n} times")


def times_long_case(ck, n, h):
    import rigeo.util as u
    for D, want in ((n * h, n), (n * h - h / 2, n), (n * h + h / 2, n + 1)):
        k, t = u.compute_evaluation_times(float(D), float(h))
        ck.step(); ck.trace(); ck.state(("times-long", n, h, D)); ck.outcome("times-long")
        ck.expect(k == want == len(t) and t[0] == 0 and t[-1] == float((want - 1) * h) and np.all(np.diff(t) == float(h)), "times-count", lambda: f"compute_evaluation_times({float(D)}, {float(h)}) gives {k} times, expected {want}")


def main(ck):
    T = ck.thorough
    jobs = []
    for n in range(1, ck.pick(9, 16)):
        for k in range(-n, n + 1):
            jobs.append((f"vech/{n}/{k}", vech_case, (n, k)))
    for m in range(1, ck.pick(120, 1200)):
        jobs.append((f"unvech-size/{m}", unvech_size_case, (m,)))
    step = 2500
    for lo in range(0, ck.pick(20000, 200000), step):
        jobs.append((f"tri/{lo}", tri_small, (lo, lo + step)))
    big = sorted({b**e + d for b in (2, 3, 10) for e in range(1, ck.pick(70, 200)) for d in (-1, 0, 1) if b**e + d > 0})
    for n in big:
        jobs.append((f"tri-big/{n}", tri_big, (n,)))
    jobs.append(("tri-none", tri_none, ()))
    for a in product(VALS, repeat=3):
        jobs.append((f"skew/{a}", skew_case, (a,)))
    tw = list(product((-1, 0, 2), repeat=6)) if T else [t for t in product((-1, 0, 2), repeat=6) if sum(1 for x in t if x) <= 3]
    for V in tw:
        jobs.append((f"lift6/{V}", lift6_case, (V,)))
    for d in range(1, 6):
        for h in product((0, 1, F(1, 2), 3), repeat=d):
            if d <= 3 or T and d <= 4 or sorted(h) == list(h):
                jobs.append((f"vertices/{','.join(map(str, h))}", vertices_case, (tuple(map(float, h)),)))
    for d in (1, 2, 3, 4):
        for rn, R, t in zoo.poses(d, True):
            jobs.append((f"tm/{d}/{rn}/{','.join(map(str, t))}", transform_case, (d, rn, R, t)))
    Ds = [F(a, b) for a in (1, 2, 3, 5, 7, 10, 11, 33, 100) for b in (1, 2, 8, 10, 3, 100)]
    hs = [F(1), F(1, 2), F(1, 8), F(3, 4), F(1, 10), F(1, 3), F(2), F(7, 100), F(100)]
    for D in sorted(set(Ds)):
        for h in hs:
            jobs.append((f"times/{D}/{h}", times_case, (D, h)))
            jobs.append((f"times-scale/{D}/{h}", times_scale_case, (D, h)))
    for n in (1, 2, 1000, 99999, 1 << 20):
        for h in (F(1), F(1, 4), F(1, 1024), F(8)):
            jobs.append((f"times-long/{n}/{h}", times_long_case, (n, h)))
    jobs.append(("int", int_case, ()))

    def job(k, items):
        for key, fn, a in items:
            k.run(key, fn, k, *a, repro=f"{fn.__name__}{a!r}"[:300])
    ck.pmap(job, [jobs[i::32] for i in range(32)])
    ck.sample(repr(jobs[7][2]))
