"""Exploration of realizability cones: support functions and distances.

A "family" is one way the library offers to constrain inertial parameters to a
shape.  Every family defines a convex cone of pseudo-inertia matrices.  Two
questions are asked of it, for every element of a finite alphabet:
  Sup   max <D, J> over the cone cut at mass 1      (for all D of an alphabet)
  Near  distance of a given J* to the cone          (for all J* of an alphabet)
The answers are compared with the exact cone generated by the point masses of
the shape, about which the reference model (zoo specs) knows everything.
"""
from fractions import Fraction as F
from itertools import product
import warnings
import numpy as np
import cvxpy as cp
from . import zoo
from .exact import farr

SOLVE = dict(solver=cp.CLARABEL)


def trace_form(o, v, e):
    """the other formulation the library can be configured to use for degenerate ellipsoids"""
    import rigeo.shape.ellipsoid as m
    name = "USE_ELLIPSOID_TRACE_REALIZABILITY_CONSTRAINTS"
    was = getattr(m, name, None)
    if was is None:
        return o.moment_constraints(v, eps=e)
    try:
        setattr(m, name, True)
        return o.moment_constraints(v, eps=e)
    finally:
        setattr(m, name, was)


def opts(e, d=2):
    """keywords that differ from the documented defaults only, so that the defaults are explored too"""
    kw = {}
    if not (isinstance(e, (int, float)) and e == 0):
        kw["eps"] = e
    if d != 2:
        kw["d"] = d
    return kw


def families(spec, orders=(2,)):
    """[(name, fn(obj, var, eps) -> constraints)] applicable to the spec's shape."""
    out = []
    if spec.kind in ("box", "poly", "cyl"):
        for d in orders:
            out.append((f"sdp{d}", lambda o, v, e, d=d: o.moment_sdp_constraints(v, **opts(e, d))))
    if spec.kind in ("box", "poly"):
        out.append(("vertex", lambda o, v, e: o.moment_vertex_constraints(v, **opts(e))))
    if spec.kind in ("box", "cyl"):
        out.append(("custom", lambda o, v, e: o.moment_custom_vertex_constraints(v, **opts(e))))
    if spec.kind == "ell":
        out.append(("ell", lambda o, v, e: o.moment_constraints(v, **opts(e))))
        if 0 in spec.h:
            out.append(("trace", trace_form))
    return out


# theta -> J, written independently of the library: theta = (m, h, Ixx, Ixy, Ixz, Iyy, Iyz, Izz)
def J_of_vec(th):
    m, h, I = th[0], th[1:4], th[4:]
    I = np.array([[I[0], I[1], I[2]], [I[1], I[3], I[4]], [I[2], I[4], I[5]]])
    J = np.zeros((4, 4))
    J[:3, :3] = 0.5 * np.trace(I) * np.eye(3) - I
    J[:3, 3] = J[3, :3] = h
    J[3, 3] = m
    return J


BASIS = np.array([J_of_vec(e) for e in np.eye(10)])  # (10,4,4)


def vec_of_J(J):
    H = J[:3, :3]
    I = np.trace(H) * np.eye(3) - H
    return np.array([J[3, 3], *J[:3, 3], I[0, 0], I[0, 1], I[0, 2], I[1, 1], I[1, 2], I[2, 2]])


class Cone:
    """The feasible set of one family, for a matrix ('mat') or vector ('vec') decision variable."""

    def __init__(self, build, kind="mat", eps=0.0):
        """build(var, eps) -> constraints."""
        self.kind = kind
        if kind == "mat":
            self.var = cp.Variable((4, 4))
            self.J = self.var
        elif kind == "psd":
            self.var = cp.Variable((4, 4), PSD=True)
            self.J = self.var
        else:
            self.var = cp.Variable(10)
            self.J = sum(self.var[i] * BASIS[i] for i in range(10))
        self.cons = list(build(self.var, eps))
        self._sup = self._near = self._min = None

    def value(self):
        v = self.var.value
        return None if v is None else (np.asarray(v) if self.kind != "vec" else J_of_vec(np.asarray(v)))

    def violation(self):
        """largest constraint violation at the solver's last answer (inf if there is none)."""
        worst = 0.0
        seen = set()
        for c in self.cons:
            try:
                worst = max(worst, float(np.max(c.violation())))
            except Exception:
                return np.inf
            for v in c.variables():
                if v.id in seen:
                    continue
                seen.add(v.id)
                if v.attributes.get("PSD"):
                    X = np.asarray(v.value)
                    worst = max(worst, -float(np.linalg.eigvalsh(0.5 * (X + X.T))[0]), float(np.max(np.abs(X - X.T))))
                if v.attributes.get("nonneg"):
                    worst = max(worst, -float(np.min(v.value)))
        return worst

    def _solve(self, p):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                p.solve(**SOLVE)
            except cp.SolverError:
                # a second attempt at lower accuracy
                try:
                    p.solve(tol_gap_abs=1e-6, tol_gap_rel=1e-6, tol_feas=1e-6, **SOLVE)
                except cp.SolverError:
                    try:
                        p.solve(solver=cp.SCS, eps=1e-6, max_iters=20000)
                    except cp.SolverError:
                        return "solver-error"
                return "optimal_inaccurate" if p.status == "optimal" else p.status
        return p.status

    def sup(self, D, skew=0.0, bound=None, mass=1):
        """(status, max <D,J> subject to m = mass (and tr J <= bound))."""
        if self._sup is None:
            if self.kind == "vec":
                self._D = cp.Parameter(10)
                obj = self._D @ self.var
            else:
                self._D = cp.Parameter((4, 4))
                obj = cp.sum(cp.multiply(self._D, self.var))
            m = self.var[0] if self.kind == "vec" else self.var[3, 3]
            self._sup = cp.Problem(cp.Maximize(obj), self.cons + [m == mass] + ([cp.trace(self.J) <= bound] if bound else []))
        if self.kind == "vec":
            self._D.value = np.einsum("kij,ij->k", BASIS, D)
        else:
            K = np.triu(np.arange(16.0).reshape(4, 4) - 7, 1)
            self._D.value = D + skew * (K - K.T)
        st = self._solve(self._sup)
        return st, (None if st not in ("optimal", "optimal_inaccurate") else float(self._sup.value))

    def near(self, Js):
        """(status, distance of Js to the cone)."""
        if self._near is None:
            self._Js = cp.Parameter((4, 4), symmetric=True)
            self._near = cp.Problem(cp.Minimize(cp.norm(self.J - self._Js, "fro")), self.cons)
        self._Js.value = 0.5 * (Js + Js.T)
        st = self._solve(self._near)
        return st, (None if st not in ("optimal", "optimal_inaccurate") else float(self._near.value))

    def min_quad(self, u, extra=None):
        """(status, inf u'Ju) over the feasible set (no mass normalisation)."""
        if self._min is None:
            if self.kind == "vec":
                self._U = cp.Parameter(10)
                obj = self._U @ self.var
            else:
                self._U = cp.Parameter((4, 4))
                obj = cp.sum(cp.multiply(self._U, self.var))
            self._min = cp.Problem(cp.Minimize(obj), self.cons + (extra(self) if extra else []))
        U = np.outer(u, u)
        self._U.value = np.einsum("kij,ij->k", BASIS, U) if self.kind == "vec" else U
        st = self._solve(self._min)
        return st, (None if st not in ("optimal", "optimal_inaccurate") else float(self._min.value))


# ---- alphabets ---------------------------------------------------------------
def homog(X):
    X = np.atleast_2d(X)
    return np.hstack((X, np.ones((len(X), 1))))


def point_J(x, m=1.0):
    z = np.append(np.asarray(x, float), 1.0)
    return m * np.outer(z, z)


def inner_points(spec, n=None):
    """Float points of the posed shape: exactly classified members, extreme ones first."""
    X, inside = spec.world_probes()
    X = X[inside]
    E = np.array([spec.support_point(u) for u in zoo.dirs(3)])
    # support points are members up to rounding
    P = np.vstack((E, X))
    if n is not None and len(P) > n:
        idx = np.unique(np.concatenate((np.arange(min(len(E), n // 2)), np.linspace(0, len(P) - 1, n - n // 2).astype(int))))
        P = P[idx]
    return P


def objective_alphabet(spec, axes, rich=True):
    """[(tag, D, exact or None)] in world coordinates; exact = max over the shape, where known in closed form.

    tags: 'com' linear, 'sq' second moment along an axis about an offset, 'gen' general.
    """
    out = []
    c = spec.cf
    for u in zoo.dirs(3)[:: 1 if rich else 3]:
        D = np.zeros((4, 4))
        D[:3, 3] = D[3, :3] = u / 2
        out.append(("com", D, spec.support(u)))
    for a in axes:
        lo, hi = -spec.support(-a), spec.support(a)
        for beta in (0.0, a @ c, lo, hi + 1.0, lo - 2.0):
            z = np.append(a, -beta)
            out.append(("sq", np.outer(z, z), max((lo - beta) ** 2, (hi - beta) ** 2)))
    return out


def general_objectives(spec, rich=True):
    """Quadratics in the shape's own frame, moved to the world frame: x -> p' D p."""
    T = np.eye(4)
    T[:3, :3] = spec.Rf.T
    T[:3, 3] = -spec.Rf.T @ spec.cf
    out = []
    offs = [(0, 1), (0, 2), (1, 2)]
    for i, j in offs:
        for s in (1, -1):
            D = np.zeros((4, 4))
            D[i, j] = D[j, i] = s / 2
            out.append(D)
            if rich:
                D2 = D.copy()
                D2[i, i] = 0.5
                D2[j, j] = -1
                D2[i, 3] = D2[3, i] = 0.3 * s
                out.append(D2)
    for i in range(3):
        D = np.zeros((4, 4))
        D[i, i] = -1.0
        out.append(D)
        if rich:
            D = D.copy()
            D[(i + 1) % 3, (i + 1) % 3] = 2.0
            D[i, 3] = D[3, i] = 0.5
            out.append(D)
    # mixed-sign quadratic in a skew frame
    a, b = np.array([1.0, 2, -1, 0.5]), np.array([0.5, -1, 1, -0.25])
    out.append(np.outer(a, a) - 2 * np.outer(b, b))
    if rich:
        out.append(np.outer(b, b) - 0.5 * np.outer(a, a))
        out.append(-np.outer(a, a))
    return [T.T @ D @ T for D in out]


def quad_values(D, X):
    Z = homog(X)
    return np.einsum("ij,jk,ik->i", Z, D, Z)


def max_quad_ellipsoid(spec, D):
    """max of x~' D x~ over an ellipsoid spec (degenerate allowed), by the secular equation."""
    h = np.array([float(v) for v in spec.h])
    nz = h > 0
    B = spec.Rf[:, nz] * h[nz]
    A, g, s = D[:3, :3], D[:3, 3], D[3, 3]
    c = spec.cf
    P = B.T @ A @ B
    q = B.T @ (A @ c + g)
    s0 = s + 2 * g @ c + c @ A @ c
    if P.size == 0:
        return float(s0)
    w, U = np.linalg.eigh(P)
    qq = U.T @ q
    # maximise sum w y^2 + 2 qq y, |y| <= 1: (lam - w) y = qq, lam >= max(w, 0)
    lam_lo = max(w.max(), 0.0)

    def y_of(lam):
        with np.errstate(divide="ignore", invalid="ignore"):
            y = np.where(np.abs(qq) < 1e-14, 0.0, qq / np.maximum(lam - w, 1e-300))
        return y
    val = lambda y: float(w @ (y * y) + 2 * qq @ y)
    y = y_of(lam_lo)
    if np.all(np.isfinite(y)) and np.linalg.norm(y) <= 1:
        # interior (lam=0) or hard case: fill with the top eigenvector
        if lam_lo > 0:
            k = int(np.argmax(w))
            y = y.copy()
            y[k] = 0
            rest = 1 - y @ y
            return s0 + max(val(np.where(np.arange(len(y)) == k, t * np.sqrt(max(rest, 0)), y)) for t in (1, -1))
        return s0 + val(y)
    lo, hi = lam_lo, lam_lo + np.linalg.norm(qq) + 1.0
    for _ in range(300):
        mid = 0.5 * (lo + hi)
        if np.linalg.norm(y_of(mid)) > 1:
            lo = mid
        else:
            hi = mid
    return s0 + val(y_of(hi))


def mixtures(spec, n=6):
    """Convex combinations of point masses of the shape (several total masses), plus the massless body."""
    X = inner_points(spec)
    k = len(X)
    out = [("zero", np.zeros((4, 4)))]
    for i in range(n):
        idx = [(7 * i + 5 * j * j + 3 * j) % k for j in range(2 + i)]
        w = np.array([1.0 + ((i + 2 * j) % 3) for j in range(len(idx))])
        w = w / w.sum() * (0.5, 1.0, 4.0)[i % 3]
        out.append((f"mix{i}", sum(a * point_J(X[t]) for a, t in zip(w, idx))))
    out.append(("all", sum(point_J(x) for x in X) / k))
    return out


# ---- thin, tiny and large shapes ---------------------------------------------------
def regime_shapes():
    """(spec, families to explore or None for all): extents spread over four orders of magnitude."""
    from fractions import Fraction as F
    E, B, C = zoo.EllS, zoo.BoxS, zoo.CylS
    return [(E((10, F(9, 1000), 0)), None), (E((1, F(1, 200), 0)), None), (E((1, 2, F(1, 100))), None), (E((F(1, 100), 0, 0)), None), (E((F(1, 50), F(1, 25), F(1, 100))), None), (E((50, 100, 25)), None),
            (B((1, 2, F(1, 100))), None), (B((1, F(1, 200), 0)), None), (B((F(1, 50), F(1, 25), F(1, 100))), None), (B((50, 100, 25)), None), (B((20, 1, 1)), None),
            (C(F(1, 50), 1), None), (C(2, F(1, 100)), None), (C(F(1, 50), F(1, 25)), None), (C(50, 40), ("custom",)), (C(30, 1), None), (C(60, 30), None), (C(400, 50), None),
            (zoo.PolyS(zoo._scaled(zoo.TET, F(1, 50))), None), (zoo.PolyS(zoo._scaled(zoo.TET, 40)), ("vertex",)),
            (zoo.PolyS(OCTAGON), None), (zoo.PolyS(CUBOCT), None), (zoo.PolyS(PEAKS), None), (zoo.PolyS(PEAKS[::-1]), None)]


# ten faces and fourteen faces
OCTAGON = [(x, y, z) for z in (-1, 1) for a, b in ((3, 1), (1, 3)) for x in (-a, a) for y in (-b, b)]
CUBOCT = [p for a, b in product((-1, 1), repeat=2) for p in ((a, b, 0), (a, 0, b), (0, a, b))]

# many vertices close together and far ones listed last (or first)
PEAKS = [tuple(F(t) for t in p) for p in product((-1, 1), repeat=3)] + [(F(4), F(1), F(1, 2)), (F(-3), F(0), F(-1, 2))]


def axis_sups(spec, cone, axes):
    """Along each axis u of the shape: the reach of the centre of mass and the second moment about the
    middle plane, at mass 1: yields (what, value, exact value, tolerance), clean answers only."""
    scale = 1e-6 * (1 + float(np.max(np.abs(spec.cf))))
    for a in axes:
        for sg in (1, -1):
            u = sg * a
            hi, lo = spec.support(u), -spec.support(-u)
            w = (hi - lo) / 2
            D = np.zeros((4, 4))
            D[:3, 3] = D[3, :3] = u / 2
            st, v = cone.sup(D)
            yield f"centre of mass along {np.round(u, 4).tolist()}", st, v, hi, 0.02 * w + scale
        z = np.append(a, -(hi + lo) / 2) if sg == 1 else np.append(a, (hi + lo) / 2)
        st, v = cone.sup(np.outer(z, z))
        yield f"second moment along {np.round(a, 4).tolist()}", st, v, w * w, 0.02 * w * w + 3 * scale
