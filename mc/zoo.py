"""Exact reference models of shapes ("specs"), with their realisation in rigeo.

A spec is an immutable exact description: local geometry plus an exact rigid pose
(R, c) with rational entries.  It knows, without using rigeo,
  * which points belong to the set (exact rational classification),
  * its support function,
  * how a rigid motion changes it,
and how to build the corresponding rigeo object.
"""
from fractions import Fraction as F
from functools import cached_property
from itertools import product
import math
import numpy as np
from . import exact as ex
from .exact import fr, farr


def _n(x):
    """numeric literal for repro strings"""
    a = farr(x)
    return repr(np.asarray(a).tolist()) if not isinstance(a, float) else repr(a)


def iarr(x):
    """like farr, but of integer type wherever every entry is an integer"""
    if isinstance(x, (F, int)):
        return int(x) if fr(x).denominator == 1 else float(x)
    a = farr(x)
    return a.astype(int) if np.all(a == np.round(a)) else a


def arr32(x):
    """like iarr, but of 32-bit integer type (the platform's default on some systems)"""
    a = iarr(x)
    return np.asarray(a, dtype=np.int32) if not isinstance(a, np.ndarray) else a.astype(np.int32) if a.dtype.kind == "i" else a


# integer sizes whose powers do not fit the integer type
BIG64 = (4_000_000_000, 3_000_000_000, 2_000_000_000)
BIG32 = (60_000, 50_000, 40_000)


def larr(x):
    """like farr, but nested lists"""
    a = farr(x)
    return a.tolist() if isinstance(a, np.ndarray) else a


class Spec:
    kind = "?"

    def __init__(self, dim, R=None, c=None):
        self.dim = dim
        self.R = ex.eye(dim) if R is None else R
        self.c = ex.zeros(dim) if c is None else tuple(map(fr, c))

    # identity --------------------------------------------------------------
    def local_key(self):
        raise NotImplementedError

    @property
    def key(self):
        return (self.kind, self.local_key(), self.R, self.c)

    def with_pose(self, R, c):
        raise NotImplementedError

    def move(self, Q=None, t=None):
        Q = ex.eye(self.dim) if Q is None else Q
        t = ex.zeros(self.dim) if t is None else t
        return self.with_pose(ex.mm(Q, self.R), ex.add(ex.mv(Q, self.c), t))

    # geometry --------------------------------------------------------------
    def inside_local(self, x):
        raise NotImplementedError

    def to_local(self, p):
        return ex.mv(ex.tr(self.R), ex.sub(p, self.c))

    def to_world(self, x):
        return ex.add(ex.mv(self.R, x), self.c)

    def inside(self, p):
        return self.inside_local(self.to_local(tuple(map(fr, p))))

    @cached_property
    def Rf(self):
        return farr(self.R)

    @cached_property
    def cf(self):
        return farr(self.c)

    def support(self, u):
        u = np.asarray(u, float)
        return float(u @ self.cf + self.support_local(self.Rf.T @ u))

    def support_point(self, u):
        u = np.asarray(u, float)
        return self.cf + self.Rf @ self.support_point_local(self.Rf.T @ u)

    def support_local(self, u):
        return float(np.dot(u, self.support_point_local(u)))

    def probes(self):
        """[(local exact point, inside?)] — boundary points count as inside."""
        return _cached_probes(self)

    def world_probes(self):
        P = self.probes()
        X = np.array([farr(x) for x, _ in P]) @ self.Rf.T + self.cf
        return X, np.array([b for _, b in P])

    def repro(self):
        return f"s = {self.expr()}"

    def __repr__(self):
        return self.expr()

    def pose_expr(self, center_first=False):
        out = []
        if self.R != ex.eye(self.dim):
            out.append(f"rotation=np.array({_n(self.R)})")
        if any(self.c):
            out.append(f"center=np.array({_n(self.c)})")
        return "".join(", " + o for o in out)

    def pose_kw(self, num=farr):
        kw = {}
        if self.R != ex.eye(self.dim):
            kw["rotation"] = num(self.R)
        if any(self.c):
            kw["center"] = num(self.c)
        return kw

    # inertia of uniformly distributed point masses etc. are in the checks
    def corners_bound(self):
        return None


_PROBE_CACHE = {}


def _cached_probes(spec):
    k = (spec.kind, spec.local_key())
    if k not in _PROBE_CACHE:
        pts = dict.fromkeys(spec.probe_points_local())
        _PROBE_CACHE[k] = [(x, spec.inside_local(x)) for x in pts]
    return _PROBE_CACHE[k]


_FAC = [F(0), F(1, 3), F(2, 3), F(3, 5), F(4, 5), F(1), F(51, 50)]
FACTORS = sorted(set(_FAC + [-f for f in _FAC]))
_FAC_S = [F(0), F(3, 5), F(4, 5), F(1), F(51, 50)]
FACTORS_S = sorted(set(_FAC_S + [-f for f in _FAC_S]))


class BoxS(Spec):
    kind = "box"

    def __init__(self, h, R=None, c=None):
        super().__init__(3, R, c)
        self.h = tuple(map(fr, h))

    def local_key(self):
        return self.h

    def with_pose(self, R, c):
        return BoxS(self.h, R, c)

    def inside_local(self, x):
        return all(abs(a) <= b for a, b in zip(x, self.h))

    def probe_points_local(self):
        s = max(self.h)
        s = s if s > 0 else F(1)
        axes = [[f * h for f in (F(0), F(3, 5), F(-3, 5), F(1), F(-1), F(51, 50), F(-51, 50), F(-3, 2))] if h > 0 else [F(0), s / 50, -s / 50] for h in self.h]
        # swapping axes: also use other extents as coordinates, to tell axes apart
        for i, a in enumerate(axes):
            a += [o for o in self.h if o != self.h[i]]
        return product(*axes)

    def support_point_local(self, u):
        return np.sign(u) * farr(self.h)

    def build(self, num=farr):
        import rigeo as rg
        return rg.Box(num(self.h), **self.pose_kw(num))

    def expr(self):
        return f"rg.Box({_n(self.h)}{self.pose_expr()})"

    def vertices_local(self):
        return [tuple(s * a for s, a in zip(sg, self.h)) for sg in product((1, -1), repeat=3)]


class EllS(Spec):
    kind = "ell"

    def __init__(self, h, R=None, c=None):
        super().__init__(len(h), R, c)
        self.h = tuple(map(fr, h))

    def local_key(self):
        return self.h

    def with_pose(self, R, c):
        return EllS(self.h, R, c)

    def inside_local(self, x):
        s = F(0)
        for a, h in zip(x, self.h):
            if h == 0:
                if a != 0:
                    return False
            else:
                s += (a / h) ** 2
        return s <= 1

    def probe_points_local(self):
        s = max(self.h)
        s = s if s > 0 else F(1)
        fac = FACTORS if self.dim <= 2 else (FACTORS if self.dim == 3 else FACTORS_S)
        axes = [[f * h for f in fac] if h > 0 else [F(0), s / 50, -s / 50] for h in self.h]
        return product(*axes)

    def support_point_local(self, u):
        h = farr(self.h)
        n = np.linalg.norm(h * u)
        return h * h * u / n if n > 0 else 0 * u

    def build(self, num=farr):
        import rigeo as rg
        return rg.Ellipsoid(num(self.h), **self.pose_kw(num))

    def expr(self):
        return f"rg.Ellipsoid({_n(self.h)}{self.pose_expr()})"


class CylS(Spec):
    kind = "cyl"

    def __init__(self, L, r, R=None, c=None):
        super().__init__(3, R, c)
        self.L, self.r = fr(L), fr(r)

    def local_key(self):
        return (self.L, self.r)

    def with_pose(self, R, c):
        return CylS(self.L, self.r, R, c)

    def inside_local(self, x):
        return abs(x[2]) <= self.L / 2 and x[0] ** 2 + x[1] ** 2 <= self.r ** 2

    def probe_points_local(self):
        s = max(self.L / 2, self.r)
        xy = [f * self.r for f in FACTORS] if self.r > 0 else [F(0), s / 50]
        z = [f * self.L / 2 for f in FACTORS_S] if self.L > 0 else [F(0), s / 50]
        z = z + [self.r, -self.r]
        return product(xy, xy, z)

    def support_point_local(self, u):
        r, L = float(self.r), float(self.L)
        n = math.hypot(u[0], u[1])
        q = np.array([r * u[0] / n, r * u[1] / n, 0.0]) if n > 0 else np.zeros(3)
        q[2] = np.sign(u[2]) * L / 2
        return q

    def build(self, num=farr):
        import rigeo as rg
        return rg.Cylinder(num(self.L), num(self.r), **self.pose_kw(num))

    def expr(self):
        return f"rg.Cylinder({_n(self.L)}, {_n(self.r)}{self.pose_expr()})"


class CapS(Spec):
    kind = "cap"

    def __init__(self, L, r, R=None, c=None):
        super().__init__(3, R, c)
        self.L, self.r = fr(L), fr(r)

    def local_key(self):
        return (self.L, self.r)

    def with_pose(self, R, c):
        return CapS(self.L, self.r, R, c)

    def inside_local(self, x):
        z = max(abs(x[2]) - self.L / 2, F(0))
        return x[0] ** 2 + x[1] ** 2 + z ** 2 <= self.r ** 2

    def probe_points_local(self):
        xy = [f * self.r for f in FACTORS]
        zs = [f * self.L / 2 for f in (F(0), F(1, 2), F(-1, 2), F(1), F(-1))]
        capf = [F(1, 3), F(2, 3), F(3, 5), F(4, 5), F(1), F(51, 50)]
        zs += [s * (self.L / 2 + f * self.r) for f in capf for s in (1, -1)]
        return product(xy, xy, zs)

    def support_point_local(self, u):
        r, L = float(self.r), float(self.L)
        n = np.linalg.norm(u)
        q = r * np.asarray(u) / n if n > 0 else np.zeros(3)
        q = q.copy()
        q[2] += np.sign(u[2]) * L / 2
        return q

    def build(self, num=farr):
        import rigeo as rg
        return rg.Cylinder(num(self.L), num(self.r), **self.pose_kw(num)).capsule()

    def expr(self):
        return f"rg.Cylinder({_n(self.L)}, {_n(self.r)}{self.pose_expr()}).capsule()"


class PolyS(Spec):
    kind = "poly"

    def __init__(self, V, R=None, c=None):
        V = tuple(tuple(map(fr, v)) for v in V)
        super().__init__(len(V[0]), R, c)
        self.V = V

    def local_key(self):
        return self.V

    def with_pose(self, R, c):
        return PolyS(self.V, R, c)

    @cached_property
    def hull(self):
        return _hull(self.V)

    def inside_local(self, x):
        return self.hull.contains(x)

    def probe_points_local(self):
        lo = [min(v[i] for v in self.V) for i in range(self.dim)]
        hi = [max(v[i] for v in self.V) for i in range(self.dim)]
        span = max(b - a for a, b in zip(lo, hi)) or F(1)
        m = {1: 8, 2: 8, 3: 4, 4: 2}[self.dim]
        axes = []
        for a, b in zip(lo, hi):
            st = (b - a) / m if b > a else span / 8
            k = m if b > a else 0
            axes.append([a + st * i for i in range(-1, k + 2)])
        pts = list(product(*axes))
        pts += list(self.V)
        n = len(self.V)
        for i in range(n):
            for j in range(i):
                pts.append(ex.sc(F(1, 2), ex.add(self.V[i], self.V[j])))
                # slightly beyond each end of each chord
                d = ex.sub(self.V[i], self.V[j])
                pts.append(ex.add(self.V[i], ex.sc(F(1, 50), d)))
        cen = ex.sc(F(1, n), tuple(sum(col) for col in zip(*self.V)))
        pts.append(cen)
        # slightly inside / outside each facet centroid
        for f in self.hull.facets:
            on = [v for v in self.V if ex.dot(f, v + (F(1),)) == 0]
            if on:
                fc = ex.sc(F(1, len(on)), tuple(sum(col) for col in zip(*on)))
                d = ex.sub(fc, cen)
                pts += [fc, ex.add(cen, ex.sc(F(49, 50), d)), ex.add(cen, ex.sc(F(51, 50), d))]
        for e in self.hull.eqs:
            pts.append(ex.add(cen, ex.sc(span / 50, e[:-1])))
        return pts

    def support_point_local(self, u):
        V = farr(self.V)
        return V[int(np.argmax(V @ u))]

    @cached_property
    def world_V(self):
        return tuple(self.to_world(v) for v in self.V)

    def build(self, num=farr):
        import rigeo as rg
        return rg.ConvexPolyhedron.from_vertices(num(self.world_V))

    def expr(self):
        return f"rg.ConvexPolyhedron.from_vertices(np.array({_n(self.world_V)}))"


class HPolyS(PolyS):
    """the same polyhedron, built from half-spaces: loose parallel copies of each
    facet come first, then the facets unnormalised, then sums of facets"""

    def with_pose(self, R, c):
        return HPolyS(self.V, R, c)

    def rows(self):
        out = [[], [], []]
        F_ = [tuple(-x for x in f[:-1]) + (f[-1],) for f in self.hull.facets]
        for e in self.hull.eqs:
            F_ += [tuple(e[:-1]) + (-e[-1],), tuple(-x for x in e[:-1]) + (e[-1],)]
        for i, f in enumerate(F_):
            a = ex.mv(self.R, f[:-1])
            b = f[-1] + ex.dot(a, self.c)
            k = F(i % 3 + 1, 2)
            out[0].append((a, b + 1))
            out[1].append((ex.sc(k, a), k * b))
            if i % 2:
                out[2].append((ex.add(a, pa), b + pb))
            pa, pb = a, b
        return out[0] + out[1] + out[2]

    @property
    def key(self):
        return ("hpoly",) + super().key[1:]

    def build(self, num=farr):
        import rigeo as rg
        rows = self.rows()
        return rg.ConvexPolyhedron.from_halfspaces(np.asarray(num([r[0] for r in rows])), np.asarray(num(tuple(r[1] for r in rows))))

    def expr(self):
        rows = self.rows()
        return f"rg.ConvexPolyhedron.from_halfspaces(np.array({_n([r[0] for r in rows])}), np.array({_n(tuple(r[1] for r in rows))}))"


_HULLS = {}


def _hull(V):
    if V not in _HULLS:
        _HULLS[V] = ex.Hull(V)
    return _HULLS[V]


# ---- alphabets -------------------------------------------------------------
H = F(1, 2)
TET = [(0, 0, 0), (2, 0, 0), (0, 1, 0), (0, 0, F(3, 2))]
OCT = [(2, 0, 0), (-2, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, H), (0, 0, -H)]
PYR = [(1, 1, 0), (1, -1, 0), (-1, 1, 0), (-1, -1, 0), (F(1, 2), 0, 2)]
PRISM = [(0, 0, 0), (2, 0, 0), (0, 1, 0), (0, 0, 3), (2, 0, 3), (0, 1, 3)]
SQ3 = [(0, 0, 1), (2, 0, 1), (0, 1, 1), (2, 1, 1)]  # flat square in 3-D
SEG3 = [(0, 0, 0), (1, 2, 3)]
PT3 = [(1, 2, 3)]
TRI2 = [(0, 0), (3, 0), (0, 1)]
QUAD2 = [(0, 0), (3, 0), (3, 1), (1, 2)]
SEG2 = [(0, 0), (1, 2)]
SEG1 = [(-1,), (3,)]
SIMP4 = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 2, 0, 0), (0, 0, 1, 0), (0, 0, 0, 3)]

CUBE = [tuple(map(F, p)) for p in product((-1, 1), repeat=3)]
HPOLY = [HPolyS(TET), HPolyS(OCT), HPolyS(CUBE)]
LOCAL3 = [
    BoxS((1, 2, H)), BoxS((H, H, H)), BoxS((1, H, 0)),
    EllS((1, 2, H)), EllS((2, 2, 2)), EllS((1, H, 0)), EllS((0, 0, 2)), EllS((0, H, 2)),
    CylS(2, 1), CylS(1, 2), CylS(3, H),
    CapS(2, 1), CapS(3, H), CapS(1, 2),
    PolyS(TET), PolyS(OCT), PolyS(PYR), PolyS(SQ3), PolyS(SEG3), PolyS(PT3),
] + HPOLY[:2]
LOCAL3_T = LOCAL3 + [
    BoxS((3, 1, 2)), BoxS((0, 1, 2)), BoxS((2, 0, 0)), BoxS((0, 0, 0)),
    EllS((3, 1, 2)), EllS((0, 0, 0)), EllS((2, 0, 1)), EllS((F(1, 10), 3, 1)),
    CylS(F(1, 5), 3), CylS(4, F(1, 5)), CapS(F(1, 5), 3), CapS(4, F(1, 5)), PolyS(PRISM), HPOLY[2], HPolyS(PRISM),
]
LOCAL_LOW = [
    EllS((2,)), EllS((H,)), EllS((2, 1)), EllS((H, 3)), EllS((1, 0)), EllS((0, 2)),
    PolyS(TRI2), PolyS(QUAD2), PolyS(SEG2), PolyS(SEG1),
]
LOCAL4 = [EllS((1, 2, H, 3)), EllS((1, 0, 2, H)), PolyS(SIMP4)]

# regimes: thin, tiny, large, and flat-and-narrow shapes
K = F(1, 1000)
THIN = F(1, 2000)


def _scaled(V, *k):
    k = k * len(V[0]) if len(k) == 1 else k
    return [tuple(F(a) * b for a, b in zip(v, k)) for v in V]


# rational points on a sphere: a polytope with many vertices and facets
BALL20 = sorted({tuple(F(s * q, 3) for s, q in zip(sg, p)) for p in ((1, 2, 2), (2, 1, 2), (2, 2, 1)) for sg in product((1, -1), repeat=3)})

REG3 = [
    BoxS((1, 2, THIN)), BoxS((K, K / 2, 2 * K)), BoxS((300, 100, 200)), BoxS((F(1, 100), F(1, 200), 50)),
    EllS((1, 2, THIN)), EllS((F(1, 5000), 1, F(1, 3000))), EllS((K, 2 * K, K / 2)), EllS((300, 100, 200)),
    EllS((10, F(9, 1000), 0)), EllS((0, K, 0)),
    CylS(2, THIN), CylS(THIN, 1), CylS(2 * K, K), CylS(400, 100),
    CapS(2, THIN), CapS(THIN, 1), CapS(2 * K, K), CapS(400, 100),
    PolyS(_scaled(TET, K)), PolyS(_scaled(TET, 100)), PolyS(_scaled(PYR, 1, 1, THIN)), PolyS(BALL20),
]
REG_LOW = [EllS((THIN, 1)), EllS((THIN, 0)), EllS((K,)), EllS((500,)), EllS((200, 100)), PolyS(_scaled(TRI2, K)), PolyS(_scaled(QUAD2, 1, THIN)), PolyS(_scaled(QUAD2, 200))]
REG4 = [EllS((1, K, 2, H)), EllS((1, K, 0, H))]

C3 = [(0, 0, 0), (1, -2, H), (-3, F(1, 4), 2)]
CENT = {
    1: [(0,), (F(3, 2),), (-2,)],
    2: [(0, 0), (1, -2), (F(-1, 2), 3)],
    3: C3,
    4: [(0, 0, 0, 0), (1, -2, H, 3)],
}


def poses(dim, thorough=False):
    rots = list(ex.ROT[dim].items())
    if dim == 3 and not thorough:
        rots = [(k, v) for k, v in rots if k in ("I", "x90", "z345", "third", "x345*third")]
    for (rn, R), c in product(rots, CENT[dim]):
        yield rn, R, tuple(map(fr, c))


def _tiny(dim, t=F(1, 1000)):
    """rotation by about 0.002 rad in every coordinate plane pair (rational)"""
    c, q = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    R = ex.eye(dim)
    for i in range(dim - 1):
        G = [list(r) for r in ex.eye(dim)]
        G[i][i] = G[i + 1][i + 1] = c
        G[i][i + 1], G[i + 1][i] = -q, q
        R = ex.mm(tuple(map(tuple, G)), R)
    return R


FAR = (500, -2000, 1000, 300)


def reg_poses(dim, poly=False):
    """poses for the regime shapes: origin, slightly rotated, generic, far away

    Slightly tilted or far away polyhedra are left out: see the known finding on
    cddlib's floating-point arithmetic (P03)."""
    I = ex.eye(dim)
    gen = list(ex.ROT[dim].values())[-1]
    near = CENT[dim][1] if len(CENT[dim]) > 1 else CENT[dim][0]
    for rn, R, c in (("I", I, ex.zeros(dim)), ("tiny", _tiny(dim), ex.zeros(dim)), ("gen", gen, near), ("far", gen, FAR[:dim]), ("tinyfar", _tiny(dim), FAR[:dim])):
        if not poly or rn in ("I", "gen"):
            yield rn, R, tuple(map(fr, c))


def int_poses(dim):
    """poses with integer entries: quarter turns and integer centres"""
    for rn, R in ex.ROT[dim].items():
        if all(x.denominator == 1 for r in R for x in r):
            for c in ((0,) * dim, (1, -2, 3, -1)[:dim]):
                yield rn, R, tuple(map(fr, c))


def name(spec):
    """Short stable name of a spec's local shape."""
    lk = spec.local_key()
    if spec.kind == "poly":
        return f"{'h' if isinstance(spec, HPolyS) else ''}poly{spec.dim}d[" + ";".join(",".join(str(a) for a in v) for v in lk) + "]"
    return f"{spec.kind}({','.join(str(a) for a in lk)})"


def dirs(dim, big=False):
    """Direction alphabet: all non-zero sign vectors {-1,0,1}^d (plus skew ones)."""
    D = [np.array(d, float) for d in product((-1, 0, 1), repeat=dim) if any(d)]
    if dim == 1:
        return D
    sk = [(1, 2, 3, 5), (-2, 1, 3, 1), (3, -1, 2, -2)]
    D += [np.array(s[:dim], float) for s in sk]
    if big:
        D += [np.array(d, float) for d in product((-2, -1, 1, 2), repeat=dim)]
    return [d / np.linalg.norm(d) for d in D]


# --------------------------------------------------------------------------
# the same sets, reached through a history of operations instead of a constructor
MODES = ("t", "r", "rt", "steps", "centre", "used")


def touch(obj):
    """Use an object's (cheap) queries, as a client might before moving it on."""
    import warnings
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return _touch(obj)


def _touch(obj):
    import cvxpy as cp
    d = obj.vertices.shape[1] if hasattr(obj, "vertices") else len(obj.center)
    obj.contains(np.zeros(d))
    obj.contains(np.ones((2, d)))
    obj.must_contain(cp.Variable(d))
    for a in ("volume", "A", "b", "S", "E", "Q", "rank", "vertices", "nf", "nv", "dim", "side_lengths", "longitudinal_axis", "transverse_axes", "full_length"):
        getattr(obj, a, None)
    if d == 3:
        obj.aabb()
        for m in ("mbb", "mib", "endpoints"):
            if hasattr(obj, m):
                getattr(obj, m)()
        J = cp.Variable((4, 4), PSD=True)
        for m in ("moment_sdp_constraints", "moment_constraints", "moment_vertex_constraints", "moment_custom_vertex_constraints"):
            if hasattr(obj, m):
                getattr(obj, m)(J)
        for m in ("uniform_density_params", "hollow_density_params"):
            if hasattr(obj, m) and not (hasattr(obj, "half_extents") and np.count_nonzero(obj.half_extents) < 2):
                getattr(obj, m)(1.0)
        obj.random_points(2, rng=0)
        obj.grid(3)
    return obj


def via(spec, mode):
    """A spec for the same posed set whose build() gets there by operations."""
    base = type(spec)
    d = spec.dim
    Q = list(ex.ROT[d].values())[-1]
    t = tuple(fr(x) for x in (2, -1, F(1, 2), 3)[:d])
    zero = ex.zeros(d)

    def pre(R, c, Q, t):
        """the pose that (Q, t) takes to (R, c)"""
        return ex.mm(ex.tr(Q), R), ex.mv(ex.tr(Q), tuple(a - b for a, b in zip(c, t)))

    def steps(s):
        """initial pose and list of operations (exact)"""
        I = ex.eye(d)
        if mode == "t":
            return (s.R, tuple(a - b for a, b in zip(s.c, t))), [("transform", None, t)]
        if mode == "r":
            return pre(s.R, s.c, Q, zero), [("transform", Q, None)]
        if mode == "rt":
            return (I, zero), [("transform", s.R, s.c)]
        if mode in ("steps", "used"):
            p1 = pre(s.R, s.c, ex.tr(Q), t)
            p0 = pre(*p1, Q, zero)
            return (p0[0], tuple(a + b for a, b in zip(p0[1], t))), [("transform", None, tuple(-x for x in t)), ("transform", Q, None), ("transform", ex.tr(Q), t)]
        if mode == "centre":
            return (ex.mm(ex.tr(Q), s.R), s.c), [("rotate_about_center", Q, None)]
        raise KeyError(mode)

    def ops(s):
        p, o = steps(s)
        return base.with_pose(s, *p), o

    def build(self, num=farr):
        s, o = ops(self)
        obj = s.build(num)
        for op, R, c in o:
            if mode == "used":
                touch(obj)
            if op == "transform":
                kw = {}
                if R is not None:
                    kw["rotation"] = num(R)
                if c is not None:
                    kw["translation"] = num(c)
                obj = obj.transform(**kw)
            else:
                obj = obj.rotate_about_center(num(R))
        return obj

    def expr(self):
        s, o = ops(self)
        e = s.expr()
        for op, R, c in o:
            if op == "transform":
                a = ([f"rotation=np.array({_n(R)})"] if R is not None else []) + ([f"translation=np.array({_n(c)})"] if c is not None else [])
                e = f"{e}.transform({', '.join(a)})"
            else:
                e = f"{e}.rotate_about_center(np.array({_n(R)}))"
        return e + (" # with every object used before it is moved" if mode == "used" else "")

    def with_pose(self, R, c):
        return via(base.with_pose(self, R, c), mode)

    cls = type(base.__name__ + "Via", (base,), dict(build=build, expr=expr, with_pose=with_pose, key=property(lambda self: (mode,) + base.with_pose(self, self.R, self.c).key)))
    new = object.__new__(cls)
    new.__dict__.update(spec.__dict__)
    return new


VIA3 = [BoxS((1, 2, H)), BoxS((1, H, 0)), EllS((1, 2, H)), EllS((1, H, 0)), CylS(3, H), CapS(3, H), PolyS(TET), HPolyS(OCT)]
VIA_LOW = [EllS((2, 1)), EllS((0, 2)), PolyS(TRI2), EllS((1, 2, H, 3))]
VIA_C = [(1, -2, H, 3), (3, 1, -1, 0)]


def via_specs(kinds=None, low=False, modes=MODES, locs=None):
    """(name, spec) of shapes posed by operations"""
    for s in (locs if locs is not None else VIA3 + (VIA_LOW if low else [])):
        if kinds and s.kind not in kinds:
            continue
        rots = list(ex.ROT[s.dim].items())
        for i, (rn, R) in enumerate([rots[-1], rots[1]]):
            c = tuple(map(fr, VIA_C[i][:s.dim]))
            for m in modes:
                if m == "centre" and s.kind not in ("box", "ell"):
                    continue
                yield f"via/{m}/{name(s)}/{rn}", via(s.with_pose(R, c), m)
