"""Exact reference model of mass distributions: (m, h, H) with rational entries."""
from fractions import Fraction as F
import numpy as np
from . import exact as ex
from .exact import fr, farr


class Mass:
    """Second-order moments of a mass distribution in 3-D (exact)."""

    def __init__(self, m, h, H):
        self.m, self.h, self.H = fr(m), tuple(map(fr, h)), ex.mat(H)

    @classmethod
    def points(cls, ms, ps):
        m = sum(map(fr, ms), F(0))
        h = ex.zeros(3)
        H = ex.msc(F(0), ex.eye(3))
        for w, p in zip(ms, ps):
            p = tuple(map(fr, p))
            h = ex.add(h, ex.sc(fr(w), p))
            H = ex.madd(H, ex.msc(fr(w), ex.outer(p, p)))
        return cls(m, h, H)

    @classmethod
    def zero(cls):
        return cls(0, ex.zeros(3), ex.msc(F(0), ex.eye(3)))

    @property
    def key(self):
        return (self.m, self.h, self.H)

    def __add__(self, o):
        return Mass(self.m + o.m, ex.add(self.h, o.h), ex.madd(self.H, o.H))

    def move(self, Q=None, t=None):
        Q = ex.eye(3) if Q is None else Q
        t = ex.zeros(3) if t is None else t
        Qh = ex.mv(Q, self.h)
        H = ex.mm(ex.mm(Q, self.H), ex.tr(Q))
        H = ex.madd(ex.madd(H, ex.madd(ex.outer(Qh, t), ex.outer(t, Qh))), ex.msc(self.m, ex.outer(t, t)))
        return Mass(self.m, ex.add(Qh, ex.sc(self.m, t)), H)

    @property
    def com(self):
        return ex.zeros(3) if self.m == 0 else ex.sc(1 / self.m, self.h)

    @property
    def Hc(self):
        return ex.madd(self.H, ex.msc(-self.m, ex.outer(self.com, self.com)))

    @staticmethod
    def _inertia(H):
        t = H[0][0] + H[1][1] + H[2][2]
        return ex.madd(ex.msc(t, ex.eye(3)), ex.msc(F(-1), H))

    @property
    def I(self):
        return self._inertia(self.H)

    @property
    def Ic(self):
        return self._inertia(self.Hc)

    @property
    def vec(self):
        I = self.I
        return (self.m,) + self.h + (I[0][0], I[0][1], I[0][2], I[1][1], I[1][2], I[2][2])

    @property
    def J(self):
        return tuple(r + (x,) for r, x in zip(self.H, self.h)) + (self.h + (self.m,),)

    @property
    def M(self):
        """6x6 map (angular, linear) velocity -> (angular, linear) momentum about the origin."""
        x, y, z = self.h
        S = ex.mat([[0, -z, y], [z, 0, -x], [-y, x, 0]])
        top = tuple(a + b for a, b in zip(self.I, S))
        bot = tuple(tuple(-v for v in a) + b for a, b in zip(S, ex.msc(self.m, ex.eye(3))))
        return top + bot


def differs(params, mass, tol=1e-9, via=()):
    """None if rigeo params describe `mass`; else a description.

    Tolerances are relative to the magnitude of the distribution's own moments
    (and to those of the distributions in `via`, from which it was computed)."""
    al = (mass, *via)
    m = max(abs(float(x.m)) for x in al)
    sH = max(float(np.max(np.abs(farr(x.H)))) for x in al)
    sh = max(max(float(np.max(np.abs(farr(x.h)))) for x in al), np.sqrt(m * sH))
    tiny = 1e-15 / tol
    scale = dict(mass=m, h=sh, H=sH, I=2 * sH, Hc=sH, Ic=2 * sH, com=sh / abs(float(mass.m)) if mass.m else 0.0)
    for nm in ("h", "H", "I", "mass", "vec", "J", "M"):
        want = farr(getattr(mass, "m" if nm == "mass" else nm))
        got = np.asarray(getattr(params, nm), dtype=float)
        if got.shape != np.shape(want):
            return f"{nm} has shape {got.shape}"
        s = scale.get(nm, max(m, sh, 2 * sH)) + tiny
        if not np.all(np.isfinite(got)) or np.max(np.abs(got - want)) > tol * s:
            return f"{nm} = {got.tolist()}, exact value {np.asarray(want).tolist()}"
    for nm in ("com", "Hc", "Ic"):
        got = np.asarray(getattr(params, nm), dtype=float)
        if not np.all(np.isfinite(got)):
            return f"{nm} = {got.tolist()} is not finite"
        if nm == "com" and mass.m == 0:
            continue  # arbitrary
        want = farr(getattr(mass, nm))
        if got.shape != np.shape(want) or np.max(np.abs(got - want)) > tol * (scale[nm] + tiny):
            return f"{nm} = {got.tolist()}, exact value {np.asarray(want).tolist()}"
    return None


def psd(A):
    """Exact test: symmetric rational matrix positive semidefinite (symmetric elimination)."""
    M = [list(r) for r in A]
    n = len(M)
    idx = list(range(n))
    while idx:
        # a zero diagonal needs a zero row
        p = next((i for i in idx if M[i][i] != 0), None)
        if any(M[i][i] < 0 for i in idx):
            return False
        if p is None:
            return all(M[i][j] == 0 for i in idx for j in idx)
        for i in idx:
            if i != p and M[i][p] != 0:
                f = M[i][p] / M[p][p]
                for j in idx:
                    M[i][j] -= f * M[p][j]
        idx.remove(p)
    return True


def scaled(mass, k=1, l=1):
    """masses scaled by k, lengths by l"""
    k, l = fr(k), fr(l)
    return Mass(k * mass.m, ex.sc(k * l, mass.h), ex.msc(k * l * l, mass.H))


def regimes(names=("pt", "three", "asym", "full"), al=None):
    """light, heavy, small, large and far-away distributions"""
    al = al or alphabet()
    out = {}
    for n in names:
        for rn, k, l in (("light", F(1, 10**9), 1), ("heavy", 10**6, 1), ("small", 1, F(1, 1000)), ("large", 1, 1000), ("lightsmall", F(1, 10**7), F(1, 100)), ("mg", F(1, 250000), 1)):
            out[f"{n}:{rn}"] = scaled(al[n], k, l)
        out[f"{n}:far"] = al[n].move(None, tuple(map(fr, (300, -1000, 20))))
    return out


def alphabet(big=False):
    """Asymmetric mass distributions, massless and degenerate ones included."""
    H = F(1, 2)
    P = [(0, 0, 0), (1, 0, 0), (0, 2, 0), (1, -1, 3), (-2, H, 1), (H, H, -1)]
    out = {"zero": Mass.zero()}
    out["massless-points"] = Mass.points([0, 0], [(1, 2, 3), (0, 0, 1)])
    out["pt0"] = Mass.points([2], [P[0]])
    out["pt"] = Mass.points([H], [P[3]])
    out["two"] = Mass.points([1, 2], [P[1], P[4]])
    out["three"] = Mass.points([1, H, 2], [P[1], P[2], P[3]])
    out["asym"] = Mass.points([1, 2, H, 3], [P[1], P[2], P[3], P[4]])
    out["full"] = Mass.points([1, 1, 1, 1, 1], [P[0], P[1], P[2], P[3], P[5]])
    out["big"] = Mass.points([100, 50, 25, 75], [P[3], P[4], P[2], P[5]])
    out["small"] = Mass.points([F(1, 1000), F(1, 500), F(1, 250), F(1, 125)], [P[1], P[2], P[3], P[5]])
    out["centered"] = Mass.points([1, 1, 2, 2, 1, 1], [(1, 1, 0), (-1, -1, 0), (0, 1, 2), (0, -1, -2), (3, 0, 1), (-3, 0, -1)])
    return out
