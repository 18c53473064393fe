"""P13: consistent() == exact positive semidefiniteness of J - eps I."""
from fractions import Fraction as F
from itertools import product
import numpy as np
from .. import exact as ex
from ..exact import farr, fr
from ..mass import Mass, psd, alphabet
from ..rngtree import Scripted, Cycle, Unscripted

DELTA = F(1, 10**7)
EPS = [F(0), F(1, 10), F(1, 2), F(1), F(-1, 10), F(2)]


def minus(J, e):
    return tuple(tuple(x - (e if i == j else 0) for j, x in enumerate(r)) for i, r in enumerate(J))


def case(ck, mass, rots):
    import rigeo as rg
    J = mass.J
    ck.state(mass.key)
    if mass.m == 0 and any(mass.h):
        return
    p0 = rg.InertialParameters(mass=float(mass.m), h=farr(mass.h), H=farr(mass.H)) if mass.m else rg.InertialParameters(mass=0.0, com=np.zeros(3), H=farr(mass.H))
    variants = [("id", p0)]
    if mass.m:
        variants.append(("pim", rg.InertialParameters.from_pim(farr(J))))
    for rn, R in rots:
        variants.append((rn, p0.transform(rotation=farr(R))))
    for e in EPS:
        yes, no = psd(minus(J, e + DELTA)), not psd(minus(J, e - DELTA))
        if not yes and not no:
            ck.outcome("borderline")
            continue
        ck.outcome("consistent" if yes else "inconsistent")
        for n, p in variants:
            got = p.consistent(eps=float(e)) if e else p.consistent()
            ck.step(); ck.trace()
            ck.expect(np.ndim(got) == 0 and bool(got) == yes, "wrong-verdict", lambda: f"consistent(eps={e}) = {got} ({n}), exact verdict {yes}; J = {farr(J).tolist()}")
    # at eps = 0 consistency is a property of the distribution: also translation invariant,
    # and equivalent to positive mass and Hc >= 0
    yes, no = psd(minus(J, DELTA)), not psd(minus(J, -DELTA))
    if (yes or no) and mass.m > 0:
        ck.expect(yes == (mass.m > 0 and psd(mass.Hc)), "model", "reference model inconsistent")
        for t in ((1, -2, F(1, 2)),):
            m2 = mass.move(None, tuple(map(fr, t)))
            y2, n2 = psd(minus(m2.J, DELTA)), not psd(minus(m2.J, -DELTA))
            if y2 or n2:
                p = p0.transform(translation=farr(tuple(map(fr, t))))
                ck.step()
                ck.expect(bool(p.consistent()) == yes, "translation", lambda: f"verdict changes under translation; J = {farr(J).tolist()}")


def relative_case(ck, L, rho, pos, R):
    """one eigenvalue far smaller in magnitude than the others decides, whatever the scale:
    J = L diag(1, 1, +-rho, 1) about the centre of mass, turned by R"""
    import rigeo as rg
    s = F(1) if pos else F(-1)
    L, rho = fr(L), fr(rho)
    D = ((L, 0, 0), (0, L, 0), (0, 0, s * L * rho))
    H = ex.mm(ex.mm(R, D), ex.tr(R))
    Hf = farr(H)
    ck.state((L, rho, pos, R))
    for m in (1.0, float(L)):
        if L * rho < 1e-12 * max(m, L):
            continue        # within rounding of the matrix
        p = rg.InertialParameters(mass=m, com=np.zeros(3), H=Hf)
        J = np.zeros((4, 4)); J[:3, :3] = Hf; J[3, 3] = m
        for n, q in (("com", p), ("vec", rg.InertialParameters.from_vec(p.vec)), ("pim", rg.InertialParameters.from_pim(J))):
            got = q.consistent()
            ck.step(); ck.trace(); ck.outcome("small eigenvalue " + ("positive" if pos else "negative"))
            ck.expect(bool(got) == pos, "wrong-verdict", lambda: f"consistent() = {got} ({n}) with second-moment eigenvalues {float(L)}, {float(L)}, {float(s * L * rho)} and mass {m}")


def gen(arg):
    """a seed, or a generator whose uniform draws cycle through scripted corner values"""
    return Scripted(Cycle(arg, [4 * v - 2 for v in arg])) if isinstance(arg, tuple) else arg


def random_case(ck, arg):
    try:
        random_case_(ck, arg)
    except Unscripted as e:
        ck.unsure(f"generator draw without scripted counterpart: {e}")


def random_case_(ck, arg):
    import rigeo as rg
    rng = gen(arg)
    p = rg.InertialParameters.random(rng=rng)
    J = np.asarray(p.J)
    w = np.linalg.eigvalsh(J)
    ck.step(); ck.trace(); ck.state(("rng", arg))
    ck.expect(np.all(np.isfinite(J)) and np.allclose(J, J.T) and w.min() >= -1e-9 and p.mass > 0 and bool(p.consistent(eps=-1e-9)), "random-inconsistent", lambda: f"random({arg}) has eigenvalues {w}")
    Hc = np.asarray(p.Hc)
    ck.expect(np.linalg.eigvalsh(Hc).min() >= -1e-9, "random-inconsistent", "second moment about the CoM is not PSD")
    for n in (1, 2, 3, 4, 6):
        rng = gen(arg)
        A = rg.random_psd_matrix(n=n, rng=rng)
        ck.step()
        ck.expect(A.shape == (n, n) and np.allclose(A, A.T) and np.linalg.eigvalsh(A).min() >= -1e-9, "random-not-psd", lambda: f"random_psd_matrix({n}) = {A.tolist()}")


def main(ck):
    T = ck.thorough
    rots = [("third", ex.R3["third"]), ("x345*third", ex.R3["x345*third"]), ("z90", ex.R3["z90"])]
    cases = {}
    h = F(1, 2)
    diag = (F(-1, 4), F(0), F(1), F(3)) if not T else (F(-1), F(-1, 4), F(0), F(1, 5), F(1), F(3))
    off = (F(0), F(1, 4), F(-1)) if not T else (F(0), F(1, 4), F(-2), F(1))
    hs = [(0, 0, 0), (1, 0, 0), (0, -1, 2), (h, h, h)]
    for a, b, c in product(diag, repeat=3):
        for xy, xz, yz in product(off, repeat=3):
            for m in (F(0), h, F(2)):
                for hh in hs:
                    if m == 0 and any(hh):
                        continue
                    mm = Mass(m, hh, [[a, xy, xz], [xy, b, yz], [xz, yz, c]])
                    cases[mm.key] = mm
    for m in alphabet().values():
        cases[m.key] = m
    L = list(cases.values())
    if not T:
        # keep every matrix once, cycling through the first moments
        L = [m for i, m in enumerate(L)]
    idx = list(enumerate(L))
    def job(k, items):
        for i, m in items:
            k.run(f"psd/{i}", case, k, m, rots if (i % 3 == 0 or T) else rots[i % 3:i % 3 + 1], repro=f"J={farr(m.J).tolist()}")
    ck.pmap(job, [idx[i::32] for i in range(32)])
    rel = [(L, rho, pos, rn, R) for L in (F(1, 10**6), F(1, 1000), 1, 10**4) for rho in (F(1, 10**3), F(1, 10**5), F(1, 10**7), F(1, 10**9)) for pos in (True, False)
           for rn, R in [("I", ex.eye(3)), ("third", ex.R3["third"]), ("z345", ex.R3["z345"])]]
    ck.pmap(lambda k, items: [k.run(f"rel/{L}/{rho}/{pos}/{rn}", relative_case, k, L, rho, pos, R) for L, rho, pos, rn, R in items], [rel[i::16] for i in range(16)])
    vals = (0.0, 0.5, 0.999999)
    scr = [t for t in product(vals, repeat=ck.pick(4, 6))]
    seeds = list(range(ck.pick(40, 400)))
    ck.pmap(lambda k, items: [k.run(f"random/{a}", random_case, k, a) for a in items], [(scr + seeds)[i::16] for i in range(16)])
    ck.sample(dict(J=farr(L[len(L) // 2].J).tolist(), eps=[str(e) for e in EPS]))
