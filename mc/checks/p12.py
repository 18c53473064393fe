"""P12: sequences of add / sum / transform on inertial parameters against the exact model."""
from fractions import Fraction as F
from itertools import permutations, product
import numpy as np
from .. import exact as ex
from ..exact import farr, fr
from ..mass import Mass, differs, alphabet, regimes

H = F(1, 2)
MOVES = {
    "rot": (ex.R3["third*z345"], None),
    "x90": (ex.R3["x90"], None),
    "trans": (None, (1, -2, H)),
    "both": (ex.R3["x345"], (0, 3, -1)),
    "none": (None, None),
}
for _n in ("turn1e-2", "turn1e-6", "turn1e-3+far", "shift1e-3", "shift1e-6"):
    MOVES[_n] = ex.MOTIONS[3][_n]


def kw(mv):
    Q, t = mv
    d = {}
    if Q is not None:
        d["rotation"] = farr(Q)
    if t is not None:
        d["translation"] = farr(tuple(map(fr, t)))
    return d


def make(rg, m):
    if m.m == 0:
        return rg.InertialParameters.zero()
    return rg.InertialParameters(mass=float(m.m), h=farr(m.h), H=farr(m.H))


def snap(p):
    return (float(p.mass), np.array(p.com, float), np.array(p.H, float))


def same(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and np.array_equal(a[2], b[2])


def seq_case(ck, start, others, depth):
    import rigeo as rg
    O = {n: (m, make(rg, m)) for n, m in others.items()}
    osnap = {n: snap(p) for n, (_, p) in O.items()}
    ops = [("add", n) for n in O] + [("radd", n) for n in O] + [("sum", n) for n in O] + [("move", n) for n in MOVES]
    frontier = [((), start, make(rg, start))]
    for _ in range(depth):
        nxt = []
        for path, m, p in frontier:
            before = snap(p)
            for op, n in ops:
                if op == "move":
                    mv = MOVES[n]
                    p2 = p.transform(**kw(mv))
                    m2 = m.move(mv[0], None if mv[1] is None else tuple(map(fr, mv[1])))
                else:
                    om, o = O[n]
                    p2 = p + o if op == "add" else o + p if op == "radd" else sum([p, o, p])
                    m2 = m + om if op != "sum" else m + om + m
                ck.step(); ck.trace(); ck.outcome(op)
                ck.state(m2.key)
                d = differs(p2, m2, 1e-8)
                if not ck.expect(d is None, "wrong", lambda: f"after {path + ((op, n),)}: {d}"):
                    continue
                if op == "move":
                    Q, t = MOVES[n]
                    Qi = ex.eye(3) if Q is None else ex.tr(Q)
                    ti = ex.zeros(3) if t is None else ex.sc(F(-1), ex.mv(Qi, tuple(map(fr, t))))
                    b = p2.transform(rotation=farr(Qi), translation=farr(ti))
                    ck.step()
                    d = differs(b, m, 1e-8, via=(m2,))
                    ck.expect(d is None, "inverse", lambda: f"after {path + ((op, n),)} and its inverse: {d}")
                nxt.append((path + ((op, n),), m2, p2))
            ck.expect(same(snap(p), before), "operand-modified", lambda: f"operand at {path} was modified")
        frontier = nxt
    for n, (m, p) in O.items():
        ck.expect(same(snap(p), osnap[n]), "operand-modified", f"operand {n} was modified")


def algebra_case(ck, ms):
    """commutativity/associativity/sum for every order of a tuple of bodies."""
    import rigeo as rg
    ps = [make(rg, m) for m in ms]
    tot = Mass.zero()
    for m in ms:
        tot = tot + m
    ck.state(("alg",) + tuple(m.key for m in ms))
    for perm in permutations(range(len(ms))):
        q = [ps[i] for i in perm]
        res = [sum(q), q[0] + sum(q[1:], rg.InertialParameters.zero())]
        if len(q) == 3:
            res += [(q[0] + q[1]) + q[2], q[0] + (q[1] + q[2])]
        for r in res:
            ck.step(); ck.trace()
            d = differs(r, tot, 1e-8)
            ck.expect(d is None, "sum", lambda: f"order {perm}: {d}")
        for n, mv in MOVES.items():
            mm = tot.move(mv[0], None if mv[1] is None else tuple(map(fr, mv[1])))
            a = sum(q).transform(**kw(mv))
            b = sum([x.transform(**kw(mv)) for x in q])
            ck.step(2)
            for r in (a, b):
                d = differs(r, mm, 1e-8)
                ck.expect(d is None, "distribute", lambda: f"{n}, order {perm}: {d}")


def main(ck):
    al = alphabet()
    others = {k: al[k] for k in ("zero", "pt", "three", "asym")}
    jobs = [(n, m) for n, m in al.items()] + list(regimes(("pt", "asym")).items())
    def job(k, it):
        n, m = it
        k.run(f"seq/{n}", seq_case, k, m, others, ck.pick(2, 3), repro=f"start={farr(m.vec).tolist()}")
    ck.pmap(job, jobs)
    names = ["zero", "massless-points", "pt", "two", "three", "asym", "big", "small"]
    for k in (1, 2, 3):
        for c in product(names, repeat=k):
            if list(c) != sorted(c, key=names.index):
                continue
            ck.run("algebra/" + "+".join(c), algebra_case, ck, [al[n] for n in c], repro=str(c))
    ck.sample(dict(start="asym", ops=[["add", "three"], ["move", "both"]]))
