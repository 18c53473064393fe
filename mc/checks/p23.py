"""P23: rejection sampling, every accept/reject pattern on the real function.

The bounding shape and the target shapes are scripted: the bounding shape hands out
labelled candidates, each target decides per candidate by a branching choice.  All
patterns are explored (stateless search over the decision tree).
"""
from fractions import Fraction as F
from itertools import product
import numpy as np
import rigeo as rg
from ..rngtree import Path
from ..zoo import BoxS, CapS, EllS, CylS, H
from .. import zoo
from ..exact import farr


class Bounding:
    """Hands out distinct labelled points; label l is the point (l, l/2, -l)."""
    dim = 3

    def __init__(self, stop=None):
        self.drawn = 0
        self.rounds = []
        self.rngs = []
        self.stop = stop

    def random_points(self, shape=1, rng=None):
        self.rngs.append(rng)
        single = np.isscalar(shape)
        sh = (int(shape),) if single else tuple(int(s) for s in shape)
        n = int(np.prod(sh))
        self.rounds.append(n)
        if self.stop is not None and len(self.rounds) > self.stop:
            raise NoEnd()
        L = np.arange(self.drawn + 1, self.drawn + n + 1, dtype=float)
        self.drawn += n
        P = np.stack((L, L / 2, -L), axis=-1)
        if single and n == 1:
            return P[0]
        return P.reshape(sh + (3,))


class NoEnd(BaseException):
    pass


class Target:
    dim = 3

    def __init__(self, idx, decide):
        self.idx, self.decide = idx, decide

    def contains(self, points, tol=1e-8):
        points = np.asarray(points)
        if points.ndim == 1:
            return np.bool_(self.decide(self.idx, int(round(points[0]))))
        return np.array([self.decide(self.idx, int(round(p[0]))) for p in points], dtype=bool)


def pattern_case(ck, ns, shape, max_tries, kw_tries):
    n = int(np.prod(shape))
    P = Path([(0, 1.0)], [(0, 1.0)])
    paths = 0
    while True:
        P.reset()
        memo = {}

        def decide(s, label):
            if (s, label) not in memo:
                memo[(s, label)] = P.choose(2) == 1
            return memo[(s, label)]
        bound = Bounding(stop=max_tries + 3)
        targets = [Target(i, decide) for i in range(ns)]
        g = np.random.default_rng(3)
        state = repr(g.bit_generator.state)
        acc = lambda: [l for l in range(1, bound.drawn + 1) if any(memo.get((i, l)) for i in range(ns))]
        ctx = lambda: f"{n} points wanted as {shape}, {ns} shapes, max_tries {max_tries}, rounds {bound.rounds}, accepted labels {acc()}"
        ck.step(); ck.trace()
        try:
            r = rg.rejection_sample(actual_shapes=targets, bounding_shape=bound, sample_shape=shape, max_tries=max_tries, rng=g)
        except NoEnd:
            ck.fail("too-many-tries", ctx())
            r = None
        except Exception as e:
            ck.outcome("raised")
            # an error is the failure report, never an accident of the data
            ck.expect(isinstance(e, (ValueError, RuntimeError)) and len(acc()) < n and len(bound.rounds) >= max_tries, "spurious-error", lambda: f"{type(e).__name__}: {e}; {ctx()}")
            r = None
        else:
            ck.outcome("returned")
            r = np.asarray(r)
            want = (3,) if np.isscalar(shape) and shape == 1 else tuple(np.atleast_1d(shape)) + (3,)
            if ck.expect(r.shape == want, "layout", lambda: f"result of shape {r.shape}, expected {want}; {ctx()}"):
                R = r.reshape(-1, 3)
                labels = [int(round(x)) for x in R[:, 0]]
                ck.expect(np.array_equal(R, np.array([[l, l / 2, -l] for l in labels])), "altered", lambda: f"returned points are not candidates: {R.tolist()}; {ctx()}")
                ck.expect(len(set(labels)) == n, "duplicate", lambda: f"returned candidates {labels}; {ctx()}")
                ck.expect(all(1 <= l <= bound.drawn and any(decide(i, l) for i in range(ns)) for l in labels), "not-accepted", lambda: f"returned candidates {labels}; {ctx()}")
            ck.expect(len(bound.rounds) <= max_tries, "too-many-tries", ctx)
        ck.expect(all(x is g for x in bound.rngs), "generator", "the bounding shape is sampled with another generator than the one passed")
        paths += 1
        if not P.next():
            break
    ck.nstates += paths
    ck.outcome("complete-trees")


def never_case(ck, shape, ns, default):
    """all candidates rejected: terminates with an error within the default number of tries"""
    bound = Bounding(stop=20000)
    targets = [Target(i, lambda s, l: False) for i in range(ns)]
    kw = {} if default else dict(max_tries=default or 0)
    ck.state(("never", shape, ns)); ck.step(); ck.trace()
    try:
        r = rg.rejection_sample(actual_shapes=targets, bounding_shape=bound, sample_shape=shape, rng=1)
    except NoEnd:
        ck.fail("non-termination", "more than 20000 rounds without an accepted candidate and no error")
    except Exception as e:
        ck.outcome("raised")
        ck.expect(isinstance(e, (ValueError, RuntimeError)), "error-kind", f"{type(e).__name__}: {e}")
        ck.expect(len(bound.rounds) <= 10000, "too-many-tries", f"{len(bound.rounds)} rounds")
    else:
        ck.fail("not-accepted", f"returned {np.asarray(r).tolist()} although every candidate was rejected")


def sparse_case(ck, shape, period, ns):
    """one candidate in `period` accepted: succeeds with the default number of tries"""
    bound = Bounding(stop=20000)
    targets = [Target(i, lambda s, l: l % period == s) for i in range(ns)]
    n = int(np.prod(shape))
    ck.state(("sparse", shape, period, ns)); ck.step(); ck.trace(); ck.outcome("sparse")
    r = np.asarray(rg.rejection_sample(actual_shapes=targets, bounding_shape=bound, sample_shape=shape, rng=np.random.default_rng(0)))
    R = r.reshape(-1, 3)
    L = [int(round(x)) for x in R[:, 0]]
    ck.expect(R.shape == (n, 3) and len(set(L)) == n and all(l % period < ns for l in L) and np.array_equal(R[:, 1], R[:, 0] / 2), "not-accepted", lambda: f"{L[:20]} with period {period}")


def none_case(ck, shape):
    """no points wanted: none are returned, in the layout asked for"""
    for ns in (1, 2):
        bound = Bounding(stop=3)
        ck.state(("none", shape, ns)); ck.step(); ck.trace()
        r = np.asarray(rg.rejection_sample([Target(i, lambda s, l: False) for i in range(ns)], bound, shape, rng=0))
        want = tuple(np.atleast_1d(shape)) + (3,)
        ck.expect(r.shape == want, "layout", f"result of shape {r.shape}, expected {want}")


def real_case(ck, bspec, specs, shape, seed):
    """real shapes: every returned point is in the bounding shape and in at least one target"""
    b = bspec.build()
    objs = [s.build() for s in specs]
    r = np.asarray(rg.rejection_sample(objs, b, shape, rng=seed))
    ck.state(("real", bspec.key, tuple(s.key for s in specs), repr(shape), seed)); ck.step(); ck.trace(); ck.outcome("real")
    want = (3,) if np.isscalar(shape) and shape == 1 else tuple(np.atleast_1d(shape)) + (3,)
    if ck.expect(r.shape == want, "layout", f"{r.shape} for {shape}"):
        R = r.reshape(-1, 3)
        ck.expect(b.contains(R, tol=1e-7).all(), "outside", "point outside the bounding shape")
        ck.expect(np.any([o.contains(R, tol=1e-7) for o in objs], axis=0).all(), "outside", "point in none of the target shapes")
        ck.expect(len(np.unique(R, axis=0)) == len(R), "duplicate", "repeated points")


def main(ck):
    T = ck.thorough
    jobs = []
    # (shapes, points, tries): every pattern
    combos = []
    for n in (1, 2, 3, 4):
        for tries in (1, 2, 3, 4):
            for ns in (1, 2, 3):
                size = (2 ** ns) ** (n * tries)
                if size <= ck.pick(2 ** 12, 2 ** 16):
                    combos.append((ns, n, tries))
    lay = {1: [1, (1, 1), np.int64(1), (1, 1, 1)], 2: [2, (2,), (1, 2), (2, 1), np.int64(2)], 3: [3, (3,), (3, 1)], 4: [4, (2, 2), (4,), (1, 2, 2)]}
    for ns, n, tries in combos:
        for sh in lay[n]:
            if isinstance(sh, int) or (2 ** ns) ** (n * tries) <= 2 ** ck.pick(9, 14):
                jobs.append((f"pattern/{ns}/{sh!r}/{tries}", pattern_case, (ns, sh, tries, True)))
    for sh in (1, 3, (2, 2)):
        for ns in (1, 2):
            jobs.append((f"never/{sh}/{ns}", never_case, (sh, ns, None)))
    for sh in (1, 2, (2, 3), 20, (5, 7)):
        for per in (2, 7, 50):
            for ns in (1, 2):
                jobs.append((f"sparse/{sh}/{per}/{ns}", sparse_case, (sh, per, ns)))
    for sh in (101, 257, 1030, (40, 30), ck.pick(3001, 20011)):
        jobs.append((f"sparse/{sh}/3/2", sparse_case, (sh, 3, 2)))
    for sh in (0, (0,), (2, 0)):
        jobs.append((f"none/{sh}", none_case, (sh,)))
    K = F(1, 1000)
    for i, (bs, ts) in enumerate(((BoxS((K, 2 * K, K)), [EllS((K, K, K / 2))]), (BoxS((300, 200, 100)), [EllS((200, 200, 100)), CylS(100, 50)]), (CylS(2 * K, K), [EllS((K, K / 2, K))]), (EllS((300, 100, 200)), [BoxS((100, 50, 100))]))):
        for rn, R, c in zoo.reg_poses(3):
            for sh in (1, 5, (2, 3)):
                jobs.append((f"real/regime{i}/{rn}/{sh}", real_case, (bs.move(R, c), [t.move(R, c) for t in ts], sh, i)))
    box = BoxS((2, 2, 2))
    tg = [[EllS((1, H, H))], [EllS((H, H, H), None, (1, 0, 0)), EllS((H, H, H), None, (-1, 0, 0))], [CapS(1, H), BoxS((1, 1, H))], [CylS(1, 1), EllS((1, 1, 1), None, (1, 1, 1))]]
    for i, s in enumerate(tg):
        for sh in (1, 5, (2, 3), (30,)):
            for seed in range(ck.pick(3, 20)):
                jobs.append((f"real/{i}/{sh}/{seed}", real_case, (box, s, sh, seed)))

    def job(k, items):
        for key, fn, a in items:
            k.run(key, fn, k, *a, repro=f"{fn.__name__}{a[:3]!r}"[:300])
    ck.pmap(job, [jobs[i::64] for i in range(64)])
    ck.sample(dict(shapes=2, points=2, max_tries=2, decision="each target accepts or rejects each candidate independently"))
