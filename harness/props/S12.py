"""S12: optimised Latin hypercubes and nested designs."""
import sys
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"not_worse": 30, "latin": 30, "nested": 30, "sizes": 30, "distinct": 30, "limits": 60}
RULE = "distinct (number of points, variables, criterion power, fixed points) and (levels, points of the highest level, variables)"
ASSUMPTIONS = ["the start of the optimisation is the design the sampler draws from pyDOE2 (observed at that call)", "incremental updates are undecided where cancellation makes them meaningless"]
CASE_LIMIT = 60
HANGS = True


def cases(tier, seed):
    rng = np.random.default_rng(seed + 1200)
    out = []
    for r in range(40 if tier == "quick" else 250):
        out.append(dict(m="optimised", s=int(rng.integers(1 << 30))))
        out.append(dict(m="nested", s=int(rng.integers(1 << 30))))
        out.append(dict(m="exchange", s=int(rng.integers(1 << 30))))
        if r % 2:
            out.append(dict(m="continued", s=int(rng.integers(1 << 30))))
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


def phip(X, p=10):
    D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))[np.triu_indices(len(X), 1)]
    if len(D) == 0:
        return 0.0
    m = D.min()
    return float(((D / m) ** (-p)).sum() ** (1.0 / p) / m)


def columns(X):
    return np.sort(X, axis=0)


class Starts:
    """record what the sampler draws from pyDOE2"""

    def __enter__(self):
        import pyDOE2
        import smt.sampling_methods.lhs
        self.got = []
        orig = pyDOE2.lhs

        def spy(*a, **k):
            r = orig(*a, **k)
            self.got.append(np.array(r))
            return r
        self.done = []
        for name, mod in list(sys.modules.items()):
            if name.startswith("smt.") or name == "pyDOE2":
                for k, v in list(vars(mod).items()):
                    if v is orig:
                        setattr(mod, k, spy)
                        self.done.append((mod, k))
        self.orig = orig
        return self

    def __exit__(self, *a):
        for mod, k in self.done:
            setattr(mod, k, self.orig)


def box(rng, d):
    lo = rng.choice([0.0, -3.0, 100.0], d)
    return np.stack([lo, lo + rng.choice([1.0, 0.1, 20.0], d)], 1)


def spied(rec, rng, sig, sampler):
    """watch every exchange of the optimisation, when the sampler still offers that method"""
    f = getattr(sampler, "_PhiP_exchange", None)
    if f is None:
        return
    seen = [0]
    rng2 = np.random.default_rng(5)

    def wrapper(X, *a, **k):
        if rng2.random() > .02:
            return f(X, *a, **k)
        B = np.array(X)
        P0 = k.get("PhiP_", a[1] if len(a) > 1 else None)
        p = k.get("p", a[2] if len(a) > 2 else 10)
        r = f(X, *a, **k)
        judge_exchange(rec, B, np.array(X), P0, r, p, sig)
        seen[0] += 1
        return r
    sampler._PhiP_exchange = wrapper


def judge_exchange(rec, B, X, P0, r, p, sig):
    b, x = phip(B, p), phip(X, p)
    # rounding: the update adds and removes terms as large as the criterion before, to the power p
    tol = 1e-8 + 1e-12 * (max(b, x) / x) ** p
    if tol > 1e-2 or not np.isfinite(tol):
        rec.inconclusive("exchange with cancellation")
        return
    if P0 is not None:
        rec.check("running", bool(abs(P0 - b) <= 1e-5 * b), "running-criterion", "criterion carried along is %r, that of the design %r" % (P0, b), sig)
    rec.check("exchange", bool(abs(r - x) <= tol * x + 1e-6 * x), "exchange-criterion", "updated criterion %r, recomputed %r" % (r, x), sig)
    d = B != X
    ok = d.sum() in (0, 2) and (d.sum() == 0 or len(set(np.nonzero(d)[1])) == 1) and np.array_equal(columns(B), columns(X))
    rec.check("exchange", bool(ok), "exchange-design", "an exchange is not a swap of two entries of one variable", sig)


def optimised(case, rec, rng):
    from smt.sampling_methods import LHS
    d, n = int(rng.integers(1, 6)), int(rng.choice([2, 3, 5, 10, 20, 35]))
    if rng.random() < .15:
        n = 1
    xl = box(rng, d)
    s = LHS(xlimits=xl, criterion="ese", random_state=int(rng.integers(1 << 30)))
    sig = "n=%d d=%d" % (n, d)
    spied(rec, rng, sig, s)
    with Starts() as st, quiet():
        X = s(n)
    if X.shape != (n, d):
        rec.violation("shape", "design of shape %s" % (X.shape,))
        return
    rec.check("limits", bool(np.all(X >= xl[:, 0]) and np.all(X <= xl[:, 1])), "limits:ese", "points outside the limits", sig)
    U = (X - xl[:, 0]) / (xl[:, 1] - xl[:, 0])
    i = np.arange(n)[:, None]
    ok = np.all(columns(U) >= i / n - 1e-9) and np.all(columns(U) <= (i + 1) / n + 1e-9)
    rec.check("latin", bool(ok), "latin:ese", "optimised design is not a Latin hypercube", sig)
    S = [g for g in st.got if g.shape == (n, d)]
    if not S:
        rec.inconclusive("start not observed")
        return
    # designs that share all coordinates with the result: its start
    a, b = phip(U), phip(S[0])
    rec.check("not_worse", bool(a <= b * (1 + 1e-6)), "worse:ese", "criterion %r after the optimisation, %r before" % (a, b), sig)
    rec.check("latin", bool(np.abs(columns(U) - columns(S[0])).max() < 1e-9), "coordinates:ese", "the optimisation changed coordinates instead of exchanging them", sig + " coordinates")
    if a < b * (1 - 1e-9):
        rec.seen("improved")


def exchange(case, rec, rng):
    """single exchanges on given designs"""
    from smt.sampling_methods import LHS
    d, n, p = int(rng.integers(1, 6)), int(rng.integers(2, 30)), int(rng.choice([1, 2, 5, 10, 15]))
    s = LHS(xlimits=box(rng, d), criterion="ese", random_state=3)
    f = getattr(s, "_PhiP_exchange", None)
    if f is None or not hasattr(s, "_PhiP"):
        raise Inconclusive("no exchange method to call")
    s.random_state = np.random.RandomState(int(rng.integers(1 << 30)))
    X = lhs(rng, n, d)
    sig = "n=%d d=%d p=%d" % (n, d, p)
    fixed = sorted(int(v) for v in rng.choice(n, int(rng.integers(0, max(1, n - 2))), replace=False)) if rng.random() < .5 else []
    for q in range(20):
        B = X.copy()
        P = s._PhiP(X, p=p)
        rec.check("exchange", bool(abs(P - phip(X, p)) <= 1e-9 * P), "criterion", "criterion %r of a design, by definition %r" % (P, phip(X, p)), sig)
        k = int(rng.integers(d))
        r = s._PhiP_exchange(X, k=k, PhiP_=P, p=p, fixed_index=fixed)
        judge_exchange(rec, B, X, P, r, p, sig)
        ch = np.nonzero((B != X).any(1))[0]
        ok = not (set(int(c) for c in ch) & set(fixed)) and set(np.nonzero(B != X)[1]) <= {k}
        rec.check("exchange", bool(ok), "exchange-place", "an exchange moved a fixed point or another variable", sig + " fixed=%d" % len(fixed))


def continued(case, rec, rng):
    """the optimisation of a given design"""
    from smt.sampling_methods import LHS
    d, n, p = int(rng.integers(1, 5)), int(rng.integers(2, 25)), int(rng.choice([5, 10]))
    s = LHS(xlimits=box(rng, d), criterion="ese", random_state=3)
    f = getattr(s, "_maximinESE", None)
    if f is None:
        raise Inconclusive("no optimisation method to call")
    s.random_state = np.random.RandomState(int(rng.integers(1 << 30)))
    X = lhs(rng, n, d)
    fixed = sorted(int(v) for v in rng.choice(n, int(rng.integers(0, max(1, n - 2))), replace=False)) if rng.random() < .5 else []
    X0 = X.copy()
    sig = "given n=%d d=%d p=%d fixed=%d" % (n, d, p, len(fixed))
    hist = bool(rng.random() < .5)
    spied(rec, rng, sig, s)
    with quiet():
        r = f(X, outer_loop=int(rng.integers(1, 5)), inner_loop=int(rng.integers(2, 40)), J=int(rng.integers(1, 20)), p=p, return_hist=hist, fixed_index=fixed)
    if hist:
        r, h = r
        v = np.array(h["PhiP"], float)
        ok = np.all(np.diff(v) <= 1e-12 * v[0]) and abs(v[0] - phip(X0, p)) <= 1e-9 * v[0] and abs(v[-1] - phip(r, p)) <= 1e-5 * v[-1]
        rec.check("history", bool(ok), "history", "reported history of the criterion is not that of the best design", sig)
    rec.check("not_worse", bool(phip(r, p) <= phip(X0, p) * (1 + 1e-6)), "worse:given", "criterion %r after the optimisation, %r before" % (phip(r, p), phip(X0, p)), sig)
    rec.check("latin", bool(np.array_equal(columns(r), columns(X0))), "coordinates:given", "the optimisation changed coordinates instead of exchanging them", sig)
    rec.check("latin", bool(np.array_equal(r[fixed], X0[fixed])), "fixed:given", "the optimisation moved fixed points", sig + " fixed")
    rec.check("latin", bool(np.array_equal(X, X0)), "start:given", "the optimisation changed the design it was given", sig + " start")


def nested(case, rec, rng):
    from smt.applications.mfk import NestedLHS
    L, d = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    n = int(rng.choice([1, 2, 3, 5, 8]))
    if L == 4:
        n = min(n, 4)
    xl = box(rng, d)
    xl0 = xl.copy()
    np.random.seed(int(rng.integers(1 << 30)))
    o = NestedLHS(nlevel=L, xlimits=xl)
    with quiet():
        D = o(n)
    sig = "levels=%d n=%d d=%d" % (L, n, d)
    ok = len(D) == L and all(np.shape(D[i]) == (2 ** (L - 1 - i) * n, d) for i in range(L))
    rec.check("sizes", bool(ok), "sizes:nested", "sizes %s for %d points on the highest of %d levels" % ([np.shape(v) for v in D], n, L), sig)
    if not ok:
        return
    rec.check("limits", bool(all(np.all(v >= xl0[:, 0]) and np.all(v <= xl0[:, 1]) for v in D) and np.array_equal(xl, xl0)), "limits:nested", "points outside the limits", sig)
    S = [set(map(tuple, v)) for v in D]
    rec.check("distinct", all(len(S[i]) == len(D[i]) for i in range(L)), "duplicates:nested", "a design has duplicate points", sig)
    ok = all(S[i] <= S[j] for i in range(L) for j in range(i))
    rec.check("nested", ok, "nested:nested", "a point of a higher level is missing from a lower one", sig)
    U = (D[-1] - xl0[:, 0]) / (xl0[:, 1] - xl0[:, 0])
    i = np.arange(n)[:, None]
    rec.check("latin", bool(np.all(columns(U) >= i / n - 1e-9) and np.all(columns(U) <= (i + 1) / n + 1e-9)), "latin:nested", "the highest level is not a Latin hypercube", sig)
    if rng.random() < .3:
        with quiet():
            E = o(n)
        rec.check("sizes", [np.shape(v) for v in E] == [np.shape(v) for v in D], "repeat:nested", "a second call gives other sizes", sig + " again")
