"""S11: sampling methods: number of points, limits, strata, factorial structure, seeds."""
import random
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"shape": 200, "limits": 200, "strata": 120, "levels": 50, "seed": 60, "state_kept": 150, "options_kept": 200}
RULE = "distinct (method, criterion or weights, number of points, variables, kind of seed, kind of limits)"
ASSUMPTIONS = ["level counts of a full factorial follow the greedy allocation of its documentation; ties between variables may go either way"]
CRIT = ["center", "maximin", "centermaximin", "correlation", "c", "m", "cm", "corr", "ese"]
CASE_LIMIT = 60
HANGS = True


def cases(tier, seed):
    rng = np.random.default_rng(seed + 1100)
    out = []
    for r in range(3 if tier == "quick" else 40):
        for c in CRIT:
            for k in range(6):
                out.append(dict(m="latin", c=c, k=k, s=int(rng.integers(1 << 30))))
        for k in range(20):
            out.append(dict(m="factorial", s=int(rng.integers(1 << 30))))
        for k in range(8):
            out.append(dict(m="uniform", s=int(rng.integers(1 << 30))))
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


def limits(rng, d):
    kind = str(rng.choice(["unit", "mixed", "decimal", "integer", "huge"]))
    if kind == "unit":
        x = np.array([[0.0, 1.0]] * d)
    elif kind == "mixed":
        lo = rng.normal(size=d) * 10.0 ** rng.integers(-3, 4, d)
        x = np.stack([lo, lo + rng.uniform(.1, 5, d) * 10.0 ** rng.integers(-2, 3, d)], 1)
    elif kind == "decimal":
        lo = rng.integers(-9, 5, d) / 10
        x = np.stack([lo, lo + rng.integers(1, 9, d) / 10], 1)
    elif kind == "integer":
        lo = rng.integers(-9, 5, d)
        x = np.stack([lo, lo + rng.integers(1, 9, d)], 1)
    else:
        x = np.stack([-10.0 ** rng.uniform(3, 9, d), 10.0 ** rng.uniform(3, 9, d)], 1)
    return kind, x


def common(rec, X, n, xl, key, sig):
    ok = isinstance(X, np.ndarray) and X.shape == (n, len(xl)) and X.dtype == np.float64
    rec.check("shape", bool(ok), "shape:" + key, "design of shape %s and type %s for %d points in %d variables" % (np.shape(X), getattr(X, "dtype", None), n, len(xl)), sig)
    if not ok:
        return False
    ok = np.all(np.isfinite(X)) and np.all(X >= xl[:, 0]) and np.all(X <= xl[:, 1])
    rec.check("limits", bool(ok), "limits:" + key, "points outside the limits by up to %.2e" % max((xl[:, 0] - X).max(), (X - xl[:, 1]).max()), sig)
    return bool(ok)


class Watch:
    """global random state before and after"""

    def __init__(self, seed=None):
        if seed is not None:
            np.random.seed(seed)
            random.seed(seed)
        self.a = np.random.get_state()
        self.b = random.getstate()

    def kept(self):
        s = np.random.get_state()
        return s[0] == self.a[0] and np.array_equal(s[1], self.a[1]) and s[2:] == self.a[2:] and random.getstate() == self.b


def latin(case, rec, rng):
    from smt.sampling_methods import LHS
    c, k = case["c"], case["k"]
    d = int(rng.integers(1, 7))
    n = [1, 2, int(rng.integers(3, 8)), int(rng.integers(8, 40)), int(rng.integers(2, 60)), 3][k]
    if c == "ese":
        d, n = min(d, 4), min(n, 25)
    kind, xl = limits(rng, d)
    how = str(rng.choice(["int", "int", "RandomState", "none"]))
    seed = int(rng.choice([0, 1, 42, int(rng.integers(1 << 31))]))
    xl0 = xl.copy()

    def build():
        o = dict(xlimits=xl, criterion=c)
        if how == "int":
            o["random_state"] = seed
        elif how == "RandomState":
            o["random_state"] = np.random.RandomState(seed)
        elif rng.random() < .5:
            o["random_state"] = None
        if c == "c" and rng.random() < .5:
            o.pop("criterion")
        return LHS(**o)
    sig = "%s n=%d d=%d %s %s" % (c, n, d, how, kind)
    s = build()
    w = Watch(int(rng.integers(1000)))
    with quiet():
        X = s(n)
    rec.check("state_kept", w.kept(), "disturbs:" + c, "sampling changed the global random state", sig)
    if not common(rec, X, n, xl0, "LHS:" + c, sig):
        return
    U = (X - xl0[:, 0]) / (xl0[:, 1] - xl0[:, 0])
    S = np.sort(U, axis=0)
    i = np.arange(n)[:, None]
    e = 1e-9 + 1e-14 * (np.abs(xl0).max(1) / (xl0[:, 1] - xl0[:, 0]))
    ok = np.all(S >= i / n - e) and np.all(S <= (i + 1) / n + e)
    rec.check("strata", bool(ok), "strata:" + c, "not one point in each of the %d strata of every variable" % n, sig)
    if c in ("center", "c", "centermaximin", "cm"):
        rec.check("strata", bool(np.abs(S - (i + .5) / n).max() <= e.max()), "centers:" + c, "points are not at the centres of the strata", sig + " centers")
    if how != "none":
        w = Watch(int(rng.integers(1000)) + 5000)
        t = build()
        with quiet():
            Y = t(n)
            Z = s(n) if how == "int" else Y
        rec.check("seed", bool(np.array_equal(X, Y)), "seed:" + c, "the same seed gives another design", sig)
        rec.check("seed", bool(np.array_equal(X, Z)), "seed-again:" + c, "a second call with the same seed gives another design", sig + " again")
        if n >= 8 and d >= 2:
            o = LHS(xlimits=xl, criterion=c, random_state=(seed + 1) % (1 << 31))
            with quiet():
                O = o(n)
            rec.check("seed", bool(not np.array_equal(X, O)), "seed-ignored:" + c, "another seed gives the same design", sig + " other")
        # another object must not be influenced by, or influence, this one
        other = LHS(xlimits=xl, criterion="c", random_state=seed + 7 if seed < 2 ** 31 - 10 else 3)
        with quiet():
            other(n)
            Z = build()(n)
        rec.check("seed", bool(np.array_equal(X, Z)), "seed-other-object:" + c, "sampling from another object changes the design of a seed", sig + " object")
    elif n >= 8 and d >= 2:
        np.random.seed(1)
        with quiet():
            A = build()(n)
            np.random.seed(1)
            B = build()(n)
        rec.check("seed", bool(not np.array_equal(A, B)), "unseeded:" + c, "unseeded designs repeat", sig + " unseeded")
    ok = np.array_equal(xl, xl0) and np.array_equal(s.options["xlimits"], xl0) and s.options["criterion"] == c
    rec.check("options_kept", bool(ok), "options:" + c, "sampling changed its options or the limits given", sig)


def allocations(w, n, cap=4000):
    """level counts reachable by the greedy allocation, whichever way ties go"""
    front = {tuple([1] * len(w))}
    done = set()
    while front:
        nxt = set()
        for t in front:
            a = np.array(t)
            if a.prod() >= n:
                done.add(t)
                continue
            g = w - a / a.sum()
            for k in np.flatnonzero(g >= g.max() - 1e-9):
                b = a.copy()
                b[k] += 1
                nxt.add(tuple(int(v) for v in b))
        front = nxt
        if len(front) > cap:
            raise Inconclusive("too many ties")
    return done


def factorial(case, rec, rng):
    from smt.sampling_methods import FullFactorial
    d = int(rng.integers(1, 6))
    n = int(rng.choice([1, 2, 3, 5, 10, 16, 27, 50, 100, int(rng.integers(1, 300))]))
    kind, xl = limits(rng, d)
    wk = str(rng.choice(["none", "list", "ints", "array", "skewed"]))
    o = dict(xlimits=xl)
    w = np.ones(d) / d
    if wk != "none":
        w = {"list": rng.uniform(.1, 1, d), "ints": rng.integers(1, 6, d), "array": rng.uniform(.01, 50, d), "skewed": 10.0 ** rng.uniform(-3, 0, d)}[wk]
        o["weights"] = w.copy() if wk in ("array", "skewed") else [v.item() for v in w]
        w = w / w.sum()
    clip = bool(rng.random() < .5)
    if clip or rng.random() < .5:
        o["clip"] = clip
    kept = np.array(o.get("weights", [0.0]), float).copy()
    xl0 = xl.copy()
    s = FullFactorial(**o)
    wt = Watch()
    with quiet():
        X = s(n)
        Y = s(n)
    sig = "full n=%d d=%d %s clip=%s %s" % (n, d, wk, clip, kind)
    rec.check("state_kept", wt.kept(), "disturbs:full", "sampling changed the global random state", sig)
    rec.check("seed", bool(np.array_equal(X, Y)), "repeat:full", "a second call gives another design", sig)
    alloc = allocations(w, n)
    ok = False
    m = n
    if clip:
        m = len(X)
        rec.check("levels", bool(m >= n), "too-few:full", "%d points for %d requested" % (m, n), sig)
    if not common(rec, X, m, xl0, "full", sig):
        return
    U = (X - xl0[:, 0]) / (xl0[:, 1] - xl0[:, 0])
    tol = 1e-9 + 1e-13 * (np.abs(xl0).max(1) / (xl0[:, 1] - xl0[:, 0])).max()
    for a in alloc:
        if clip and int(np.prod(a)) != m:
            continue
        idx = U * (np.array(a) - 1)
        r = np.round(idx)
        if np.abs(idx - r).max() <= tol * max(a) and len(np.unique(r, axis=0)) == m:
            ok = True
            break
    rec.check("levels", ok, "grid:full", "design is not a (part of a) product of evenly spaced levels in any of the counts implied by the weights: %s" % sorted(alloc)[:3], sig)
    ok = np.array_equal(xl, xl0) and (wk == "none" or np.array_equal(np.array(o["weights"], float), kept) and np.array_equal(np.array(s.options["weights"], float), kept))
    rec.check("options_kept", bool(ok), "options:full", "sampling changed its weights or limits", sig)


def uniform(case, rec, rng):
    from smt.sampling_methods import Random
    d, n = int(rng.integers(1, 8)), int(rng.choice([1, 2, 10, 500]))
    kind, xl = limits(rng, d)
    xl0 = xl.copy()
    s = Random(xlimits=xl)
    sd = int(rng.integers(1 << 30))
    np.random.seed(sd)
    with quiet():
        X = s(n)
        Z = s(n)
    np.random.seed(sd)
    with quiet():
        Y = Random(xlimits=xl)(n)
    sig = "random n=%d d=%d %s" % (n, d, kind)
    if not common(rec, X, n, xl0, "random", sig):
        return
    rec.check("seed", bool(np.array_equal(X, Y)), "seed:random", "the same state of the generator gives another design", sig)
    rec.check("seed", bool(not np.array_equal(X, Z)), "repeats:random", "successive designs are equal", sig + " next")
    rec.check("options_kept", bool(np.array_equal(xl, xl0)), "options:random", "sampling changed the limits given", sig)
    if n == 500:
        U = (X - xl0[:, 0]) / (xl0[:, 1] - xl0[:, 0])
        # each half of each variable must get its share (a seven-sigma band)
        h = (U < .5).mean(0)
        rec.check("strata", bool(np.abs(h - .5).max() < 7 * .5 / np.sqrt(n)), "spread:random", "points do not spread over the limits: %s in the lower halves" % h, sig)
