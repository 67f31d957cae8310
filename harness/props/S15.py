"""S15: acquisition values, virtual outputs and the choice among local searches are compared with their definitions."""
import math
import sys
import warnings
import numpy as np
from scipy.special import ndtr
from core import case_rng, Inconclusive, quiet
from lib import *

MIN = {"ei": 150, "ei_sign": 150, "ei_batch": 60, "ei_zero": 60, "others": 200, "tunneling": 15, "virtual": 60, "virtual_data": 60, "unchanged": 60}
RULE = "distinct (model, criterion, strategy, batch size, kinds of points)"
ASSUMPTIONS = ["means and variances are read from the model (their correctness is the subject of S02, S03 and S26)",
               "the criteria are also evaluated on a stand-in model with chosen means and variances, zero and extreme ones included",
               "the penalisation of the tunneling option has no documented formula: it is bounded, and must not depend on the origin or order of the data",
               "the choice among local searches is watched at scipy's minimize, where failures are injected"]
CASE_LIMIT = 100


def cases(tier, seed):
    rng = np.random.default_rng(seed + 1500)
    n = 1 if tier == "quick" else 14
    out = []
    add = lambda m, k=0, **kw: out.append(dict(m=m, s=int(rng.integers(1 << 30)), k=k, **kw))
    for k in range(24 * n):
        add("criteria", k)
    for k in range(60 * n):
        add("extreme", k)
    for k in range(48 * n):
        add("loop", k, mixed=k % 4 == 3)
    rng.shuffle(out)
    return out


def run_case(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            globals()[case["m"]](case, rec, case_rng(case))


def ei_ref(mean, var, fmin):
    """value and size of what it is the difference of"""
    mean, var = np.ravel(mean), np.ravel(var)
    out, size = np.zeros(len(mean)), np.zeros(len(mean))
    for i, (m, v) in enumerate(zip(mean, var)):
        s, g = math.sqrt(v), fmin - m
        if s == 0:
            out[i] = size[i] = max(g, 0.0)
            continue
        u = g / s
        a, b = g * ndtr(u), s * math.exp(-0.5 * u * u if abs(u) < 1e3 else -1e9) / math.sqrt(2 * math.pi)
        out[i], size[i] = a + b, abs(a) + b
    return out, size


def new_ego(rng, d, lo, hi, **kw):
    from smt.applications.ego import EGO
    return EGO(n_iter=1, xlimits=np.stack([lo, hi], 1), n_doe=5, n_start=2, **kw)


def judge_ei(rec, got, mean, var, fmin, sig, **det):
    want, size = ei_ref(mean, var, fmin)
    got = np.ravel(np.asarray(got, float))
    if got.size != want.size:
        rec.seen("ei")
        rec.violation("ei:shape", "%d values for %d points" % (got.size, want.size), **det)
        return
    rec.check("ei_sign", bool(np.isfinite(got).all() and np.all(got >= 0)), "ei:sign", "the expected improvement is negative or not a number: %r" % got[~(got >= 0)][:3], sig, got=got, mean=mean, var=var, fmin=fmin, **det)
    scale = np.abs(fmin) + np.abs(np.ravel(mean))
    lim = 1e-11 * size + 1e-14 * scale * (size > 0) + 1e-300
    # where both terms cancel, the value is a small difference
    bad = ~(np.abs(got - want) <= lim)
    rec.check("ei", not bad.any(), "ei", "the expected improvement is not that of the closed form", sig, got=got[bad][:3], want=want[bad][:3], mean=np.ravel(mean)[bad][:3], var=np.ravel(var)[bad][:3], fmin=fmin, **det)
    z = np.ravel(var) == 0
    if z.any():
        rec.check("ei_zero", bool(np.array_equal(got[z], want[z])), "ei:zero", "without variance the expected improvement is not the predicted improvement", sig, got=got[z], want=want[z], **det)


class Stub:
    """a model with chosen answers, looked up by the first coordinate"""

    def __init__(self, mean, var):
        self.mean, self.var = mean, var

    def _i(self, x):
        return np.round(np.atleast_2d(np.asarray(x, float))[:, 0]).astype(int)

    def predict_values(self, x):
        return self.mean[self._i(x)].reshape(-1, 1).copy()

    def predict_variances(self, x):
        return self.var[self._i(x)].reshape(-1, 1).copy()


def extreme(case, rec, rng):
    n = int(rng.choice([1, 2, 3, 8, 20]))
    d = int(rng.integers(1, 4))
    scale = 10.0 ** rng.uniform(-6, 6)
    mean = scale * rng.normal(size=n) + float(rng.choice([0, 0, 100])) * scale
    kind = rng.choice(["zero", "tiny", "usual", "huge"], size=n, p=[.3, .2, .4, .1])
    sd = np.array([{"zero": 0.0, "tiny": 10.0 ** rng.uniform(-160, -8), "usual": 10.0 ** rng.uniform(-3, 1), "huge": 10.0 ** rng.uniform(3, 8)}[k] for k in kind]) * scale
    var = sd ** 2
    ny = int(rng.integers(1, 6))
    y = scale * rng.normal(size=(ny, 1)) + (mean.mean() if rng.random() < .7 else 0)
    if rng.random() < .3:
        y[0] = mean[0]                   # the best recorded output is predicted
    if rng.random() < .3:
        y = np.vstack([y, [[mean.min()]]])
    y = y[rng.permutation(len(y))]
    ego = new_ego(rng, d, np.zeros(d), np.full(d, 30.0))
    ego.gpr = Stub(mean, var)
    x = np.hstack([np.arange(n)[:, None] * 1.0, rng.random((n, d - 1))])
    xc, yc = x.copy(), y.copy()
    sig = ("stub", n, d, tuple(sorted(set(kind))))
    det = dict(kinds=list(kind))
    got = ego.EI(x, y)
    judge_ei(rec, got, mean, var, float(y.min()), sig, **det)
    one = np.array([np.ravel(ego.EI(x[i:i + 1], y))[0] for i in range(n)])
    for i in range(n):
        judge_ei(rec, one[i:i + 1], mean[i:i + 1], var[i:i + 1], float(y.min()), sig + ("single",), **det)
    rec.check("ei_batch", np.size(got) == n and bool(np.allclose(np.ravel(got), one, rtol=1e-13, atol=0, equal_nan=True)), "ei:batch", "the expected improvement of a batch is not that of its points", sig, batch=got, single=one, **det)
    rec.check("others", bool(np.array_equal(np.ravel(ego.SBO(x)), mean)), "sbo", "the surrogate criterion is not the predicted mean", sig, **det)
    want = mean - 3.0 * np.sqrt(var)
    rec.check("others", bool(np.allclose(np.ravel(ego.UCB(x)), want, rtol=1e-13, atol=1e-13 * scale)), "ucb", "the confidence bound is not the mean minus three standard deviations", sig, got=ego.UCB(x), want=want, **det)
    rec.check("unchanged", bool(np.array_equal(x, xc) and np.array_equal(y, yc)), "unchanged", "evaluating a criterion changes its arguments", sig, **det)
    # virtual outputs
    for q in ("KB", "KBLB", "KBUB", "KBRand", "CLmin"):
        ego.options["qEI"] = q
        i = int(rng.integers(n))
        v = np.ravel(ego._get_virtual_point(x[i:i + 1], y)) if hasattr(ego, "_get_virtual_point") else None
        if v is not None:
            judge_virtual(rec, q, v, mean[i], var[i], float(y.min()), ("stub", q, kind[i]), **det)


def judge_virtual(rec, q, v, mean, var, ymin, sig, **det):
    sd = math.sqrt(max(float(var), 0))
    tol = 1e-11 * (abs(mean) + 3 * sd) + 1e-300
    if np.size(v) != 1:
        rec.violation("virtual:shape", "%d virtual outputs for a point" % np.size(v), **det)
        return
    v = float(np.ravel(v)[0])
    det = dict(det, got=v, mean=float(mean), sd=sd, minimum=ymin)
    if q == "CLmin":
        rec.check("virtual", v == ymin, "virtual:CLmin", "the virtual output is not the current minimum", sig, **det)
    elif q == "KBRand":
        rec.check("virtual", math.isfinite(v) and abs(v - mean) <= 6.5 * sd + tol, "virtual:KBRand", "the virtual output is not drawn around the prediction", sig, **det)
    else:
        want = mean + {"KB": 0, "KBLB": -3.0, "KBUB": 3.0}[q] * sd
        rec.check("virtual", abs(v - want) <= tol, "virtual:" + q, "the virtual output is %r instead of %r" % (v, want), sig, **det)


def criteria(case, rec, rng):
    """on trained models"""
    m, _ = sm()
    d = int(rng.integers(1, 4))
    n = int(rng.integers(2 * d + 3, 20))
    dat = Data(rng, n, d, 1)
    name = str(rng.choice(["KRG", "KPLS", "KPLSK", "MGP"]))
    if d < 2:
        name = "KRG"
    o = dict(theta0=[float(rng.choice([0.05, 0.5, 3.0]))])
    if name in ("KPLS", "KPLSK", "MGP"):
        o["n_comp"] = 1
    if rng.random() < .5:
        o["nugget"] = float(rng.choice([1e-10, 1e-6]))
    if name == "KRG":
        o["corr"] = str(rng.choice(["squar_exp", "abs_exp", "matern52", "matern32"]))
    s = getattr(m, name)(print_global=False, **o)
    s.set_training_values(dat.x, dat.y)
    np.random.seed(3)
    try:
        with quiet():
            s.train()
    except Exception as e:
        if any(t in str(e) for t in ("ill conditioned", "undetermined", "attempts to train", "positive definite")):
            raise Inconclusive("training refused: %s" % str(e)[:50])
        raise
    lo, hi = dat.x.min(0), dat.x.max(0)
    ego = new_ego(rng, d, lo, hi, surrogate=s)
    ego.gpr = s
    for k in range(4):
        nb = int(rng.choice([1, 2, 5, 12]))
        x = dat.points(rng, nb, 0.05)
        kinds = ["free"] * nb
        for i in range(nb):
            if rng.random() < .35:
                j = int(rng.integers(n))
                x[i] = dat.x[j] + (0 if rng.random() < .6 else 1e-9 * (hi - lo))
                kinds[i] = "trained"
        y = dat.y if rng.random() < .6 else dat.y[rng.random(n) < .5][:5]
        if len(y) == 0:
            y = dat.y
        with quiet():
            mean, var = s.predict_values(x), s.predict_variances(x)
            got = ego.EI(x.copy(), y.copy())
        sig = (name, d, nb, tuple(sorted(set(kinds))), o.get("corr"))
        if not (np.isfinite(var).all() and np.all(var >= 0)):
            raise Inconclusive("variances of the model are not valid")
        # the model may round differently for other batches
        with quiet():
            one = [(s.predict_values(x[i:i + 1]), s.predict_variances(x[i:i + 1])) for i in range(nb)]
        judge_ei(rec, got, mean, var, float(y.min()), sig, options=o)
        with quiet():
            single = np.array([np.ravel(ego.EI(x[i:i + 1].copy(), y))[0] for i in range(nb)])
            wsingle = np.array([ei_ref(a, b, float(y.min()))[0][0] for a, b in one])
            ssize = np.array([ei_ref(a, b, float(y.min()))[1][0] for a, b in one])
        rec.check("ei_batch", bool(np.all(np.abs(single - wsingle) <= 1e-11 * ssize + 1e-300)), "ei:single", "the expected improvement of a point is not that of the closed form", sig, got=single, want=wsingle, options=o)
        with quiet():
            a, b = np.ravel(ego.SBO(x.copy())), np.ravel(ego.UCB(x.copy()))
        rec.check("others", bool(np.array_equal(a, np.ravel(mean))), "sbo", "the surrogate criterion is not the predicted mean", sig, options=o)
        rec.check("others", bool(np.allclose(b, np.ravel(mean - 3 * np.sqrt(var)), rtol=1e-12, atol=1e-12 * np.ptp(dat.y))), "ucb", "the confidence bound is not the mean minus three standard deviations", sig, options=o)
        if k == 0 and rng.random() < .9:
            with quiet():
                xd = dat.x.copy()
                t = np.ravel(ego.EI(x.copy(), y.copy(), enable_tunneling=True, x_data=xd))
            want = np.ravel(got)
            rec.check("tunneling", t.shape == want.shape and bool(np.isfinite(t).all() and np.all(t >= 0) and np.all(t <= want * (1 + 1e-9) + 1e-300)), "tunneling", "the penalised expected improvement is not between zero and the unpenalised one", sig, got=t, plain=want, options=o)
            rec.check("unchanged", bool(np.array_equal(xd, dat.x)), "unchanged", "evaluating a criterion changes its arguments", sig)
            tunnel_relations(rec, rng, ego, d)
            ego.gpr = s


class Bowl:
    """a model given by formulas, around any origin"""

    def __init__(self, c, w, origin=0.0):
        self.c, self.w, self.origin = c, w, origin

    def predict_values(self, x):
        z = np.atleast_2d(x) - self.origin
        return (np.sin(z @ self.w) + np.sum((z - self.c) ** 2, axis=1))[:, None]

    def predict_variances(self, x):
        z = np.atleast_2d(x) - self.origin
        return (0.3 + np.cos(z @ self.w) ** 2)[:, None]


def tunnel_relations(rec, rng, ego, d):
    """the penalty is a matter of the distances between points: not of the origin or the order of the data, and more data never reward"""
    c, w = rng.uniform(-1, 1, d), rng.normal(size=d)
    data, x = rng.uniform(-1, 1, (4, d)), rng.uniform(-2, 2, (8, d))
    best = np.array([[rng.uniform(0, 2)]])

    def ei(origin, rows):
        ego.gpr = Bowl(c, w, origin)
        with quiet():
            return np.ravel(ego.EI(x + origin, best.copy(), enable_tunneling=True, x_data=data[rows] + origin))
    sig = "stand-in model in %d dimensions" % d
    base = ei(0.0, range(4))
    ego.gpr = Bowl(c, w)
    with quiet():
        plain = np.ravel(ego.EI(x, best.copy()))
    tol = 1e-7 * (np.max(plain) + 1e-12)
    away = ei(rng.choice([-1, 1], d) * 4.0, range(4))
    rec.check("tunneling", bool(np.allclose(away, base, rtol=1e-7, atol=tol)), "tunneling:origin", "the penalised expected improvement changes when model and points are moved together", sig, got=away, want=base)
    turned = ei(0.0, [3, 1, 0, 2])
    rec.check("tunneling", bool(np.allclose(turned, base, rtol=1e-7, atol=tol)), "tunneling:order", "the penalised expected improvement depends on the order of the data", sig)
    fewer = ei(0.0, [0, 2])
    rec.check("tunneling", bool(np.all(base <= fewer + tol)), "tunneling:fewer", "more evaluated points reward a candidate", sig)
    # next to an evaluated point of lower improvement nothing is left; far away nothing is taken
    ego.gpr = Bowl(c, w)
    with quiet():
        far = data + 1e3
        e0 = np.ravel(ego.EI(far, best.copy()))
        e1 = np.ravel(ego.EI(far, best.copy(), enable_tunneling=True, x_data=data))
        near = data[:1] + 1e-2 * np.sign(rng.normal(size=d))
        n0 = np.ravel(ego.EI(near, best.copy()))[0]
        n1 = np.ravel(ego.EI(near, best.copy(), enable_tunneling=True, x_data=data))[0]
        at = np.ravel(ego.EI(data[:1], best.copy()))[0]
    rec.check("tunneling", bool(np.allclose(e0, e1, rtol=1e-6, atol=1e-9)), "tunneling:far", "a candidate far from all evaluated points is penalised", sig)
    if n0 > at * 1.001 + 1e-9:
        rec.check("tunneling", n1 < n0, "tunneling:near", "a candidate next to an evaluated point with less improvement is not penalised", sig, plain=n0, penalised=n1)


def loop(case, rec, rng):
    """virtual points and choices during an optimisation"""
    m, _ = sm()
    import scipy.optimize
    import smt.applications.ego as mod
    from smt.applications.mixed_integer import FLOAT, INT, ENUM
    from smt.applications.ego import EGO
    crit = str(rng.choice(["EI", "SBO", "UCB"]))
    qei = ("KB", "KBLB", "KBUB", "KBRand", "CLmin")[case["k"] % 5]
    par = int(rng.choice([2, 3, 4]))
    mixed = case["mixed"]
    types = [FLOAT, INT] if rng.random() < .5 else [(ENUM, 2), FLOAT]
    if mixed:
        lim = np.array([[0.0, 2.0], [-3, 3]]) if types[1] == INT else np.array([["a", "b"], [0.0, 2.0]], dtype=object)
        d = 2
    else:
        d = int(rng.integers(1, 3))
        lo = rng.uniform(-3, 3, d)
        lim = np.stack([lo, lo + rng.uniform(1, 4, d)], 1)
    w, c = rng.normal(size=d), rng.uniform(-1, 1, d)

    def f(x):
        x = np.atleast_2d(np.asarray(x, float))
        return (np.sin(2 * x @ w) + 0.3 * ((x - c) ** 2).sum(1)).reshape(-1, 1) * 3 + 10
    frng = np.random.default_rng(case["s"] + 5)
    fail = float(frng.choice([0, .3, .6]))
    rounds = [[]]                    # searches since the last training
    det = dict(criterion=crit, strategy=qei, parallel=par, mixed=mixed, types=str(types) if mixed else "")
    sig = (crit, qei, par, mixed, str(types) if mixed else d, fail)
    tr = []                          # successive training data
    inside = [False]

    class Recorder(m.KRG):
        def set_training_values(self, xt, yt, name=None):
            x, y = np.array(xt, float), np.array(yt, float).reshape(-1)
            if tr and len(x) == len(tr[-1][0]) + 1:
                xn = x[-1:]
                pv, pvar = (np.ravel(q(xn.copy()))[0] for q in (self.predict_values, self.predict_variances))
                tr.append((x, y, pv, pvar, rounds[0]))
            else:
                tr.append((x, y, None, None, rounds[0]))
            rounds[0] = []
            return super().set_training_values(xt, yt, name)
    surr = Recorder(print_global=False, theta0=[0.5], nugget=1e-8)
    real = scipy.optimize.minimize

    def minimize(fun, x0, *args, **kwargs):
        if not sys._getframe(1).f_code.co_filename.endswith("ego.py"):
            return real(fun, x0, *args, **kwargs)
        u = frng.random()
        if u < fail / 3:
            raise ValueError("`x0` violates bound constraints.")
        r = real(fun, x0, *args, **kwargs)
        if u < fail:
            r["success"] = False
            r["fun"] = -1e30
        # the objective, away from the path of the search
        probe = np.asarray(x0, float) * 0.7 + np.asarray(r["x"], float) * 0.3
        rounds[0].append((bool(r["success"]), float(np.ravel(r["fun"])[0]), np.array(r["x"], float), probe, float(fun(probe))))
        return r
    asked = []

    class Ev(mod.Evaluator):
        def run(self, fun, x):
            asked.append(np.array(x, float))
            return fun(x)
    kw = dict(xtypes=types) if mixed else {}
    start = int(rng.integers(2, 4))
    ego = EGO(n_iter=2, criterion=crit, xlimits=lim, n_doe=6, n_parallel=par, qEI=qei, surrogate=surr, random_state=int(rng.integers(100)), n_start=start, evaluator=Ev(), **kw)
    old = mod.__dict__.get("minimize")
    np.random.seed(4)
    try:
        scipy.optimize.minimize = minimize
        if old is not None:
            mod.minimize = minimize
        with quiet():
            ego.optimize(fun=f)
    except Exception as e:
        if any(t in str(e) for t in ("ill conditioned", "undetermined", "attempts to train", "positive definite")):
            raise Inconclusive("training refused: %s" % str(e)[:50])
        raise
    finally:
        scipy.optimize.minimize = real
        if old is not None:
            mod.minimize = old
    # virtual outputs and the data of each inner step
    for k in range(1, len(tr)):
        x, y, pv, pvar, searches = tr[k]
        px, py = tr[k - 1][:2]
        if pv is None:
            continue
        if k % par:         # within an iteration: one virtual point was added
            rec.check("virtual_data", bool(np.array_equal(x[:-1], px) and np.array_equal(y[:-1], py)), "virtual_data", "adding a virtual point changes the other points", sig, **det)
            judge_virtual(rec, qei, y[-1:], pv, pvar, float(py.min()), sig, **det)
        # the point chosen is the best of the successful searches
        good = [s_ for s_ in searches if s_[0]]
        if good:
            best = min(s_[1] for s_ in good)
            eq = [s_ for s_ in good if s_[1] == best]
            new = x[-1]
            if mixed:
                cast = lambda v: ego.mixint.cast_to_discrete_values(np.atleast_2d(v))[0]
                hit = any(np.array_equal(cast(s_[2]), new) for s_ in eq)
            else:
                hit = any(np.array_equal(s_[2], new) for s_ in eq)
            rec.check("choice", hit, "choice", "the chosen point is not the best of the successful local searches", sig, chosen=new, searches=[(s_[0], s_[1], s_[2].tolist()) for s_ in searches], **det)
    # the searched objective is the criterion: compared on a model trained with the same data, in the last step
    x, y = tr[-1][:2]
    g = getattr(ego, "gpr", surr)
    with quiet():
        for ok, fun, xr, probe, val in rounds[0]:
            p = np.atleast_2d(probe)
            mean, var = g.predict_values(p), g.predict_variances(p)
            want, size = ei_ref(mean, var, float(y.min()))
            want = {"EI": -want[0], "SBO": float(np.ravel(mean)[0]), "UCB": float(np.ravel(mean - 3 * np.sqrt(var))[0])}[crit]
            rec.check("objective", abs(val - want) <= 1e-10 * (abs(want) + size[0]) + 1e-300, "objective", "the local searches minimise %r where the criterion is %r" % (val, want), sig, **det)
