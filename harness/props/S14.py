"""S14: the evaluator and the objective record every request of an optimisation; the record returned is compared with theirs."""
import math
import sys
import warnings
import numpy as np
from core import case_rng, Inconclusive, quiet
from lib import *

MIN = {"initial": 70, "count": 60, "limits": 70, "truth": 70, "once": 200, "optimum": 200, "valid": 60, "training": 60, "failure": 8, "again": 5, "caller": 70}
RULE = "distinct (criterion, strategy, points per iteration, variable types, surrogate, initial design, injected failures)"
ASSUMPTIONS = ["failures of the inner optimisation are injected by replacing scipy's minimize: unsuccessful results, results without a solution, ValueError",
               "a failing search shortens its iteration, so that fewer points than requested may be added only when a search failed",
               "the record of mixed variables is compared after folding; integer variables have integer limits"]
CASE_LIMIT = 100


def cases(tier, seed):
    rng = np.random.default_rng(seed + 1400)
    n = 1 if tier == "quick" else 14
    out = []
    add = lambda m, k=0, **kw: out.append(dict(m=m, s=int(rng.integers(1 << 30)), k=k, **kw))
    for k in range(80 * n):
        add("run", k, mixed=bool(k % 2), fail=k % 6 == 5)
    rng.shuffle(out)
    return out


def run_case(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            run(case, rec, case_rng(case))


class Objective:
    """counts and records its evaluations; values are irregular enough to tell any two points apart"""

    def __init__(self, rng, d, mixed, shift):
        self.w = rng.normal(size=d)
        self.c = rng.uniform(-1, 1, d)
        self.mixed, self.shift = mixed, shift
        self.calls = []

    def value(self, x):
        z = (x - self.lo) / self.span
        # column by column: the value of a point must not depend on the others asked with it
        q = np.zeros(len(z))
        t = np.zeros(len(z))
        for j in range(len(self.w)):
            q += (z[:, j] - self.c[j]) ** 2
            t += z[:, j] * self.w[j]
        return np.array([a + math.sin(3 * b) + 0.05 * math.sin(37 * b + 1) for a, b in zip(q, t)]) + self.shift

    def __call__(self, x):
        x = np.array(x, float)
        if x.ndim != 2:
            x = np.atleast_2d(x)
        y = self.value(x) if x.shape[1] == len(self.w) else np.zeros(len(x))
        self.calls.append((x, y.copy()))
        return y.reshape(-1, 1)


def make_types(rng):
    from smt.applications.mixed_integer import FLOAT, INT, ENUM
    types, limits = [], []          # few columns: the sampling of the starting points is slow
    for _ in range(int(rng.integers(1, 4))):
        t = rng.choice(["float", "int", "enum"], p=[.3, .35, .35])
        if t == "float":
            types.append(FLOAT)
            lo = float(rng.uniform(-4, 0))
            limits.append([lo, lo + float(rng.uniform(1, 6))])
        elif t == "int":
            types.append(INT)
            lo = int(rng.integers(-4, 2))
            limits.append([lo, lo + int(rng.integers(2, 9))])
        else:
            k = int(rng.integers(2, 4))
            if sum(t[1] if isinstance(t, tuple) else 1 for t in types) + k > 4:
                continue
            types.append((ENUM, k))
            limits.append(["v%d" % i for i in range(k)])
    if not any(t == FLOAT or t == INT for t in types):
        types.append(FLOAT)
        limits.append([0.0, 3.0])
    return types, limits


def run(case, rec, rng):
    m, a = sm()
    import scipy.optimize
    import smt.applications.ego as mod
    from smt.applications.mixed_integer import FLOAT, INT, ENUM
    from smt.applications.ego import EGO, Evaluator
    crit = str(rng.choice(["EI", "SBO", "UCB"]))
    qei = str(rng.choice(["KB", "KBLB", "KBUB", "KBRand", "CLmin"]))
    par = int(rng.choice([1, 1, 2, 3, 4]))
    n_iter = int(rng.choice([0, 1, 2, 3], p=[.05, .3, .35, .3]))
    mixed = case["mixed"]
    if mixed:
        types, limits = make_types(rng)
        xlim = np.array(limits, dtype=object) if len({len(l) for l in limits}) > 1 or any(isinstance(v, str) for l in limits for v in l) else np.array(limits, float)
        if xlim.ndim != 1 and len({len(l) for l in limits}) > 1:
            xlim = np.empty(len(limits), object)
            xlim[:] = limits
        d = len(types)
        lo = np.array([l[0] if not isinstance(t, tuple) else 0 for t, l in zip(types, limits)], float)
        hi = np.array([l[1] if not isinstance(t, tuple) else t[1] - 1 for t, l in zip(types, limits)], float)
    else:
        d = int(rng.integers(1, 4)) if rng.random() < .9 else int(rng.choice([5, 6]))
        lo = rng.uniform(-5, 5, d)
        hi = lo + rng.uniform(0.5, 6, d)
        xlim = np.stack([lo, hi], 1)
        types = [FLOAT] * d
    f = Objective(rng, d, mixed, float(rng.choice([0, 0, -50, 100])))
    f.lo, f.span = lo, np.where(hi > lo, hi - lo, 1)

    def admissible(x):
        ok = np.all(x >= lo - 1e-12 * f.span, 1) & np.all(x <= hi + 1e-12 * f.span, 1)
        return ok

    def valid(x):
        return np.array([all((t == FLOAT) or float(v) == round(float(v)) for t, v in zip(types, row)) for row in x])
    n0 = int(rng.integers(max(3, d + 1), max(8, d + 3)))
    kw = {}
    given = str(rng.choice(["none", "x", "xy"]))
    X0 = Y0 = None
    if given == "none":
        kw["n_doe"] = n0
    else:
        U = rng.random((n0, d))
        X0 = lo + U * (hi - lo)
        for j, t in enumerate(types):
            if t != FLOAT:
                X0[:, j] = np.round(X0[:, j])
        X0 = X0[np.sort(np.unique(X0, axis=0, return_index=True)[1])]
        if len(X0) < 3:
            raise Inconclusive("initial design too small")
        if rng.random() < .1 and mixed and all(t != FLOAT for t in types):
            X0 = X0.astype(int)
        kw["xdoe"] = X0
        if given == "xy":
            Y0 = f.value(np.asarray(X0, float)).reshape(-1, 1)
            kw["ydoe"] = Y0
    sname = str(rng.choice(["KRG", "KRG", "KPLS", "KPLSK"]))
    dim = sum(t[1] if isinstance(t, tuple) else 1 for t in types)
    if sname != "KRG" and (dim < 2 or mixed):
        sname = "KRG"
    theta = dict(theta0=[float(rng.choice([0.05, 0.5]))], nugget=1e-8)
    if sname == "KRG" and rng.random() < .3:
        theta["corr"] = "matern52"
    seen = []                       # what the surrogate is trained with

    class Recorder(getattr(m, sname)):
        def set_training_values(self, xt, yt, name=None):
            seen.append((np.array(xt, float), np.array(yt, float).reshape(-1)))
            return super().set_training_values(xt, yt, name)
    surr = Recorder(print_global=False, **theta)
    asked = []

    class Ev(Evaluator):
        def run(self, fun, x):
            xc = np.array(x, float)
            y = fun(x)
            asked.append((xc, np.array(y, float).reshape(-1)))
            return y
    # failures of the inner optimisation
    mode = None
    if case["fail"]:
        mode = str(rng.choice(["result", "raise", "late", "all", "some"]))
    rate = {"result": .5, "raise": .5, "late": .6, "all": 1.0, "some": .8, None: 0.0}[mode]
    frng = np.random.default_rng(case["s"] + 1)
    real = scipy.optimize.minimize
    stats = dict(bad=0, good=0)
    max_optim = int(rng.choice([1, 2, 3])) if mode else 20
    start = int(rng.integers(2, 4))
    after = int(rng.integers(0, 12)) if mode == "late" else 0
    burst = [1.0 if mode == "all" else rate]
    counter = [0]

    def minimize(*args, **kwargs):
        if not sys._getframe(1).f_code.co_filename.endswith("ego.py"):      # hyperparameters
            return real(*args, **kwargs)
        counter[0] += 1
        # whole rounds fail together, so that the searches for a point can fail
        if mode and counter[0] % start == 1 % start and mode != "all":
            burst[0] = float(frng.choice([1.0, 1.0, rate, 0.0]))
        if mode and counter[0] > after and frng.random() < burst[0]:
            stats["bad"] += 1
            if mode == "raise" or (mode == "some" and frng.random() < .5):
                raise ValueError("`x0` violates bound constraints.")
            r = real(*args, **kwargs)
            r["success"] = False
            r["fun"] = -1e30                # a failed search must not be chosen
            return r
        stats["good"] += 1
        return real(*args, **kwargs)
    if mixed:
        kw["xtypes"] = list(types)
    rs = int(rng.integers(1000))
    kw.update(n_iter=n_iter, criterion=crit, xlimits=xlim, n_parallel=par, qEI=qei, evaluator=Ev(), surrogate=surr, random_state=rs, n_start=start, n_max_optim=max_optim)
    if rng.random() < .15 and crit == "EI":
        kw["enable_tunneling"] = True
    det = dict(options={k: v for k, v in kw.items() if k not in ("evaluator", "surrogate", "xdoe", "ydoe")}, types=str(types), given=given, mode=mode, sname=sname)
    x0c = None if X0 is None else X0.copy()
    y0c = None if Y0 is None else Y0.copy()
    ego = EGO(**kw)
    sig = (crit, qei if par > 1 else "", par, "".join("e" if isinstance(t, tuple) else str(t)[0] for t in types), sname, given, mode)

    def once():
        seen.clear()
        asked.clear()
        f.calls.clear()
        stats.update(bad=0, good=0)
        np.random.seed(rs)
        old = mod.__dict__.get("minimize")
        try:
            if mode:
                scipy.optimize.minimize = minimize
                if old is not None:
                    mod.minimize = minimize
            with quiet():
                r = ego.optimize(fun=f)
        except Exception as e:
            if any(t in str(e) for t in ("ill conditioned", "undetermined", "attempts to train", "positive definite")):
                raise Inconclusive("training refused: %s" % str(e)[:50])
            raise
        finally:
            scipy.optimize.minimize = real
            if old is not None:
                mod.minimize = old
        judge(r)

    def fold(x):
        x = np.atleast_2d(np.asarray(x, float))
        if not mixed:
            return x
        if x.shape[1] == dim and dim != d or any(isinstance(t, tuple) for t in types):
            out = np.zeros((len(x), d))
            j = 0
            for i, t in enumerate(types):
                if isinstance(t, tuple):
                    out[:, i] = np.argmax(x[:, j:j + t[1]], 1)
                    j += t[1]
                else:
                    out[:, i] = x[:, j]
                    j += 1
            return out
        return x

    def judge(r):
        x_opt, y_opt, ind, X, Y = r[:5]
        X, Y = np.asarray(X, float), np.asarray(Y, float)
        if X.ndim != 2 or Y.size != len(X) or X.shape[1] != dim:
            rec.seen("count")
            rec.violation("shape", "the record has shapes %r and %r" % (X.shape, Y.shape), **det)
            return
        Y = Y.reshape(-1)
        XF = fold(X)
        if mixed and any(isinstance(t, tuple) for t in types):
            j, onehot = 0, True
            for t in types:
                if isinstance(t, tuple):
                    blk = X[:, j:j + t[1]]
                    onehot &= bool(np.all((blk == 0) | (blk == 1)) and np.all(blk.sum(1) == 1))
                    j += t[1]
                else:
                    j += 1
            rec.check("valid", onehot, "valid:mask", "the record contains values that are not category masks", sig, record=X, **det)
        n_init = n0 if X0 is None else len(X0)
        # the initial design
        if X0 is not None:
            rec.check("initial", len(XF) >= n_init and bool(np.array_equal(XF[:n_init], np.asarray(x0c, float))), "initial", "the record does not begin with the initial design", sig, got=XF[:n_init], want=x0c, **det)
        else:
            rec.check("initial", len(asked) > 0 and len(asked[0][0]) == n_init and bool(np.array_equal(XF[:n_init], asked[0][0])), "initial:sampled", "the record does not begin with the sampled design that was evaluated", sig, got=XF[:n_init], want=asked[0][0] if asked else None, **det)
        rec.check("caller", (X0 is None or np.array_equal(X0, x0c)) and (Y0 is None or np.array_equal(Y0, y0c)), "caller", "the initial design of the caller was changed", sig, **det)
        # number of points
        want = n_init + n_iter * par
        if stats["bad"] == 0:
            rec.check("count", len(X) == want, "count", "%d points were recorded instead of %d" % (len(X), want), sig, **det)
        else:
            rec.check("failure", n_init <= len(X) <= want, "count:failure", "%d points were recorded, %d were requested" % (len(X), want), sig, **det)
            if mode == "all":
                rec.check("failure", len(X) == n_init, "count:all", "points were added although every search failed", sig, **det)
            if max_optim == 1 and stats["bad"] < start:
                rec.check("failure", len(X) == want, "count:last", "a search with successful starts was taken for a failure", sig, recorded=len(X), wanted=want, stats=dict(stats), **det)
        ok = admissible(XF)
        rec.check("limits", bool(np.all(ok[n_init:])) and (X0 is not None or bool(np.all(ok))), "limits", "recorded points lie outside the limits: %r" % XF[~ok][:2].tolist(), sig, **det)
        rec.check("valid" if mixed else "limits", bool(np.all(valid(XF))), "valid", "recorded points have values that are not integers", sig, record=XF, **det)
        # requests
        ax = np.vstack([c[0].reshape(-1, d) if c[0].shape[-1] == d else np.full((len(c[0]), d), np.nan) for c in asked]) if asked else np.zeros((0, d))
        ay = np.concatenate([c[1] for c in asked]) if asked else np.zeros(0)
        bad = [c[0].shape for c in asked if c[0].ndim != 2 or c[0].shape[1] != d]
        rec.check("once", not bad, "once:shape", "the evaluator was asked for points with shape %r" % bad[:1], sig, **det)
        if bad:
            return
        want_x = XF if given != "xy" else XF[n_init:]
        rec.check("once", bool(np.array_equal(ax, want_x)), "once", "the evaluator was not asked for each recorded point exactly once, in order (%d requests for %d points)" % (len(ax), len(want_x)), sig, asked=ax, record=want_x, **det)
        fx = np.vstack([c[0] for c in f.calls]) if f.calls else np.zeros((0, d))
        rec.check("once", bool(np.array_equal(fx, ax)), "once:direct", "the objective was evaluated outside the evaluator", sig, **det)
        sizes = [len(c[0]) for c in asked]
        if given != "xy":
            sizes = sizes[1:]
        rec.check("once", all(0 < s_ <= par for s_ in sizes) and (stats["bad"] > 0 or sizes == [par] * n_iter), "once:batches", "the points of an iteration were not evaluated together: %r" % sizes, sig, **det)
        if mixed:
            rec.check("valid", bool(np.all(valid(ax)) and np.all(admissible(ax))), "valid:objective", "the objective was given values that are not valid integers or categories", sig, asked=ax, **det)
        # outputs
        true = f.value(XF)
        rec.check("truth", bool(np.array_equal(Y, true)), "truth", "recorded outputs are not the values of the objective at the recorded points", sig, got=Y, want=true, rows=np.flatnonzero(Y != true).tolist(), **det)
        # what the surrogate learnt from at the start of every iteration
        for k, (xt, yt) in enumerate(seen):
            if len(xt) > len(X):
                rec.seen("training")
                rec.violation("training:size", "the surrogate is trained with %d points, %d are recorded" % (len(xt), len(X)), **det)
                break
            same = fold(xt) if xt.shape[1] == dim else xt
            if k == 0 or (par == 1 and not mode):
                rec.check("training", bool(np.array_equal(same, XF[:len(xt)]) and np.array_equal(yt, true[:len(xt)])), "training", "the surrogate is trained with points or values that are not those of the record", sig, step=k, **det)
            elif not mode and k % par == 0:
                rec.check("training", len(xt) == n_init + k and bool(np.array_equal(same, XF[:len(xt)]) and np.array_equal(yt, true[:len(xt)])), "training:iteration", "at the start of an iteration the surrogate is trained with values that are not those of the record", sig, step=k, **det)
            elif not mode:
                nr = n_init + (k // par) * par
                rec.check("training", len(xt) == n_init + k and bool(np.array_equal(yt[:nr], true[:nr])), "training:inner", "within an iteration the real outputs are replaced", sig, step=k, **det)
        # optimum
        i = int(np.ravel(ind)[0])
        best = int(np.argmin(true))
        ox = np.ravel(np.asarray(x_opt, float))
        rec.check("optimum", 0 <= i < len(true) and true[i] == true[best], "optimum:index", "the reported index %d is not that of the best recorded point %d" % (i, best), sig, values=true, **det)
        rec.check("optimum", float(np.ravel(y_opt)[0]) == true[best] and np.size(y_opt) == 1, "optimum:value", "the reported optimum is not the best recorded value", sig, got=y_opt, want=true[best], **det)
        rec.check("optimum", 0 <= i < len(true) and ox.shape == (d,) and bool(np.array_equal(ox, XF[i])), "optimum:point", "the reported point is not the recorded one", sig, got=ox, want=XF[i] if 0 <= i < len(true) else None, **det)
    once()
    if rng.random() < .2:
        # the same optimiser asked again
        once()
        rec.ok("again", sig)
