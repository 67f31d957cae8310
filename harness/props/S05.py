"""S05: hyperparameter selection watched at the optimiser boundary and against an independent likelihood."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"bounds": 60, "likelihood": 60, "not_worse_than_start": 40, "gradient": 100, "best_of_starts": 10, "ill_conditioned": 5}
RULE = "distinct (model, correlation, trend, noise mode, optimiser, inputs, outputs) in which likelihood and bounds were decided"
ASSUMPTIONS = ["log10 bounds are allowed the constraint tolerance of the optimiser (2e-3 in log10, exact for TNC)",
               "the likelihood oracle is undecided when the correlation system is too ill-conditioned"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 500)
    out = []
    rep = 3 if tier == "quick" else 20
    for r in range(rep):
        for opt in ("Cobyla", "TNC"):
            for corr in ("squar_exp", "abs_exp", "matern52", "matern32"):
                for poly in ("constant", "linear", "quadratic"):
                    for noise in ("none", "fixed", "hom", "hetest"):
                        if noise != "none" and rng.random() < .4:
                            continue
                        out.append({"m": "hyper", "model": "KRG", "opt": opt, "corr": corr, "poly": poly, "noise": noise, "s": int(rng.integers(1 << 30))})
            for name in ("KPLS", "KPLSK", "GEKPLS"):
                for corr in (("squar_exp",) if name == "KPLSK" else ("squar_exp", "abs_exp")):
                    for noise in ("none", "hom", "hetest"):
                        if name == "GEKPLS" and noise != "none":
                            continue
                        out.append({"m": "hyper", "model": name, "opt": opt, "corr": corr, "poly": str(rng.choice(["constant", "linear"])),
                                    "noise": noise, "s": int(rng.integers(1 << 30))})
        for nl in (2, 3):
            for opt in ("Cobyla", "TNC"):
                out.append({"m": "mf", "opt": opt, "nl": nl, "s": int(rng.integers(1 << 30))})
        for k in range(6):
            out.append({"m": "mgp", "s": int(rng.integers(1 << 30))})
        for k in range(12):
            out.append({"m": "ill", "s": int(rng.integers(1 << 30)), "k": k})
        for k in range(2):
            out.append({"m": "hyper", "model": "KRG", "opt": ["TNC", "Cobyla"][k], "corr": ["squar_exp", "matern52"][k], "poly": "constant", "noise": "none", "big": 1, "s": int(rng.integers(1 << 30))})
    return out


class OptHook:
    """records what is handed to the optimiser and what comes back"""

    def __enter__(self):
        import scipy.optimize as so
        self.so, self.orig, self.calls = so, so.minimize, []

        def wrapped(fun, x0, *a, **k):
            c = {"fun": fun, "x0": np.array(x0, float), "jac": k.get("jac"), "method": k.get("method"), "bounds": k.get("bounds")}
            self.calls.append(c)
            if callable(c["jac"]) and len(self.calls) <= 2:
                self.probe(c)
            res = self.orig(fun, x0, *a, **k)
            c["x"], c["f"] = np.array(res["x"], float), float(np.ravel(res["fun"])[0])
            return res
        so.minimize = wrapped
        return self

    def __exit__(self, *a):
        self.so.minimize = self.orig

    def probe(self, c):
        """numeric slope of the objective next to the reported gradient, at the start and one random point"""
        c["probes"] = []
        rng = self.rng
        for x in (c["x0"], c["x0"] + rng.uniform(-.5, .5, len(c["x0"]))):
            def f(P):
                return np.array([[float(np.ravel(c["fun"](p))[0])] for p in P])
            if not np.isfinite(f(x[None, :])).all():
                continue
            try:
                g = np.asarray(c["jac"](x), float).ravel()
            except ValueError:
                continue
            for k in range(len(x)):
                c["probes"].append((x, k, g[k] if g.size == len(x) else np.nan, ridders(f, x[None, :], k, self.h)))


def grad_report(rec, hook, key, sig, **detail):
    for c in hook.calls:
        for x, k, g, sl in c.get("probes", []):
            compare_slope(rec, "gradient", "gradient:" + key, np.array([[g]]), sl, 1.0, sig, rtol=1e-4, K=60, at=x, k=k, **detail)


def run_case(case, rec):
    rng = case_rng(case)
    globals()[{"hyper": "hyper", "mf": "multi", "mgp": "mgp", "ill": "ill"}[case["m"]]](case, rec, rng)


def hyper(case, rec, rng):
    name = case["model"]
    d = int(rng.choice([1, 2, 3])) if name != "GEKPLS" else int(rng.choice([2, 3]))
    if case["poly"] != "quadratic" and rng.random() < .1:
        d = int(rng.choice([4, 6]))
    noise = case["noise"]
    ny = int(rng.choice([2, 3])) if (noise != "hetest" and name != "GEKPLS" and rng.random() < .3) else 1
    p = {"constant": 1, "linear": d + 1, "quadratic": (d + 1) * (d + 2) // 2}[case["poly"]]
    n = p + int(rng.integers(7, 18))
    if case.get("big"):
        n, d, ny = 146, 2, 1
    data = Data(rng, n, d, ny)
    bounds = [float(rng.choice([0.02, 0.1])), float(rng.choice([2.0, 20.0]))]
    o = dict(corr=case["corr"], poly=case["poly"], hyper_opt=case["opt"], theta_bounds=bounds)
    nth = d
    if name in ("KPLS", "KPLSK", "GEKPLS"):
        nth = o["n_comp"] = int(rng.integers(1, min(d, 2) + 1))
    th0 = [float(t) for t in 10 ** rng.uniform(np.log10(bounds[0]), np.log10(bounds[1]), nth)]
    if rng.random() < .4:
        th0 = [th0[0]]
    if rng.random() < .15:
        th0 = [bounds[int(rng.integers(2))]]
    o["theta0"] = list(th0)
    nug = 100 * np.finfo(float).eps
    nb = [1e-8, 1.0]
    if noise == "fixed":
        o["noise0"] = [1e-3]
    elif noise == "hom":
        if rng.random() < .5:
            nb = [1e-6, float(rng.choice([1e-3, 1e-4]))]
        o.update(eval_noise=True, noise0=[float(rng.choice([0.0, 1e-3, 0.1, 0.01, 1e-9, 5.0]))], noise_bounds=list(nb))
        nug = 0.0
        data.y = data.y + 0.1 * data.ysc * rng.normal(size=data.y.shape)
    elif noise == "hetest":
        o.update(eval_noise=True, use_het_noise=True, noise0=[1e-3])
        nug = 0.0
        rep = rng.integers(0, n, n // 2)
        data.x = np.vstack([data.x, data.x[rep]])
        data.y = np.vstack([data.y, data.y[rep]]) + 0.1 * data.ysc * rng.normal(size=(len(data.x), ny))
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in o.items()}
    s = make(name, d, data, **kw)
    sig = "%s d=%d ny=%d %s" % (name, d, ny, sorted((k, str(v)) for k, v in o.items() if k not in ("theta0",)))
    with OptHook() as hk:
        hk.rng, hk.h = rng, 0.05
        try:
            fit(s, data, name == "GEKPLS")
        except Exception as e:
            if any(t in str(e) for t in ("ill conditioned", "undetermined", "attempts to train")):
                raise Inconclusive("training refused: %s" % str(e)[:60])
            raise
    grad_report(rec, hk, name, sig, options=o)
    theta = np.asarray(s.optimal_theta, float).ravel()
    want = d if name in ("KRG", "KPLSK") else nth
    if theta.size != want:
        rec.violation("theta:size", "%d hyperparameters instead of %d" % (theta.size, want), options=o)
        return
    # ---- bounds
    slack = 2e-3 if case["opt"] == "Cobyla" else 1e-9
    lt = np.log10(theta)
    rec.check("bounds", bool(np.all(np.isfinite(lt)) and np.all(lt >= np.log10(bounds[0]) - slack) and np.all(lt <= np.log10(bounds[1]) + slack)), "bounds:%s:%s" % (name, case["opt"]),
              "selected %s outside the declared bounds %s" % (theta, bounds), sig, options=o)
    X, Y = data.x, data.y
    if name == "GEKPLS" and hasattr(s, "X_norma"):
        X, Y = s.X_norma * s.X_scale + s.X_offset, np.asarray(s.y_norma) * s.y_std + s.y_mean
    Z, Yn, xo, xs, ym, ys = standard(X, Y)
    nz = np.zeros(1)
    if noise == "fixed":
        nz = np.array(o["noise0"])
    elif noise == "hom":
        nz = np.asarray(s.optimal_noise, float).ravel()
        if nz.size != 1:
            rec.violation("noise:size", "%d noise values for homoscedastic noise" % nz.size, options=o)
            return
        ln = np.log10(nz)
        rec.check("noise_bounds", bool(np.isfinite(ln).all() and ln[0] >= np.log10(nb[0]) - slack and ln[0] <= np.log10(nb[1]) + slack),
                  "noise_bounds:%s:%s" % (name, case["opt"]), "selected noise %s outside %s" % (nz, nb), sig, options=o)
    elif noise == "hetest":
        Zu, inv, cnt = np.unique(Z, axis=0, return_inverse=True, return_counts=True)
        inv = np.asarray(inv).ravel()
        Yu = np.array([Yn[inv == i].mean(0) for i in range(len(Zu))])
        nz = np.array([Yn[inv == i, 0].std(ddof=1) ** 2 if cnt[i] > 1 else o["noise0"][0] for i in range(len(Zu))]) / cnt
        Z, Yn = Zu, Yu
    F = trend(case["poly"], Z)
    pls = s.coeff_pls if name in ("KPLS", "GEKPLS") else None

    def lik(th, nzv):
        g = GLS(Z, Yn, kernel(case["corr"], th, Z, Z, pls), F, np.ones(len(Z)) * (nug + nzv))
        return g.loglik(), 1e-8 + 300 * 2.3e-16 * g.cond * len(Z)
    l1, t1 = lik(theta, nz)
    got = float(np.ravel(s.optimal_rlf_value)[0])
    if t1 < 1e-2:
        rec.check("likelihood", bool(abs(got - l1) <= t1 * (1 + abs(l1))), "likelihood:%s" % name,
                  "reported likelihood %r, likelihood of the selected hyperparameters %r" % (got, l1), sig, options=o, theta=theta)
    else:
        rec.inconclusive("likelihood ill-conditioned")
    if name == "KPLSK":
        return
    nz0 = nz
    if noise == "hom":
        # outside of its bounds the start is replaced by the lowest possible value
        nz0 = np.array([o["noise0"][0] if nb[0] <= o["noise0"][0] <= nb[1] else nb[0]])
    th0v = np.ones(want) * np.asarray(th0)
    l0, t0 = lik(th0v, nz0)
    if t0 < 1e-2 and t1 < 1e-2 and np.isfinite(l0):
        slackv = (t0 + t1) * (1 + abs(l0)) + 1e-6 * (1 + abs(l0))
        rec.check("not_worse_than_start", bool(l1 >= l0 - slackv), "worse_than_start:%s:%s" % (name, case["opt"]),
                  "the selected hyperparameters have likelihood %r, the user's starting point has %r" % (l1, l0), sig, options=o, theta=theta)
        rec.sample(config=sig, theta0=th0v, theta=theta, lik0=l0, lik=l1)
    # ---- the returned hyperparameters are the best of what the optimiser runs returned
    done = [c["f"] for c in hk.calls if "f" in c and np.isfinite(c["f"])]
    if len(done) >= 2 and t1 < 1e-2:
        rec.check("best_of_starts", bool(-got <= min(done) + 1e-7 * (1 + abs(min(done)))), "best_of_starts:%s" % name,
                  "reported %r although an optimiser run reached %r" % (-got, min(done)), sig, options=o)


def ill(case, rec, rng):
    """repeated or nearly repeated points and no nugget: the optimiser meets matrices that cannot be factorised. Training ends with
    hyperparameters inside the bounds or is refused with an explanation."""
    d = int(rng.integers(1, 3))
    data = Data(rng, int(rng.integers(8, 16)), d, 1)
    x = np.vstack([data.x, data.x[:3] + (0.0 if case["k"] % 2 else 1e-9 * np.ptp(data.x, axis=0))])
    y = np.vstack([data.y, data.y[:3]])
    data.x, data.y = x, y
    opt = ("TNC", "TNC", "TNC", "TNC", "Cobyla", "Cobyla")[case["k"] % 6]
    name = ("KRG", "KRG", "KPLS", "KPLSK", "KRG", "KPLS")[case["k"] % 6]
    b = [1e-6, 20.0]
    kw = dict(n_comp=1) if name != "KRG" else {}
    if case["k"] >= 6:      # what the noise can add does not help
        kw.update(eval_noise=True, noise0=[1e-20], noise_bounds=[1e-21, float(rng.choice([1e-19, 1e-6]))])
    s = make(name, d, data, hyper_opt=opt, nugget=float(rng.choice([0.0, 1e-16])), theta0=[float(rng.choice([1e-5, 1e-2, 1.0]))], theta_bounds=list(b), corr="squar_exp", poly="constant", **kw)
    sig = "ill %s %s d=%d k=%d" % (name, opt, d, case["k"])
    outcomes = []
    for rep in range(3):
        np.random.seed(case["s"] % 1000)
        try:
            with quiet():
                fit(s, data)
            outcomes.append(np.asarray(s.optimal_theta, float).ravel().tolist())
        except Exception as e:
            outcomes.append("%s: %s" % (type(e).__name__, e))
    rec.check("ill_conditioned", outcomes[1:] == outcomes[:-1], "ill:again:%s:%s" % (name, opt), "training again with the same data ends differently: %s" % outcomes, sig)
    try:
        np.random.seed(case["s"] % 1000)
        fit(s, data)
    except ValueError as e:
        rec.check("ill_conditioned", any(t in str(e) for t in ("ill conditioned", "attempts to train", "singular", "undetermined")), "ill:%s:%s" % (name, opt), "training with repeated points: ValueError %s" % e, sig)
        return
    except Exception as e:
        rec.check("ill_conditioned", type(e).__name__ == "LinAlgError", "ill:%s:%s" % (name, opt), "training with repeated points fails with %s: %s" % (type(e).__name__, e), sig)
        return
    lt = np.log10(np.asarray(s.optimal_theta, float).ravel())
    slack = 2e-3 if opt == "Cobyla" else 1e-9
    rec.check("ill_conditioned", bool(np.all(np.isfinite(lt)) and np.all(lt >= np.log10(b[0]) - slack) and np.all(lt <= np.log10(b[1]) + slack)), "ill:bounds:%s:%s" % (name, opt), "selected 10**%s outside the bounds" % lt, sig)


def multi(case, rec, rng):
    a = sm()[1]
    d = int(rng.choice([1, 2]))
    nl = case["nl"]
    data = Data(rng, 12, d, 1)
    bounds = [0.02, 20.0]
    corr = str(rng.choice(["squar_exp", "abs_exp", "matern52", "matern32"]))
    poly = str(rng.choice(["constant", "linear"]))
    rho = str(rng.choice(["constant", "linear"]))
    s = a.MFK(corr=corr, poly=poly, rho_regr=rho, hyper_opt=case["opt"], theta_bounds=list(bounds), theta0=[1.0], print_global=False)
    sizes = [22, 16, 12][:nl]
    Xs, Ys = [], []
    for i in range(nl):
        x = data.to_x(lhs(rng, sizes[i], d))
        y = data.value(x) * (0.5 + 0.25 * i) + data.ysc * (nl - 1 - i) * 0.3 * data.to_u(x)[:, :1] ** 2
        Xs.append(x)
        Ys.append(y)
        s.set_training_values(x, y, name=(i if i < nl - 1 else None))
    sig = "MFK %s %s %s %s nl=%d d=%d" % (case["opt"], corr, poly, rho, nl, d)
    with OptHook() as hk:
        hk.rng, hk.h = rng, 0.05
        with quiet():
            s.train()
    grad_report(rec, hk, "MFK", sig)
    slack = 2e-3 if case["opt"] == "Cobyla" else 1e-9
    XX, YY = np.vstack(Xs), np.vstack(Ys)
    _, _, xo, xs, ym, ys = standard(XX, YY)
    for i in range(nl):
        th = np.asarray(s.optimal_theta[i], float).ravel()
        lt = np.log10(th)
        rec.check("bounds", bool(th.size == d and np.all(lt >= np.log10(bounds[0]) - slack) and np.all(lt <= np.log10(bounds[1]) + slack)),
                  "bounds:MFK:%s" % case["opt"], "level %d: selected %s outside %s" % (i, th, bounds), sig)
        if rec.viol:
            return
        Z, Yn = (Xs[i] - xo) / xs, (Ys[i] - ym) / ys
        F = trend(poly, Z)
        q = 0
        if i > 0:
            gz = trend(rho, Z)
            q = gz.shape[1]
            low = s._predict_intermediate_values(Z, i, descale=False) if hasattr(s, "_predict_intermediate_values") else None
            if low is None:
                raise Inconclusive("no access to the lower level")
            F = np.hstack([gz * low, F])
        g = GLS(Z, Yn, kernel(corr, th, Z, Z), F, np.ones(len(Z)) * 100 * np.finfo(float).eps)
        t = 1e-8 + 300 * 2.3e-16 * g.cond * len(Z)
        if t < 1e-2:
            p = F.shape[1] - q
            # sigma2 with (n - p - q) degrees of freedom, determinant with n
            m = len(Z) - p - q
            s2 = g.rss / m
            ld = np.linalg.slogdet(g.R)[1] / np.log(10)
            l1 = float(-m * np.log10(s2.sum()) - ld)
            got = float(np.ravel(s.optimal_rlf_value[i])[0])
            rec.check("likelihood", bool(abs(got - l1) <= t * (1 + abs(l1))), "likelihood:MFK", "level %d: reported %r, likelihood %r" % (i, got, l1), sig)


def mgp(case, rec, rng):
    m = sm()[0]
    d = int(rng.choice([2, 3, 4]))
    nc = int(rng.integers(1, 3))
    n = 14 + 6 * d
    A = rng.normal(size=(d, nc))
    x = rng.uniform(-1, 1, (n, d))
    y = np.sin(x @ A).sum(1, keepdims=True) * float(rng.choice([1.0, 50.0]))
    poly = str(rng.choice(["constant", "linear"]))
    s = m.MGP(n_comp=nc, theta0=[float(rng.choice([0.1, 1.0]))], print_global=False, poly=poly)
    s.set_training_values(x, y)
    sig = "MGP d=%d nc=%d %s" % (d, nc, poly)
    with OptHook() as hk:
        hk.rng, hk.h = rng, 0.05
        with quiet():
            s.train()
    grad_report(rec, hk, "MGP", sig)
    th = np.asarray(s.optimal_theta, float).ravel()
    rec.check("bounds", bool(th.size == d * nc and np.all(np.abs(th) <= 20.0 + 1e-9)), "bounds:MGP", "selected %s" % th, sig)
    done = [c["f"] for c in hk.calls if "f" in c and np.isfinite(c["f"])]
    if done:
        got = -float(np.ravel(s.optimal_rlf_value)[0])
        rec.check("best_of_starts", bool(got <= min(done) + 1e-7 * (1 + abs(min(done)))), "best_of_starts:MGP", "reported %r, an optimiser run reached %r" % (got, min(done)), sig)
        f0 = float(np.ravel(hk.calls[0]["fun"](hk.calls[0]["x0"]))[0])
        rec.check("not_worse_than_start", bool(got <= f0 + 1e-7 * (1 + abs(f0))), "worse_than_start:MGP", "start %r, selected %r" % (f0, got), sig)
