"""S03: mean, variance, process variance and variance derivatives of kriging models against an independent universal-kriging solution."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"mean": 300, "variance": 300, "process_variance": 40, "variance_slope": 100, "nonnegative": 300, "nonnegative_dense": 12}
RULE = "distinct (model, correlation, trend, noise mode, inputs, outputs, size) in which mean and variance were both decided"
ASSUMPTIONS = ["oracle solves the universal-kriging saddle-point system with the hyperparameters the model reports; undecided when its condition number makes the tolerance exceed 0.1%",
               "the selected hyperparameters are read from optimal_theta / optimal_noise (and coeff_pls), the process variance from optimal_par['sigma2']"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 300)
    out = []
    rep = 2 if tier == "quick" else 30
    for r in range(rep):
        for corr in ("squar_exp", "abs_exp", "matern52", "matern32"):
            for poly in ("constant", "linear", "quadratic"):
                for noise in ("none", "fixed", "hom", "hetgiven", "hetest"):
                    if noise != "none" and rng.random() < .4:
                        continue
                    out.append({"m": "uk", "model": "KRG", "corr": corr, "poly": poly, "noise": noise, "s": int(rng.integers(1 << 30))})
        for name in ("KPLS", "KPLSK", "GEKPLS"):
            for poly in ("constant", "linear", "quadratic"):
                for corr in (("squar_exp",) if name == "KPLSK" else ("squar_exp", "abs_exp")):
                    out.append({"m": "uk", "model": name, "corr": corr, "poly": poly,
                                "noise": str(rng.choice(["none", "fixed", "hom", "hetest"])) if name != "GEKPLS" else "none", "s": int(rng.integers(1 << 30))})
    for b in range(24 if tier == "quick" else 400):
        out.append({"m": "dense", "s": int(rng.integers(1 << 30))})
    for b in range(2 if tier == "quick" else 8):
        out.append({"m": "uk", "model": ["KRG", "KPLS"][b % 2], "corr": "abs_exp", "poly": "linear", "noise": "none", "big": 1, "s": int(rng.integers(1 << 30))})
    return out


def setup(case, rng):
    name = case["model"]
    d = int(rng.choice([1, 2, 3, 4]))
    if name == "GEKPLS":
        d = int(rng.choice([2, 3, 3, 5]))
    elif case["poly"] != "quadratic" and rng.random() < .1:
        d = int(rng.choice([5, 6, 8]))
    ny = 1
    noise = case["noise"]
    if name != "GEKPLS" and not noise.startswith("het") and rng.random() < .3:
        ny = int(rng.choice([2, 3]))
    p = {"constant": 1, "linear": d + 1, "quadratic": (d + 1) * (d + 2) // 2}[case["poly"]]
    n = p + int(rng.integers(6, 20))
    if case.get("big"):
        n, d, ny = 150, 2, 1
    data = Data(rng, n, d, ny)
    o = dict(corr=case["corr"], poly=case["poly"], theta_bounds=[0.05, 20.0], theta0=[float(rng.choice([0.3, 1.0, 5.0]))])
    if rng.random() < .25:
        o["theta_bounds"] = [1e-3, 20.0]
    if rng.random() < .25:
        o["nugget"] = float(rng.choice([1e-10, 1e-6, 1e-4]))
    if name in ("KPLS", "KPLSK", "GEKPLS"):
        o["n_comp"] = int(rng.integers(1, d + 1)) if name != "GEKPLS" else int(rng.integers(1, 3))
    elif rng.random() < .3:
        o["theta0"] = [float(t) for t in rng.uniform(0.1, 5, d)]
    if name == "GEKPLS":
        o["extra_points"] = int(rng.choice([0, 1, d]))
        o["delta_x"] = 1e-2
    if noise == "fixed":
        o["noise0"] = [float(rng.choice([1e-6, 1e-3, 0.1]))]
    elif noise == "hom":
        o["eval_noise"] = True
        o["noise0"] = [float(rng.choice([0.0, 1e-4, 1e-2]))]
        data.y = data.y + 0.1 * data.ysc * rng.normal(size=data.y.shape)
    elif noise == "hetgiven":
        o["use_het_noise"] = True
        o["noise0"] = [float(v) for v in 10.0 ** rng.uniform(-5, -1, n)]
    elif noise == "hetest":
        o["eval_noise"] = True
        o["use_het_noise"] = True
        o["noise0"] = [float(rng.choice([1e-3, 1e-2]))]
        reps = rng.integers(0, n, n // 2)
        data.x = np.vstack([data.x, data.x[reps], data.x[reps[: n // 4]]])
        data.y = np.vstack([data.y, data.y[reps], data.y[reps[: n // 4]]]) + 0.1 * data.ysc * rng.normal(size=(len(data.x), ny))
    if rng.random() < .15 and noise == "none" and ny == 1 and name in ("KRG", "KPLS"):
        o["hyper_opt"] = "TNC"
    return name, d, ny, data, o


def dense(case, rec, rng):
    """many points and a smooth kernel: the correlation matrix is singular up to the jitter, the variance is rounding at many points"""
    name = str(rng.choice(["KRG", "KPLS", "KPLSK", "GEKPLS"]))
    d = int(rng.choice([1, 2]))
    data = Data(rng, int(rng.choice([25, 40, 60])), max(d, 2) if name == "GEKPLS" else d, 1 if name == "GEKPLS" else int(rng.choice([1, 2])), rough=.5)
    d = data.d
    o = dict(poly=str(rng.choice(["constant", "linear", "quadratic"])), corr="squar_exp", theta0=[float(rng.choice([.01, .1]))], theta_bounds=[1e-3, .5])
    if rng.random() < .6:  # no jitter: the variance at the training points is pure rounding
        o.update(nugget=float(rng.choice([0.0, 1e-17])), theta0=[float(rng.choice([.5, 2.0]))], theta_bounds=[.1, 20.0])
        o["corr"] = "squar_exp" if name in ("KPLSK", "GEKPLS") else str(rng.choice(["squar_exp", "abs_exp"] + ["matern52", "matern32"] * (name == "KRG")))
    elif rng.random() < .5:
        o["nugget"] = float(rng.choice([1e-13, 1e-12]))
    if name == "GEKPLS":
        o.update(extra_points=1, delta_x=1e-2)
    s = make(name, d, data, **o)
    try:
        fit(s, data, name == "GEKPLS")
    except Exception as e:
        if any(t in str(e) for t in ("ill conditioned", "undetermined", "attempts to train", "unpack", "not positive")):
            raise Inconclusive("training refused: %s" % str(e)[:60])
        raise
    w = data.xlimits[:, 1] - data.xlimits[:, 0]
    xa = np.vstack([data.x, data.x + w * rng.normal(size=data.x.shape) * 10.0 ** rng.uniform(-9, -3, (len(data.x), 1)), data.points(rng, 60)])
    with quiet():
        v = s.predict_variances(xa)
    rec.check("nonnegative_dense", v.shape == (len(xa), data.ny) and bool(np.all(v >= 0) and np.all(np.isfinite(v))), "variance:negative:" + name,
              "variance %r" % float(np.min(v)), "dense %s d=%d %s" % (name, d, o["poly"]), options=o)


def run_case(case, rec):
    rng = case_rng(case)
    if case["m"] == "dense":
        return dense(case, rec, rng)
    name, d, ny, data, o = setup(case, rng)
    s = make(name, d, data, **{k: (list(v) if isinstance(v, list) else v) for k, v in o.items()})
    try:
        fit(s, data, name == "GEKPLS")
    except Exception as e:
        if any(t in str(e) for t in ("ill conditioned", "undetermined", "attempts to train")):
            raise Inconclusive("training refused: %s" % str(e)[:60])
        raise
    sig = "%s d=%d ny=%d n=%d %s" % (name, d, ny, len(data.x), sorted((k, str(v)[:30]) for k, v in o.items() if k != "noise0")) + case["noise"]
    X, Y = data.x, data.y
    if name == "GEKPLS" and o["extra_points"]:
        # first-order Taylor points along the components with the largest PLS weight of each point: taken from the model, checked
        # here for being training points shifted by delta_x along one variable with the matching first-order value
        XX = s.X_norma * s.X_scale + s.X_offset
        YY = np.asarray(s.y_norma) * s.y_std + s.y_mean
        m = o["extra_points"]
        okx = XX.shape == (len(X) * (m + 1), d) and np.allclose(XX[:len(X)], X, rtol=1e-9, atol=1e-9)
        if okx:
            for i in range(len(X)):
                seen = set()
                for q in range(m):
                    r = len(X) + i * m + q
                    dx = XX[r] - X[i]
                    st = o["delta_x"] * (data.xlimits[:, 1] - data.xlimits[:, 0])
                    j = int(np.argmax(np.abs(dx / st)))
                    seen.add(j)
                    e = np.zeros(d)
                    e[j] = st[j]
                    val = Y[i, 0] + st[j] * data.deriv(X[i:i + 1], j)[0, 0]
                    okx = okx and np.allclose(dx, e, atol=1e-7 * np.abs(st[j]) + 1e-12) and abs(val - YY[r, 0]) <= 1e-7 * (abs(val) + data.ysc)
                okx = okx and len(seen) == m
        rec.check("taylor_points", bool(okx), "gekpls:taylor", "the extra points of GEKPLS are not first-order Taylor points", sig, options=o)
        if rec.viol:
            return
        X, Y = XX, YY
    nug = o.get("nugget", 100.0 * np.finfo(float).eps)
    if o.get("eval_noise"):
        nug = 0.0
    Z, Yn, xo, xs, ym, ys = standard(X, Y)
    if case["noise"] == "hetest":
        Zu, inv, cnt = np.unique(Z, axis=0, return_inverse=True, return_counts=True)
        inv = np.asarray(inv).ravel()
        Yu = np.array([Yn[inv == i].mean(0) for i in range(len(Zu))])
        nz = np.array([Yn[inv == i, 0].std(ddof=1) ** 2 if cnt[i] > 1 else o["noise0"][0] for i in range(len(Zu))]) / cnt
        got = np.asarray(s.optimal_noise, float).ravel()
        if got.shape != nz.shape:
            rec.violation("hetnoise:shape", "one noise value per distinct point expected: %s vs %s" % (got.shape, nz.shape), options=o)
            return
        rec.check("het_noise", bool(np.allclose(np.sort(got), np.sort(nz), rtol=1e-7, atol=1e-14)), "hetnoise:value",
                  "the estimated noise is not the variance of the repeated outputs over the number of repetitions", sig, options=o)
        Z, Yn = Zu, Yu
        noise = nz
    else:
        noise = np.asarray(s.optimal_noise, float).ravel()
    n = len(Z)
    if noise.size not in (1, n):
        rec.violation("noise:shape", "reported noise has %d values for %d points" % (noise.size, n), options=o)
        return
    if case["noise"] == "fixed" or case["noise"] == "hetgiven":
        noise = np.asarray(o["noise0"], float)
    if case["noise"] == "none":
        noise = np.zeros(1)
    theta = np.asarray(s.optimal_theta, float).ravel()
    pls = s.coeff_pls if name in ("KPLS", "GEKPLS") else None
    want = d if name in ("KRG", "KPLSK") else o["n_comp"]
    if theta.size != want:
        rec.violation("theta:size", "%d hyperparameters selected instead of %d" % (theta.size, want), options=o)
        return
    R = kernel(case["corr"], theta, Z, Z, pls)
    g = GLS(Z, Yn, R, trend(case["poly"], Z), np.ones(n) * (nug + noise))
    eps = 2.3e-16
    tol = 1e-9 + 300 * eps * g.cond
    if not np.isfinite(tol) or tol > 1e-3:
        raise Inconclusive("ill-conditioned reference")
    sig2 = np.asarray(s.optimal_par["sigma2"], float).ravel()
    ref2 = g.rss / n * ys ** 2
    rec.check("process_variance", sig2.shape == ref2.shape and bool(np.all(np.abs(sig2 - ref2) <= 10 * tol * np.abs(ref2) + 1e-300)), "process_variance:%s" % name,
              "reported process variance %s, maximum likelihood value %s" % (sig2, ref2), sig, options=o)
    ne = int(rng.choice([1, 3, 11]))
    if case.get("big"):
        ne = 80
    xe = np.vstack([data.points(rng, ne), data.to_x(rng.uniform(-.3, 1.3, (2, d)))])
    Ze = (xe - xo) / xs
    r = kernel(case["corr"], theta, Ze, Z, pls)
    f = trend(case["poly"], Ze)
    mean = ym + ys * g.mean(r, f)
    mse = np.maximum(g.mse(r, f), 0.0)
    scale_m = ys * (np.abs(r) @ np.abs(g.gamma) + np.abs(f) @ np.abs(g.beta)).max() + np.abs(ym)
    with quiet():
        v = s.predict_values(xe)
        w = s.predict_variances(xe)
    if v.shape != mean.shape or w.shape != mean.shape:
        rec.violation("shape:%s" % name, "shapes %s %s instead of %s" % (v.shape, w.shape, mean.shape), options=o)
        return
    bad = ~(np.abs(v - mean) <= tol * scale_m)
    rec.ok("mean", sig, n=mean.size)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        rec.violation("mean:%s" % name, "predicted %r, best linear unbiased prediction %r (tol %.1e)" % (float(v[i]), float(mean[i]), float(np.max(tol * scale_m))), options=o, x=xe[i[0]], case_d=d)
    vref = mse[:, None] * sig2[None, :]
    fsc = 1 + np.abs(mse).max() + ((f ** 2).sum(1).max()) / max(1, n)
    bad = ~(np.abs(w - vref) <= 10 * tol * sig2[None, :] * fsc + 1e-300)
    rec.ok("variance", sig, n=vref.size)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        rec.violation("variance:%s" % name, "predicted variance %r, kriging mean squared error %r" % (float(w[i]), float(vref[i])), options=o, x=xe[i[0]], case_d=d)
    xa = np.vstack([xe, data.x])
    with quiet():
        w = s.predict_variances(xa)
    badn = ~(w >= 0) | ~np.isfinite(w)
    rec.ok("nonnegative", sig, n=w.size)
    if badn.any():
        i = tuple(np.argwhere(badn)[0])
        rec.violation("variance:negative:%s" % name, "variance %r" % float(w[i]), options=o, x=xa[i[0]])
    rec.sample(config=sig, theta=theta, cond=g.cond, mean=v[0], variance=w[0])
    # ---- variance derivatives
    if case.get("big"):
        return
    xe = data.points(rng, 3)
    for i in range(len(xe)):
        try:
            with quiet():
                dv = np.asarray(s.predict_variance_derivatives(xe[i:i + 1]), float)
        except ValueError as e:
            if case["poly"] == "quadratic" or "not available" in str(e):
                rec.ok("variance_slope_refused", sig)
                break
            raise
        if dv.size != d * ny:
            rec.violation("variance_slope:shape", "variance derivatives have shape %s" % (dv.shape,), options=o)
            break
        dv = dv.reshape(ny, d) if ny > 1 else dv.reshape(1, d)
        for kx in range(d):
            h0 = 0.02 * data.width(kx)
            if case["corr"] != "squar_exp":
                # the kernel has a kink at the coordinates of the training points: stay on one side
                h0 = min(h0, 0.8 * np.abs(X[:, kx] - xe[i, kx]).min())
            sl = ridders(lambda x: np.asarray(s.predict_variances(x)), xe[i:i + 1], kx, h0)
            compare_slope(rec, "variance_slope", "variance_slope:%s" % name, dv[:, kx].reshape(1, ny), sl, data.width(kx), sig, K=50, options=o, kx=kx, x=xe[i])
        if rec.viol:
            break
