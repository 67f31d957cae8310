"""S17: multi-fidelity kriging against an independent autoregressive recursion (universal kriging solved level by level)."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"mean": 120, "level_mean": 200, "variance": 120, "level_variance": 200, "nonnegative": 60, "reproduces": 50, "zero_variance": 15, "single_level": 8, "scale": 60}
RULE = "distinct (model, levels, trends, correlation, noise mode, dimension, nested or not)"
ASSUMPTIONS = ["hyperparameters (optimal_theta, optimal_noise_all, coeff_pls) are read from the model, everything else is recomputed from the data",
               "undecided when the correlation system of a level is too ill-conditioned for the oracle",
               "single-level models are compared with kriging at fixed hyperparameters (the two likelihoods count degrees of freedom differently)"]
CASE_LIMIT = 120


def cases(tier, seed):
    rng = np.random.default_rng(seed + 1700)
    out = []
    for i in range(220 if tier == "quick" else 4000):
        out.append(dict(m="recursion", model=["MFK", "MFKPLS", "MFK", "MFKPLSK"][i % 4], s=int(rng.integers(1 << 30)), k=i))
    for i in range(30 if tier == "quick" else 400):
        out.append(dict(m="edge", s=int(rng.integers(1 << 30)), k=i))
    for i in range(10 if tier == "quick" else 100):
        out.append(dict(m="single", s=int(rng.integers(1 << 30)), k=i))
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


def designs(rng, levels, d, p, nested):
    """points from the lowest to the highest fidelity"""
    n = p + int(rng.integers(6, 10))
    X = [lhs(rng, n, d)]
    for l in range(levels - 1):
        m = int(n * 1.4) + int(rng.integers(1, 5))
        low = lhs(rng, m, d)
        if nested:
            X.insert(0, np.vstack([X[0], low[: m - n]]) if m > n else X[0].copy())
        else:
            X.insert(0, low)
        n = len(X[0])
    return X


def recursion(case, rec, rng):
    name = case["model"]
    d = int(rng.choice([1, 2, 3])) if name == "MFK" else int(rng.choice([2, 3]))
    if rng.random() < .08:
        d = int(rng.choice([4, 5]))
    levels = int(rng.choice([1, 2, 2, 3, 4])) if name == "MFK" else int(rng.choice([2, 2, 3]))
    poly = str(rng.choice(["constant", "constant", "linear", "quadratic"]))
    rho = str(rng.choice(["constant", "constant", "linear", "quadratic"]))
    size = {"constant": 1, "linear": d + 1, "quadratic": (d + 1) * (d + 2) // 2}
    corr = "squar_exp" if name == "MFKPLSK" else str(rng.choice(["squar_exp", "abs_exp"])) if name == "MFKPLS" else str(rng.choice(["squar_exp", "abs_exp", "matern52", "matern32"]))
    noise = str(rng.choice(["none", "none", "none", "fixed", "levels", "hom", "het"]))
    nested = bool(rng.random() < .7)
    U = designs(rng, levels, d, size[poly] + size[rho] + 2, nested)
    f = Fun(rng, d, 1, 1.2)
    gs = [Fun(rng, d, 1, .8) for _ in range(levels)]
    box = Data(rng, 4, d, 1)
    sy, oy = float(rng.choice([1, 1e-2, 40.0])), float(rng.choice([0, 5.0]))
    X = [box.to_x(u) for u in U]
    Y = []
    cur = lambda u, l: f(u) if l == 0 else rhos[l] * cur(u, l - 1) + 0.5 * gs[l](u)
    rhos = rng.uniform(.5, 2, levels) * rng.choice([1, 1, -1], levels)
    for l, u in enumerate(U):
        Y.append(sy * (cur(2 * u - 1, l) + oy))
    o = dict(corr=corr, poly=poly, rho_regr=rho, theta0=[float(rng.choice([0.3, 1.0]))], theta_bounds=[0.05, 20.0])
    if name != "MFK":
        o["n_comp"] = int(rng.integers(1, d + 1))
    if rng.random() < .5:
        o["nugget"] = float(rng.choice([1e-10, 1e-8]))
    if rng.random() < .2 and name == "MFK":
        o["theta0"] = np.array(rng.uniform(.1, 2, (levels, d)))
    if noise == "fixed":
        o["noise0"] = [1e-4]
    elif noise == "levels":
        o["noise0"] = [[float(v)] for v in 10.0 ** rng.uniform(-6, -2, levels)]
    elif noise in ("hom", "het"):
        o["eval_noise"] = True
        o["noise0"] = [1e-3]
        for l in range(levels):
            if noise == "het":
                i = rng.integers(0, len(X[l]), 4)
                X[l] = np.vstack([X[l], X[l][i], X[l][i[:2]]])
                Y[l] = np.vstack([Y[l], Y[l][i], Y[l][i[:2]]])
            Y[l] = Y[l] + 0.05 * sy * rng.standard_normal(Y[l].shape)
        if noise == "het":
            o["use_het_noise"] = True
    m, a = sm()
    kw = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in o.items()}
    s = getattr(a, name)(print_global=False, **kw)
    for l in range(levels - 1):
        s.set_training_values(X[l].copy(), Y[l].copy(), name=l)
    s.set_training_values(X[-1].copy(), Y[-1].copy())
    np.random.seed(int(rng.integers(1000)))
    try:
        with quiet():
            s.train()
    except Exception as e:
        if any(t in str(e) for t in ("ill conditioned", "undetermined", "attempts to train", "positive definite")):
            raise Inconclusive("training refused: %s" % str(e)[:50])
        raise
    det = dict(model=name, levels=levels, d=d, options={k: v for k, v in o.items()}, noise=noise, nested=nested)
    sig = (name, levels, d, poly, rho, corr, noise, nested)
    q = box.points(rng, 8, 0.02)
    with quiet():
        mean = s.predict_values(q.copy())
        var = s.predict_variances(q.copy())
        MSE, srho = s.predict_variances_all_levels(q.copy())
    rec.check("nonnegative", mean.shape == (8, 1) and var.shape == (8, 1) and MSE.shape == (8, levels) and bool(np.isfinite(mean).all() and np.isfinite(MSE).all() and (MSE >= 0).all() and (var >= 0).all()),
              "finite", "predictions or variances are negative, not finite or of a wrong shape", sig, var=var, mse=MSE, **det)
    inter = getattr(s, "_predict_intermediate_values", None)
    # ---- reference recursion
    XA, YA = np.vstack(X), np.vstack(Y)
    _, _, xo, xs, ym, ys = standard(XA, YA)
    nug = o.get("nugget", 100.0 * np.finfo(float).eps) if not o.get("eval_noise") else 0.0
    pls = s.coeff_pls if name == "MFKPLS" else None
    Q = (q - xo) / xs
    G = []

    def mu(l, Zq):
        g = G[l]
        r = kernel(corr, g.theta, Zq, g.Z, pls)
        fq = trend(poly, Zq)
        if l:
            fq = np.hstack([trend(rho, Zq) * mu(l - 1, Zq), fq])
        return g.mean(r, fq)

    def mse(l, Zq):
        g = G[l]
        r = kernel(corr, g.theta, Zq, g.Z, pls)
        fq = trend(poly, Zq)
        if l == 0:
            return g.s2 * g.mse(r, fq)
        R = trend(rho, Zq)
        fq = np.hstack([R * mu(l - 1, Zq), fq])
        k = R.shape[1]
        cov = g.s2 * g.fcov[:k, :k] + g.beta[:k] @ g.beta[:k].T
        g.scale = np.einsum("ni,ij,nj->n", R, cov, R)
        return g.scale * mse(l - 1, Zq) + g.s2 * g.mse(r, fq)
    worst = 1.0
    theta_ok = True
    for l in range(levels):
        Z, Yn = (X[l] - xo) / xs, (Y[l] - ym) / ys
        nz = np.asarray(s.optimal_noise_all[l], float).ravel()
        if noise == "het":
            Zu, inv = np.unique(Z, axis=0, return_inverse=True)
            inv = np.asarray(inv).ravel()
            Yn = np.array([Yn[inv == i].mean(0) for i in range(len(Zu))])
            Z = Zu
        if noise in ("none",):
            nz = np.zeros(1)
        elif noise == "fixed":
            nz = np.array([1e-4])
        elif noise == "levels":
            nz = np.array(o["noise0"][l])
        if nz.size not in (1, len(Z)):
            rec.violation("noise:shape", "%d noise values for %d points" % (nz.size, len(Z)), **det)
            return
        theta = np.asarray(s.optimal_theta[l], float).ravel()
        theta_ok = theta_ok and bool(np.all(theta >= o["theta_bounds"][0] * (1 - 1e-6)) and np.all(theta <= o["theta_bounds"][1] * (1 + 1e-6)))
        F = trend(poly, Z)
        if l:
            F = np.hstack([trend(rho, Z) * mu(l - 1, Z), F])
        g = GLS(Z, Yn, kernel(corr, theta, Z, Z, pls), F, np.ones(len(Z)) * (nug + nz))
        g.Z, g.theta = Z, theta
        g.s2 = g.rss[0] / (len(Z) - F.shape[1])
        g.fcov = np.linalg.inv(F.T @ np.linalg.solve(g.R, F))
        worst = max(worst, g.cond)
        G.append(g)
    if worst > 1e11:
        raise Inconclusive("correlation system too ill-conditioned")
    tol = 1e-7 + 1e-15 * worst * 100 * 10 ** (levels - 1)
    if tol > 1e-3:
        raise Inconclusive("correlation system too ill-conditioned")
    want = mu(levels - 1, Q) * ys + ym
    sc = np.max(np.abs(want - ym)) + np.ptp(YA)
    rec.check("mean", bool(np.all(np.abs(mean - want) <= tol * sc)), "mean:" + name, "the prediction is not the autoregressive recursion", sig, got=mean, want=want, **det)
    for l in range(levels):
        if inter is not None:
            got = np.asarray(inter(q.copy(), l + 1))
            w = mu(l, Q) * ys + ym
            rec.check("level_mean", got.shape == w.shape and bool(np.all(np.abs(got - w) <= tol * sc)), "mean:%s:level" % name, "the prediction at level %d is not the autoregressive recursion" % l, sig + (l,), got=got, want=w, **det)
        w = mse(l, Q) * ys ** 2
        vt = tol * 30 * (np.max(np.abs(w)) + G[l].s2 * ys ** 2 * (1 + max([np.max(g.scale) for g in G[1:l + 1]] + [0])))
        rec.check("level_variance", bool(np.all(np.abs(MSE[:, l] - w) <= vt)), "variance:%s:level%d" % (name, min(l, 1)), "the variance at level %d is not the recursive variance" % l, sig + (l,), got=MSE[:, l], want=w, tol=float(vt), **det)
    rec.check("variance", bool(np.array_equal(var[:, 0], MSE[:, -1]) or np.allclose(var[:, 0], MSE[:, -1], rtol=1e-9)), "variance:last", "the variance is not that of the highest level", sig, **det)
    rec.check("scale", len(srho) == levels - 1 and all(np.allclose(srho[l - 1], G[l].scale, rtol=1e-5 + 100 * tol, atol=1e-9 + tol) for l in range(1, levels)), "scale", "the scale factors of the variance are wrong", sig, got=srho, want=[g.scale for g in G[1:] if hasattr(g, "scale")], **det)
    # ---- reproduces the data of every level
    if noise == "none":
        for l in range(levels):
            if l < levels - 1 and inter is None:
                continue
            got = s.predict_values(X[l].copy()) if l == levels - 1 else np.asarray(inter(X[l].copy(), l + 1))
            g = G[l]
            # what the nugget leaves over
            left = nug * np.max(np.abs(g.gamma)) * ys
            e = np.max(np.abs(got - Y[l]))
            rec.check("reproduces", e <= 3 * left + tol * sc, "reproduces:" + name, "level %d: training outputs are missed by %.2e of %.2e" % (l, e, sc), sig + (l,), **det)
        v = s.predict_variances(X[-1].copy())
        # nested: the lower levels are interpolated there as well
        if nested:
            lim = (sum(nug * g.s2 * np.prod([np.max(h.scale) for h in G[i + 1:]]) for i, g in enumerate(G)) * 3 + 30 * tol * max(g.s2 for g in G) * max([1.0] + [np.max(h.scale) for h in G[1:]])) * ys ** 2
            rec.check("zero_variance", bool(np.all(v <= lim)), "zero_variance:" + name, "the variance at the training points is %.2e (limit %.2e)" % (v.max(), lim), sig, **det)


def single(case, rec, rng):
    """one level, hyperparameters held fixed: kriging"""
    m, a = sm()
    d = int(rng.choice([1, 2, 3]))
    dat = Data(rng, 14 + 4 * d, d, 1)
    t = float(rng.choice([0.3, 1.0, 3.0]))
    corr = str(rng.choice(["squar_exp", "abs_exp", "matern52", "matern32"]))
    poly = str(rng.choice(["constant", "linear"]))
    o = dict(corr=corr, poly=poly, theta0=[t], theta_bounds=[t * (1 - 1e-9), t * (1 + 1e-9)], nugget=1e-9)
    k = m.KRG(print_global=False, **{q: (list(v) if isinstance(v, list) else v) for q, v in o.items()})
    f = a.MFK(print_global=False, **{q: (list(v) if isinstance(v, list) else v) for q, v in o.items()})
    for s in (k, f):
        s.set_training_values(dat.x, dat.y)
        with quiet():
            s.train()
    q = dat.points(rng, 10)
    with quiet():
        a_, b_ = f.predict_values(q), k.predict_values(q)
        va, vb = f.predict_variances(q), k.predict_variances(q)
    n, p = len(dat.x), 1 if poly == "constant" else d + 1
    sig = (corr, poly, d, t)
    rec.check("single_level", bool(np.all(np.abs(a_ - b_) <= 1e-5 * np.ptp(dat.y))), "single:mean", "a single level does not give the kriging prediction", sig, got=a_, want=b_, options=o)
    rec.check("single_level", bool(np.all(np.abs(va * (n - p) / n - vb) <= 1e-4 * vb + 1e-6 * np.max(vb))), "single:variance", "a single level does not give the kriging variance", sig, got=va, want=vb, options=o)


def edge(case, rec, rng):
    """smooth kernels at and near the training points, where the variance is a difference of nearly equal numbers"""
    a = sm()[1]
    d = int(rng.choice([1, 2]))
    levels = int(rng.choice([2, 3]))
    dat = Data(rng, 12, d, 1)
    t = float(10 ** rng.uniform(-2, 0.5))
    name = ("MFK", "MFKPLS", "MFKPLSK")[case["k"] % 3] if d > 1 else "MFK"
    kw = dict(n_comp=1) if name != "MFK" else {}
    corr = "squar_exp" if name == "MFKPLSK" else str(rng.choice(["squar_exp", "abs_exp"] + ["matern52", "matern32"] * (name == "MFK")))
    nug = float(rng.choice([0.0, 2e-14, 1e-9])) if corr == "squar_exp" else 0.0
    s = getattr(a, name)(print_global=False, corr=corr, theta0=[t], theta_bounds=[t * .5, t * 2], nugget=nug, rho_regr=str(rng.choice(["constant", "linear"])), **kw)
    X = [dat.to_x(lhs(rng, n, d)) for n in (26, 18, 12)[-levels:]]
    for i in range(1, levels):
        X[i] = X[i - 1][rng.permutation(len(X[i - 1]))[:len(X[i])]]
    for i, x in enumerate(X):
        y = dat.value(x) * (1 + .2 * i) + .1 * i * dat.ysc
        s.set_training_values(x.copy(), y, **({} if i == levels - 1 else dict(name=i)))
    try:
        with quiet():
            s.train()
    except Exception as e:
        raise Inconclusive("training refused: %s" % str(e)[:60])
    q = np.vstack(X + [X[0] + 1e-9 * np.ptp(dat.xlimits, axis=1)])
    with quiet():
        v = np.asarray(s.predict_variances(q.copy()))
        MSE = np.asarray(s.predict_variances_all_levels(q.copy())[0])
    rec.check("nonnegative", bool(np.all(np.isfinite(v)) and np.all(v >= 0) and np.all(np.isfinite(MSE)) and np.all(MSE >= 0)), "negative:" + name, "variances at the training points: least %r (all levels %r)" % (float(v.min()), float(MSE.min())),
              "edge %s %s d=%d levels=%d nugget=%g" % (name, corr, d, levels, nug))
