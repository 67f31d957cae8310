"""S28: reduced kriging models against partial least squares and first-order data computed independently."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"reduced_mean": 60, "reduced_variance": 60, "enhanced_mean": 60, "enhanced_variance": 60, "multi_level": 20, "restart": 12, "refuses": 8}
RULE = "distinct (model, inputs, components, outputs, correlation, trend, extra points, step)"
ASSUMPTIONS = ["the selected hyperparameters (optimal_theta) are read from the model, directions and first-order data are recomputed from the training data",
               "with several outputs the directions are iterated by scikit-learn to 1e-6 (squared): compared with a looser tolerance, undecided when the two largest singular values are close",
               "gradient-enhanced models: only the first component is judged (around a point the data are linear, one component explains them)",
               "undecided when the correlation system is too ill-conditioned"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 2800)
    out = []
    for r in range(140 if tier == "quick" else 2500):
        out.append(dict(m="reduced", s=int(rng.integers(1 << 30))))
        out.append(dict(m="enhanced", s=int(rng.integers(1 << 30))))
        if r % 2 == 0:
            out.append(dict(m="levels", s=int(rng.integers(1 << 30))))
        if r % 3 == 0:
            out.append(dict(m="restart", s=int(rng.integers(1 << 30))))
    for r in range(9):
        out.append(dict(m="refuse", s=int(rng.integers(1 << 30))))
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


def rotations(X, Y, nc):
    """PLS2 rotations of the columns scaled to unit variance, and the worst ratio of the two largest singular values"""
    X = (X - X.mean(0)) / np.where(X.std(0, ddof=1) == 0, 1, X.std(0, ddof=1))
    Y = (Y - Y.mean(0)) / np.where(Y.std(0, ddof=1) == 0, 1, Y.std(0, ddof=1))
    W, P, ratio, left = [], [], 0.0, 1.0
    x0 = np.linalg.norm(X.T @ Y)
    for c in range(nc):
        u, sv, _ = np.linalg.svd(X.T @ Y)
        if len(sv) > 1:
            ratio = max(ratio, sv[1] / sv[0])
        left = min(left, sv[0] / x0)
        w = u[:, 0]
        t = X @ w
        p = X.T @ t / (t @ t)
        q = Y.T @ t / (t @ t)
        X = X - np.outer(t, p)
        Y = Y - np.outer(t, q)
        W.append(w)
        P.append(p)
    W, P = np.array(W).T, np.array(P).T
    return W @ np.linalg.inv(P.T @ W), ratio, left


def compare(rec, kind, s, X, Y, coef, o, sig, xe, loose):
    """mean and variance of a trained model against universal kriging with these directions"""
    Z, Yn, xo, xs, ym, ys = standard(X, Y)
    n = len(Z)
    theta = np.asarray(s.optimal_theta, float).ravel()
    if theta.size != coef.shape[1]:
        rec.violation("%s:theta" % kind, "%d hyperparameters for %d components" % (theta.size, coef.shape[1]), options=o)
        return

    def answer(cf):
        g = GLS(Z, Yn, kernel(o["corr"], theta, Z, Z, cf), trend(o["poly"], Z), np.ones(n) * o["nugget"])
        Ze = (xe - xo) / xs
        r, f = kernel(o["corr"], theta, Ze, Z, cf), trend(o["poly"], Ze)
        size = ys * ((np.abs(r) @ np.abs(g.gamma)).max() + np.abs(f @ g.beta).max()) + np.abs(ym)
        return ym + ys * g.mean(r, f), np.maximum(g.mse(r, f), 0)[:, None] * (g.rss / n * ys ** 2), g, size

    mean, var, g, size = answer(coef)
    tol = 1e-9 + 300 * 2.3e-16 * g.cond
    if loose:
        # sensitivity to the directions, along which they may be off
        rr = np.random.default_rng(0)
        dm = dv = 0.0
        for _ in range(4):
            m2, v2, _, _ = answer(coef + loose * rr.choice([-1, 1], size=coef.shape))
            dm, dv = np.maximum(dm, np.abs(m2 - mean).max(0)), np.maximum(dv, np.abs(v2 - var).max(0))
    else:
        dm = dv = 0.0
    spread = np.abs(mean - mean.mean(0)).max(0) + 1e-300
    s2 = g.rss / n * ys ** 2
    if tol > 1e-3 or np.any(tol * size + 4 * dm > .05 * spread) or np.any(4 * dv > .05 * s2):
        raise Inconclusive("ill-conditioned reference")
    with quiet():
        v, w = s.predict_values(xe), s.predict_variances(xe)
    if v.shape != mean.shape or w.shape != mean.shape:
        rec.violation("%s:shape" % kind, "shapes %s %s instead of %s" % (v.shape, w.shape, mean.shape), options=o)
        return
    rec.check(kind + "_mean", bool(np.all(np.abs(v - mean) <= tol * size + 4 * dm)), kind + ":mean",
              "prediction differs from kriging along the least-squares directions by %.3g (range %.3g)" % (np.abs(v - mean).max(), spread.max()), sig, options=o)
    rec.check(kind + "_variance", bool(np.all(np.abs(w - var) <= 10 * tol * s2 + 4 * dv)), kind + ":variance",
              "variance differs from kriging along the least-squares directions by %.3g (process variance %.3g)" % (np.abs(w - var).max(), s2.max()), sig, options=o)


def train(s, data, rec, derivs=False):
    try:
        fit(s, data, derivs)
    except Exception as e:
        if any(t in str(e) for t in ("ill conditioned", "undetermined", "attempts to train")):
            raise Inconclusive("training refused: %s" % str(e)[:60])
        raise
    return s


def reduced(case, rec, rng):
    d = int(rng.choice([1, 2, 3, 5, 8]))
    ny = int(rng.choice([1, 1, 1, 2]))
    poly = str(rng.choice(["constant", "linear"]))
    n = d + 2 + int(rng.integers(6, 25))
    data = Data(rng, n, d, ny, rough=.8)
    o = dict(corr=str(rng.choice(["squar_exp", "abs_exp"])), poly=poly, n_comp=int(rng.integers(1, d + 1)), theta0=[float(rng.choice([.1, 1.0]))],
             theta_bounds=[1e-2, 20.0], nugget=float(rng.choice([1e-10, 1e-6])))
    coef, ratio, left = rotations(data.x, data.y, o["n_comp"])
    if left < 1e-4 or ratio > .8:
        raise Inconclusive("directions not determined well")
    s = train(make("KPLS", d, data, **o), data, rec)
    xe = np.vstack([data.points(rng, 8), data.to_x(rng.uniform(-.2, 1.2, (3, d)))])
    loose = 1e-6 + (2e-3 / (1 - ratio) if ny > 1 else 1e-12 / left)
    compare(rec, "reduced", s, data.x, data.y, coef, o, "KPLS d=%d nc=%d ny=%d %s %s" % (d, o["n_comp"], ny, o["corr"], poly), xe, loose)


def enhanced(case, rec, rng):
    d = int(rng.choice([1, 2, 2, 3, 4, 6]))
    ny = int(rng.choice([1, 1, 1, 2]))
    n = d + 2 + int(rng.integers(5, 14))
    data = Data(rng, n, d, ny, rough=.8)
    m = int(rng.choice([0, 1, min(2, d), d]))
    o = dict(corr=str(rng.choice(["squar_exp", "abs_exp"])), poly=str(rng.choice(["constant", "linear"])), n_comp=1, theta0=[float(rng.choice([.1, 1.0]))],
             theta_bounds=[5e-2, 20.0], nugget=float(rng.choice([1e-8, 1e-6])), delta_x=float(rng.choice([1e-3, 1e-2, 5e-2])), extra_points=m)
    width = data.xlimits[:, 1] - data.xlimits[:, 0]
    step = o["delta_x"] * width
    G = np.stack([data.deriv(data.x, k) for k in range(d)], 1)          # point, input, output
    S = G * step[None, :, None]
    norm = np.sqrt((S ** 2).sum(1, keepdims=True))
    if np.any(norm < 1e-7 * np.abs(data.y).max()):
        raise Inconclusive("flat at a training point")
    C, ratio = [], 0.0
    for i in range(n):
        u, sv, _ = np.linalg.svd(S[i] / norm[i], full_matrices=False)
        ratio = max(ratio, sv[1] / sv[0] if len(sv) > 1 else 0.0)
        C.append(np.abs(u[:, 0]))
    C = np.array(C)
    if ratio > .8:
        raise Inconclusive("directions not determined well")
    loose = 1e-7 + 1e-14 * np.abs(data.y).max() / norm.min() + 1e-14 * (np.abs(data.x).max(0) / step).max() + (2e-3 / (1 - ratio) if ny > 1 else 0)
    X, Y = [data.x], [data.y]
    for i in range(n):
        order = np.argsort(-C[i])
        if 0 < m < d and C[i][order[m - 1]] - C[i][order[m]] < 10 * loose:
            raise Inconclusive("variables of equal influence")
        for j in order[:m]:
            e = np.zeros(d)
            e[j] = step[j]
            X.append(data.x[i:i + 1] + e)
            Y.append(data.y[i:i + 1] + S[i, j][None])
    s = train(make("GEKPLS", d, data, **o), data, rec, True)
    xe = np.vstack([data.points(rng, 8), data.to_x(rng.uniform(-.2, 1.2, (3, d)))])
    compare(rec, "enhanced", s, np.vstack(X), np.vstack(Y), C.mean(0)[:, None], o,
            "GEKPLS d=%d ny=%d m=%d step=%g %s %s" % (d, ny, m, o["delta_x"], o["corr"], o["poly"]), xe, loose)


def levels(case, rec, rng):
    """the directions of multi-fidelity models are those of the highest level"""
    name = "MFKPLS"
    d = int(rng.choice([2, 3, 5]))
    nl = int(rng.choice([2, 3]))
    nc = int(rng.integers(1, d + 1))
    hi = Data(rng, d + 4 + int(rng.integers(4, 10)), d, 1, rough=.8)
    coef, ratio, left = rotations(hi.x, hi.y, nc)
    if left < 1e-4:
        raise Inconclusive("directions not determined well")
    s = make(name, d, None, n_comp=nc, theta0=[1.0] * nc, theta_bounds=[1e-2, 20.0])
    for l in range(nl - 1):
        f = Fun(rng, d, 1, .8)
        x = np.vstack([hi.x, hi.points(rng, 4 * (nl - l))])
        s.set_training_values(x, f(2 * hi.to_u(x) - 1) * hi.ysc, name=l)
    s.set_training_values(hi.x, hi.y)
    with quiet():
        s.train()
    got = getattr(s, "coeff_pls", None)
    if got is None:
        raise Inconclusive("directions not reported")
    rec.check("multi_level", got.shape == coef.shape and bool(np.all(np.abs(np.abs(got) - np.abs(coef)) <= 1e-6 + 1e-12 / left)), "levels",
              "directions are not those of the data of the highest level", "%s d=%d nc=%d levels=%d" % (name, d, nc, nl), got=np.asarray(got).tolist(), want=coef.tolist())


def restart(case, rec, rng):
    """a KPLSK model is at least as likely as the KPLS model it starts from"""
    d = int(rng.choice([2, 3, 5]))
    n = 3 * d + int(rng.integers(8, 20))
    data = Data(rng, n, d, 1, rough=.8)
    o = dict(poly="constant", corr="squar_exp", n_comp=int(rng.integers(1, min(d, 3) + 1)), theta0=[.3], theta_bounds=[1e-3, 20.0], nugget=1e-8)
    het = case["s"] % 2 == 0
    if het:   # noise estimated from repeated points
        o.update(eval_noise=True, use_het_noise=True, noise0=[1e-3], nugget=0.0)
        rep = rng.integers(0, n, n // 2)
        data.x, data.y = np.vstack([data.x, data.x[rep]]), np.vstack([data.y, data.y[rep]])
        data.y = data.y + 0.05 * data.ysc * rng.normal(size=data.y.shape)
    coef, ratio, left = rotations(data.x, data.y, o["n_comp"])
    if left < 1e-4:
        raise Inconclusive("directions not determined well")
    lik = []
    Z, Yn = standard(data.x, data.y)[:2]
    nz = o["nugget"] * np.ones(len(Z))
    if het:
        Z, inv, cnt = np.unique(Z, axis=0, return_inverse=True, return_counts=True)
        of = [Yn[np.ravel(inv) == i] for i in range(len(Z))]
        Yn = np.array([v.mean(0) for v in of])
        nz = np.array([v.std(ddof=1) ** 2 if len(v) > 1 else 1e-3 for v in of]) / cnt
    for name in ("KPLS", "KPLSK"):
        np.random.seed(case["s"] % 1000)
        s = train(make(name, d, data, **{k: list(v) if isinstance(v, list) else v for k, v in o.items()}), data, rec)
        th = np.asarray(s.optimal_theta, float).ravel()
        if name == "KPLS":
            th = (th * coef ** 2).sum(1)
            if np.any(th < 1e-3) or np.any(th > 20.0):
                raise Inconclusive("the hyperparameters of the reduced model are outside the bounds")
        g = GLS(Z, Yn, kernel("squar_exp", th, Z, Z), np.ones((len(Z), 1)), nz)
        if g.cond > 1e11:
            raise Inconclusive("ill-conditioned reference")
        lik.append(g.loglik())
    rec.check("restart", lik[1] >= lik[0] - 1e-4 * (1 + abs(lik[0])), "restart", "KPLSK has the likelihood %.6g, the KPLS model it starts from %.6g" % (lik[1], lik[0]),
              "d=%d nc=%d het=%s" % (d, o["n_comp"], het), options=o)


def refuse(case, rec, rng):
    d = int(rng.choice([2, 3]))
    data = Data(rng, 10, d, 1)
    how = ["other points", "reordered", "missing"][case["s"] % 3]
    s = make("GEKPLS", d, data, delta_x=1e-2)
    s.set_training_values(data.x, data.y)
    for k in range(d):
        x, g = data.x, data.deriv(data.x, k)
        if k == d - 1:
            if how == "missing":
                continue
            x = data.points(rng, 10) if how == "other points" else data.x[::-1]
        s.set_training_derivatives(x, g, k)
    try:
        with quiet():
            s.train()
        ok = False
    except Exception:
        ok = True
    rec.check("refuses", ok, "refuse:" + how, "derivatives with %s were accepted" % how, "%s d=%d" % (how, d))
