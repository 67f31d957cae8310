"""S02: interpolation at the training points, zero variance there, finite predictions everywhere."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"interpolates": 150, "zero_variance": 35, "finite": 300, "order": 10}
RULE = "distinct (model, options, inputs, outputs, size class, training order, data layout) in which reproduction of the training data was decided"
ASSUMPTIONS = ["kriging and RBF reproduction is undecided when the condition number of the interpolation system exceeds 1e10",
               "duplicate training inputs without noise are outside the property"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 200)
    out = []
    rep = 2 if tier == "quick" else 30

    def add(m, **k):
        out.append(dict(m=m, s=int(rng.integers(1 << 30)), **k))
    for r in range(rep):
        for name in ("KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK"):
            for corr in ("squar_exp", "abs_exp", "matern52", "matern32"):
                if name in ("KPLSK", "MFKPLSK") and corr != "squar_exp" or name in ("KPLS", "GEKPLS", "MFKPLS") and corr[0] == "m":
                    continue
                for poly in ("constant", "linear", "quadratic"):
                    for nl in ((1,) if name[0] != "M" else (2, 3)):
                        add("krig", name=name, corr=corr, poly=poly, nl=nl)
        for k in range(2):
            add("krig", name="KRG", corr=["abs_exp", "matern32", "matern52"][k], poly="constant", nl=1, big=1)
            add("krig", name="KPLS", corr="abs_exp", poly=["constant", "linear"][k], nl=1, big=1)
        for k in range(24):
            add("rbf", poly=[-1, 0, 1][k % 3], big=int(k % 8 == 7))
        for k in range(24):
            add("idw", big=int(k % 8 == 7))
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


ORDERS = ("as_is", "sorted", "reversed", "shuffled", "grid")


def arrange(rng, data):
    """training points in different orders and designs"""
    kind = str(rng.choice(ORDERS))
    x = data.x
    if kind == "sorted":
        x = x[np.argsort(x[:, 0])]
    elif kind == "reversed":
        x = x[np.argsort(-x[:, 0])]
    elif kind == "grid" and data.d <= 2:
        k = max(2, int(round(len(x) ** (1.0 / data.d))))
        g = np.meshgrid(*[np.linspace(0, 1, k)] * data.d, indexing="ij")
        x = data.to_x(np.stack([a.ravel() for a in g], 1))
    data.x, data.y = x, data.value(x)
    data.n = len(x)
    return kind


def probes(rng, data):
    """finite query points: near training points at every scale, on the boundary, far away"""
    x = data.x
    w = data.xlimits[:, 1] - data.xlimits[:, 0]
    P = [data.points(rng, 10), data.to_x(rng.integers(0, 2, (4, data.d)).astype(float)), data.to_x(rng.uniform(-2, 3, (6, data.d)))]
    for sc in (1e-3, 1e-6, 1e-9, 1e-12, 1e-14):
        P.append(x[rng.integers(0, len(x), 3)] + sc * w * rng.normal(size=(3, data.d)))
    P.append(np.nextafter(x[:2], np.inf))
    q = x[rng.integers(0, len(x), 2)].copy()
    q[:, 0] += np.array([1e-200, 1e-320])
    P.append(q)
    for sc in (1e2, 1e4, 1e8):
        P.append(data.to_x(sc * rng.normal(size=(2, data.d))))
    return np.vstack(P)


def check_repro(rec, s, data, tol, key, sig, sv=None, vtol=None, **kw):
    rng = kw.pop("rng")
    n = len(data.x)
    # ask for all points, a shuffled subset, single points
    for mode in ("all", "subset", "single"):
        idx = np.arange(n) if mode == "all" else rng.permutation(n)[:max(1, n // 2)] if mode == "subset" else rng.integers(0, n, 1)
        y = np.asarray(s.predict_values(data.x[idx].copy()))
        want = data.y[idx]
        if y.shape != want.shape:
            rec.violation("interp:shape:" + key, "predictions have shape %s instead of %s" % (y.shape, want.shape), sig=sig)
            return
        e = np.abs(y - want)
        good = bool(np.all(e <= tol))
        rec.check("interpolates", good, "interp:" + key, "training output not reproduced: off by up to %.3e (allowed %.1e) on a spread of %.3e" % (
            np.nanmax(e) if np.isfinite(e).any() else np.nan, np.max(tol), np.ptp(data.y)), sig + " " + mode, situation=sig, mode=mode, **kw)
    if sv is not None:
        v = np.asarray(s.predict_variances(data.x.copy()))
        rec.check("zero_variance", bool(np.all(np.abs(v) <= vtol)), "var0:" + key, "variance at a training point is %r (allowed %.1e)" % (float(np.nanmax(np.abs(v))), np.max(vtol)), sig, situation=sig, **kw)


def check_finite(rec, s, data, key, sig, rng, var=False, hull=False):
    P = probes(rng, data)
    y = np.asarray(s.predict_values(P.copy()))
    fin = np.isfinite(y)
    rec.ok("finite", sig, n=len(P))
    if not fin.all():
        i = int(np.argwhere(~fin)[0][0])
        rec.violation("finite:" + key, "prediction is %r at a finite point" % float(y[i, 0]), point=P[i], nearest=float(np.min(np.linalg.norm(data.x - P[i], axis=1))), situation=sig)
    if var:
        v = np.asarray(s.predict_variances(P.copy()))
        rec.check("finite_var", bool(np.isfinite(v).all()), "finite_var:" + key, "variance is not finite at a finite point", sig, situation=sig)
    return y


def krig(case, rec, rng):
    m, a = sm()
    name, corr, poly, nl = case["name"], case["corr"], case["poly"], case["nl"]
    d = int(rng.choice([1, 2, 3])) if "PLS" not in name else int(rng.choice([2, 3, 4]))
    ny = 1 if name in ("GEKPLS",) else int(rng.choice([1, 1, 2, 3]))
    if name[:2] == "MF" :
        ny = 1
    p = {"constant": 1, "linear": d + 1, "quadratic": (d + 1) * (d + 2) // 2}[poly]
    n = p + int(rng.integers(5, 16))
    if case.get("big"):
        n = int(rng.integers(143, 220))
        d, ny = 2, 1
    if name == "GEKPLS":
        n = min(n, 14) + p
    data = Data(rng, n, d, ny, rough=2.0)
    order = arrange(rng, data)
    th = 10 ** rng.uniform(0, 1.0)
    o = dict(corr=corr, poly=poly, theta0=[float(th)], theta_bounds=[0.05 * th, 20.0 * th], hyper_opt=str(rng.choice(["Cobyla", "TNC"])))
    if case.get("big"):
        o["theta0"] = [3.0]
        o["theta_bounds"] = [1.0, 30.0]
    if "PLS" in name:
        o["n_comp"] = int(rng.integers(1, d + 1)) if name != "GEKPLS" else int(rng.integers(1, 3))
    if name == "GEKPLS":
        o.update(delta_x=0.05, extra_points=int(rng.integers(0, 2)))
    if name[:2] == "MF":
        o["rho_regr"] = str(rng.choice(["constant", "linear", "quadratic"])) if n > 14 else "constant"
        if poly == "quadratic" and d > 2:
            o["rho_regr"] = "constant"
    s = make(name, d, data, **{k: (list(v) if isinstance(v, list) else v) for k, v in o.items()})
    sig = "%s %s %s nl=%d d=%d ny=%d %s %s" % (name, corr, poly, nl, d, ny, order, "big" if case.get("big") else "")
    lower = []
    try:
        if nl > 1:
            for lev in range(nl - 1):
                nlow = data.n + 6 * (nl - 1 - lev)
                x = data.to_x(lhs(rng, nlow, d))
                if rng.random() < .5:
                    x = np.vstack([data.x, x[: nlow - data.n]])  # nested
                y = data.value(x) * (0.6 + 0.2 * lev) + data.ysc * np.sin(5 * data.to_u(x)[:, :1])
                s.set_training_values(x, y, name=lev)
        s.set_training_values(data.x.copy(), data.y.copy())
        if name == "GEKPLS":
            for k in range(d):
                s.set_training_derivatives(data.x, data.deriv(data.x, k), k)
        with quiet():
            s.train()
    except Exception as e:
        if any(t in str(e) for t in ("ill conditioned", "undetermined", "attempts to train", "rank")):
            raise Inconclusive("training refused: %s" % str(e)[:60])
        raise
    # conditioning of the correlation matrix, from the model's hyperparameters
    if nl == 1:
        theta = np.asarray(s.optimal_theta, float).ravel()
        pls = s.coeff_pls if name in ("KPLS", "GEKPLS") else None
        Z, _, xo, xs, ym, ys = standard(data.x, data.y)
        if name == "GEKPLS":
            X = s.X_norma * s.X_scale + s.X_offset
            Z = (X - X.mean(0)) / X.std(0, ddof=1)
    else:
        theta = np.asarray(s.optimal_theta[-1], float).ravel()
        pls = s.coeff_pls if name == "MFKPLS" else None
        Z, _, xo, xs, ym, ys = standard(data.x, data.y)
    try:
        R = kernel(corr, theta, Z, Z, pls)
        cond = np.linalg.cond(R + 2.3e-14 * np.eye(len(R)))
    except Exception:
        raise Inconclusive("conditioning unknown")
    check_finite(rec, s, data, name, sig, rng, var=name not in ("MFKPLS", "MFKPLSK"))
    if cond > 1e9:
        rec.inconclusive("ill-conditioned")
        return
    spread = data.y.std(0) + 1e-3 * np.abs(data.y).max(0)
    if nl > 1:
        spread = spread * 100
    tol = spread * (1e-8 + 1e-13 * cond)
    var = nl == 1
    vtol = None
    if var:
        s2 = np.asarray(s.optimal_par["sigma2"], float).ravel()
        vtol = s2.max() * (1e-9 + 1e-13 * cond)
    check_repro(rec, s, data, tol, "%s:%s" % (name, poly), sig, sv=True if var else None, vtol=vtol, rng=rng, options=o)
    rec.sample(config=sig, options=o, cond=cond)


def rbf_matrix(x, d0, poly):
    D = ((x[:, None, :] - x[None, :, :]) / d0) ** 2
    A = np.exp(-D.sum(-1))
    n = len(x)
    cols = [np.ones((n, 1))] if poly >= 0 else []
    if poly >= 1:
        cols.append(x)
    if cols:
        Q = np.hstack(cols)
        A = np.block([[A, Q], [Q.T, np.zeros((Q.shape[1],) * 2)]])
    return A


def rbf(case, rec, rng):
    d = int(rng.choice([1, 2, 3, 5]))
    n = int(rng.integers(6, 40)) if not case["big"] else int(rng.integers(120, 200))
    ny = int(rng.choice([1, 2, 3]))
    data = Data(rng, n, d, ny, rough=2.0)
    order = arrange(rng, data)
    n = len(data.x)
    D = np.sqrt((((data.x[:, None] - data.x[None]) / (data.xlimits[:, 1] - data.xlimits[:, 0])) ** 2).sum(-1)) + 9 * np.eye(n)
    sep = float(np.median(D.min(1)))
    fac = float(rng.uniform(0.4, 1.6))
    d0 = fac * sep * (data.xlimits[:, 1] - data.xlimits[:, 0])
    if rng.random() < .3:
        d0 = float(np.min(d0))
    reg = float(rng.choice([0.0, 1e-10, 1e-10]))
    poly = case["poly"]
    A = rbf_matrix(data.x, d0, poly)
    try:
        cond = np.linalg.cond(A)
    except np.linalg.LinAlgError:
        raise Inconclusive("conditioning unknown")
    s = make("RBF", d, data, d0=(d0 if np.isscalar(d0) else list(d0)), poly_degree=poly, reg=reg)
    fit(s, data)
    sig = "RBF d=%d ny=%d poly=%d reg=%g %s %s" % (d, ny, poly, reg, order, "big" if case["big"] else "")
    check_finite(rec, s, data, "RBF", sig, rng)
    if cond > 1e10:
        raise Inconclusive("ill-conditioned")
    sc = np.abs(data.y).max(0)
    w = np.abs(np.linalg.solve(A, np.vstack([data.y, np.zeros((len(A) - n, ny))]))).max(0)
    tol = (2 * reg * w + 1e-9 * sc + 1e-14 * cond * sc + 1e-13 * w * n)
    check_repro(rec, s, data, tol, "RBF:%d" % poly, sig, rng=rng)
    # the order of the training points does not matter
    perm = rng.permutation(n)
    s2 = make("RBF", d, data, d0=(d0 if np.isscalar(d0) else list(d0)), poly_degree=poly, reg=reg)
    s2.set_training_values(data.x[perm], data.y[perm])
    with quiet():
        s2.train()
    P = data.points(rng, 12)
    y1, y2 = s.predict_values(P), s2.predict_values(P)
    rec.check("order", bool(np.all(np.abs(y1 - y2) <= 100 * tol + 1e-12 * cond * sc)), "order:RBF", "permuting the training points changed the prediction by %.2e" % np.max(np.abs(y1 - y2)), sig)


def idw(case, rec, rng):
    d = int(rng.choice([1, 2, 3, 5]))
    n = int(rng.integers(1, 40)) if not case["big"] else int(rng.integers(150, 400))
    ny = int(rng.choice([1, 2, 3]))
    data = Data(rng, n, d, ny, rough=2.0)
    order = arrange(rng, data)
    n = len(data.x)
    p = float(rng.choice([0.5, 1.0, 2.0, 2.5, 3.7, 6.0, 12.0, 40.0]))
    s = make("IDW", d, data, p=p)
    fit(s, data)
    sig = "IDW d=%d ny=%d p=%g %s %s" % (d, ny, p, order, "big" if case["big"] else "")
    y = check_finite(rec, s, data, "IDW", sig, rng)
    sc = np.abs(data.y).max(0)
    check_repro(rec, s, data, 1e-12 * sc + 1e-300, "IDW", sig, rng=rng)
    rec.check("weighted_mean", bool(np.all(y <= data.y.max(0) + 1e-9 * sc) and np.all(y >= data.y.min(0) - 1e-9 * sc)), "hull:IDW",
              "a weighted mean of the training outputs left their range", sig)
    perm = rng.permutation(n)
    s2 = make("IDW", d, data, p=p)
    s2.set_training_values(data.x[perm], data.y[perm])
    with quiet():
        s2.train()
    P = data.points(rng, 12)
    y1, y2 = s.predict_values(P), s2.predict_values(P)
    rec.check("order", bool(np.all(np.abs(y1 - y2) <= 1e-9 * sc)), "order:IDW", "permuting the training points changed the prediction", sig)
