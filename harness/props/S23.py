"""S23: correlation functions, distances and standardisation against their definitions."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"value": 100, "range": 100, "gradient": 100, "hessian": 80, "input_derivative": 30, "psd": 40, "symmetric": 40, "distance": 60, "standardised": 40, "inputs_kept": 200}
RULE = "distinct (kernel, number of pairs, components, derivative requested, kind of points)"
ASSUMPTIONS = ["kernels are those of the documentation with derivatives worked out by hand and cross-checked in the harness by complex steps", "positive semi-definiteness is judged up to rounding of the eigenvalues"]

CORR = ("squar_exp", "abs_exp", "matern52", "matern32")
SIZES = (1, 2, 7, 100, 9999, 10000, 10001, 10007, 19999, 20000, 20001, 30011)


def cases(tier, seed):
    rng = np.random.default_rng(seed + 2300)
    out = []

    def add(m, **k):
        out.append(dict(m=m, s=int(rng.integers(1 << 30)), **k))
    for r in range(2 if tier == "quick" else 20):
        for c in CORR + ("act_exp",):
            for n in SIZES:
                add("kernels", c=c, n=n)
            for k in range(4):
                add("matrix", c=c)
        for k in range(4):
            for c in CORR:
                add("inputs", c=c)
            for c in ("squar_exp", "abs_exp"):
                add("inputs", c=c, pls=True)
        for n in SIZES:
            add("distances", n=n)
        for k in range(3):
            add("crossed", big=k == 2)
        for k in range(20):
            add("standardise")
    return out


def ku():
    import smt.utils.kriging_utils as k
    return k


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


def phi(c, t, order=0):
    """one-dimensional correlation as a function of t = theta * d (d: distance component as used by the library, squared for squar_exp)"""
    if c in ("squar_exp", "abs_exp"):
        return (-1.0) ** order * np.exp(-t)
    if c == "matern32":
        k = np.sqrt(3.0)
        s = k * t
        return np.exp(-s) * ((1 + s), -k * s, k * k * (s - 1))[order]
    k = np.sqrt(5.0)
    s = k * t
    return np.exp(-s) * ((1 + s + s * s / 3), -k * (s + s * s) / 3, k * k * (s * s - s - 1) / 3)[order]


def ref(c, theta, d, i=None, j=None):
    if c == "act_exp":
        nc = d.shape[1]
        A = np.asarray(theta).reshape(-1, nc)
        z = d @ A.T
        r = np.exp(-0.5 * (z ** 2).sum(1))
        if i is None:
            return r
        ai, ci = divmod(i, nc)
        if j is None:
            return -z[:, ai] * d[:, ci] * r
        aj, cj = divmod(j, nc)
        return (z[:, ai] * z[:, aj] - (ai == aj)) * d[:, ci] * d[:, cj] * r
    P = [phi(c, theta[k] * d[:, k]) for k in range(d.shape[1])]
    for k in [q for q in (i, j) if q is not None]:
        P[k] = phi(c, theta[k] * d[:, k], [i, j].count(k)) * d[:, k] ** [i, j].count(k)
    return np.prod(P, 0)


def close(got, want, scale, tol=1e-11):
    got = np.asarray(got)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol * scale))


def kernels(case, rec, rng):
    c, n = case["c"], case["n"]
    f = getattr(ku(), c)
    nc = int(rng.integers(1, 6))
    nth = nc * int(rng.integers(1, nc + 1)) if c == "act_exp" else nc
    theta = 10.0 ** rng.uniform(-4, 1.2, nth)
    if c == "act_exp":
        theta = rng.normal(size=nth)
    d = np.abs(rng.normal(size=(n, nc))) * 10.0 ** rng.uniform(-2, .7, size=(n, 1))
    if c == "act_exp":
        d = d * rng.choice([-1, 1], size=(n, nc))
    if n > 1:
        d[rng.integers(n, size=max(1, n // 20))] = 0.0
        d[rng.integers(n, size=max(1, n // 20)), rng.integers(nc)] = 0.0
    d[-1] = 0.0
    th0, d0 = theta.copy(), d.copy()
    layout = str(rng.choice(["C", "F"]))
    da = np.asfortranarray(d) if layout == "F" else d
    sig = "%s n=%d nc=%d nth=%d %s" % (c, n, nc, nth, layout)
    with quiet():
        r = f(theta, da)
    want = ref(c, theta, d)[:, None]
    rec.check("value", close(r, want, 1.0), "value:" + c, "correlation differs from its formula", sig)
    ok = np.all(r >= 0) and np.all(r <= 1 + 1e-15) and np.all(r[np.all(d == 0, 1)] == 1.0)
    rec.check("range", bool(ok), "range:" + c, "correlation outside [0,1] or not one at zero distance", sig)
    # harness self-check: hand-made derivative equals the complex step
    i = int(rng.integers(nth))
    tc = theta.astype(complex)
    tc[i] += 1e-30j
    cs = ref(c, tc, d).imag / 1e-30
    if not np.allclose(cs, ref(c, theta, d, i), rtol=1e-8, atol=1e-10 * (np.abs(cs).max() + 1e-300)):
        rec.inconclusive("harness error: derivative formulas disagree")
        return
    for i in range(nth) if nth <= 6 else sorted(rng.choice(nth, 6, replace=False)):
        i = int(i)
        with quiet():
            g = f(theta, da, grad_ind=i)
        want = ref(c, theta, d, i)[:, None]
        sc = max(np.abs(want).max(), 1e-12, 1e-4 * np.abs(d[:, i % nc] * r[:, 0]).max())
        rec.check("gradient", close(g, want, sc, 1e-10), "gradient:" + c, "derivative of the correlation with respect to hyperparameter %d differs from its slope by %.2e of its size" % (i, np.abs(g - want).max() / sc if np.shape(g) == want.shape else -1), sig)
        for j in {i, int(rng.integers(nth))}:
            with quiet():
                h = f(theta, da, grad_ind=i, hess_ind=j)
            want = ref(c, theta, d, i, j)[:, None]
            sc = max(np.abs(want).max(), 1e-12, 1e-4 * np.abs(d[:, i % nc] * d[:, j % nc] * r[:, 0]).max())
            rec.check("hessian", close(h, want, sc, 1e-10), "hessian:" + c, "second derivative (%d,%d) differs from its definition by %.2e of its size" % (i, j, np.abs(h - want).max() / sc if np.shape(h) == want.shape else -1), sig + " %s" % (i == j))
    rec.check("inputs_kept", bool(np.array_equal(theta, th0) and np.array_equal(d, d0)), "mutates:" + c, "the correlation function changed its arguments", sig)
    with quiet():
        again = f(theta, da)
    rec.check("inputs_kept", bool(np.array_equal(again, r)), "stateful:" + c, "a second call gives another result", sig)
    if c == "act_exp" and nc > 1:
        # the same kernel written through embedded distances: identity embedding of d @ A.T
        A = theta.reshape(-1, nc)
        ns = len(A)
        du = d @ A.T
        e = np.eye(ns).ravel()
        with quiet():
            r2 = f(e, du, d_x=d)
        rec.check("value", close(r2, ref(c, theta, d)[:, None], 1.0), "embedded:act_exp", "correlation of embedded distances differs", sig + " embedded")
        i, j = (int(q) for q in rng.integers(nth, size=2))
        with quiet():
            g = f(e, du, grad_ind=i, d_x=d)
            h = f(e, du, grad_ind=i, hess_ind=j, d_x=d)
        for w, got, want in (("gradient", g, ref(c, theta, d, i)), ("hessian", h, ref(c, theta, d, i, j))):
            sc = max(np.abs(want).max(), 1e-12)
            rec.check(w, close(got, want[:, None], sc, 1e-10), "embedded-%s:act_exp" % w, "%s of embedded distances differs from its slope" % w, sig + " embedded")


def matrix(case, rec, rng):
    """correlation matrices of point sets, with duplicates and aligned points"""
    c = case["c"]
    k = ku()
    n, d = int(rng.integers(2, 45)), int(rng.integers(1, 6))
    kind = str(rng.choice(["random", "duplicates", "grid", "line"]))
    X = rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-1, .5)
    if kind == "duplicates":
        X[rng.integers(n, size=n // 2)] = X[0]
    elif kind == "grid":
        X = np.round(X)
    elif kind == "line":
        X = np.outer(rng.normal(size=n), rng.normal(size=d))
    pls = None
    if c in ("squar_exp", "abs_exp") and rng.random() < .4:
        nc = int(rng.integers(1, d + 1))
        pls = rng.normal(size=(d, nc))
    theta = 10.0 ** rng.uniform(-4, 1.2, d if pls is None else pls.shape[1])
    if c == "act_exp":
        theta = rng.normal(size=d * int(rng.integers(1, d + 1)))
    X0 = X.copy()
    with quiet():
        D, ij = k.cross_distances(X)
        D0 = D.copy()
        dd = k.componentwise_distance(D, c, d) if pls is None else k.componentwise_distance_PLS(D, c, pls.shape[1], pls)
        r = getattr(k, c)(theta, dd)
        full = k.differences(X, X)
        df = k.componentwise_distance(full, c, d) if pls is None else k.componentwise_distance_PLS(full, c, pls.shape[1], pls)
        rf = getattr(k, c)(theta, df).reshape(n, n)
    sig = "%s %s n=%d d=%d%s" % (c, kind, n, d, "" if pls is None else " pls%d" % pls.shape[1])
    R = np.eye(n)
    R[ij[:, 0], ij[:, 1]] = r[:, 0]
    R[ij[:, 1], ij[:, 0]] = r[:, 0]
    rec.check("symmetric", bool(np.abs(rf - rf.T).max() <= 1e-14 and np.abs(np.diag(rf) - 1).max() <= 1e-14 and np.abs(R - rf).max() <= 1e-13), "matrix:" + c, "matrix from pairwise distances is not the symmetric matrix of the correlation function", sig)
    w = ref(c, theta, full) if c == "act_exp" else kernel(c, theta, X, X, pls).ravel()
    rec.check("value", bool(np.abs(rf.ravel() - w).max() <= 1e-11), "between-points:" + c, "correlation between points differs from its definition", sig)
    e = np.linalg.eigvalsh(R)
    rec.check("psd", bool(e[0] >= -1e-13 * n * max(1, e[-1])), "psd:" + c, "correlation matrix has eigenvalue %r" % e[0], sig)
    rec.check("inputs_kept", bool(np.array_equal(X, X0) and np.array_equal(D, D0)), "mutates-distances:" + c, "a distance helper changed its argument", sig)


def inputs(case, rec, rng):
    """derivatives with respect to the inputs, through the same calls the models make"""
    c = case["c"]
    k = ku()
    n, d = int(rng.integers(1, 30)), int(rng.integers(1, 6))
    dx = rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-1.5, .5)
    if c != "abs_exp":
        dx[rng.integers(n), rng.integers(d)] = 0.0
    pls = None
    theta = 10.0 ** rng.uniform(-3, .8, d)
    with quiet():
        if case.get("pls"):
            nc = int(rng.integers(1, d + 1))
            pls = rng.normal(size=(d, nc))
            theta = theta[:nc]
            dist = k.componentwise_distance_PLS(dx, c, nc, pls)
            dd = k.componentwise_distance_PLS(dx, c, nc, pls, theta=theta, return_derivative=True)
        else:
            dist = k.componentwise_distance(dx, c, d)
            dd = k.componentwise_distance(dx, c, d, theta=theta, return_derivative=True)
        a = [theta.copy(), dist.copy(), dd.copy(), dx.copy()]
        r, dr = getattr(k, c)(theta, dist, derivative_params={"dx": dx, "dd": dd})
    rec.check("inputs_kept", all(np.array_equal(p, q) for p, q in zip(a, (theta, dist, dd, dx))), "mutates-inputs:" + c, "the correlation function changed its arguments", None)
    sig = "%s n=%d d=%d pls=%s" % (c, n, d, pls is not None and pls.shape[1])

    def val(q):
        if pls is None:
            return kernel(c, theta, q, np.zeros((1, d)))[:, 0]
        return kernel(c, theta, q, np.zeros((1, d)), pls)[:, 0]
    rec.check("value", close(r, val(dx)[:, None], 1.0), "value-with-derivative:" + c, "correlation differs from its formula", sig)
    # exact slopes, component by component
    want = np.zeros((n, d))
    sg = np.where(dx < 0, -1.0, 1.0)
    if c in ("squar_exp", "abs_exp"):
        wt = theta if pls is None else ((pls ** 2) @ theta if c == "squar_exp" else np.abs(pls) @ theta)
        inner = 2 * dx * wt if c == "squar_exp" else sg * wt
        want = -val(dx)[:, None] * inner
        if pls is None or c == "squar_exp" or c == "abs_exp":
            rec.check("distance", close(dd, inner, np.abs(inner).max() + 1e-300), "distance-derivative:" + c, "derivative of the weighted distance differs from its slope", sig)
    else:
        for j in range(d):
            t = [theta[q] * np.abs(dx[:, q]) for q in range(d)]
            P = [phi(c, t[q], int(q == j)) for q in range(d)]
            want[:, j] = np.prod(P, 0) * theta[j] * sg[:, j]
    rec.check("input_derivative", close(dr, want, np.abs(want).max() + 1e-300, 1e-10), "input-derivative:" + c, "derivative of the correlation with respect to the inputs differs from its slope", sig)


def distances(case, rec, rng):
    k = ku()
    n, d = case["n"], int(rng.integers(1, 5))
    D = rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-2, 2)
    D0 = D.copy()
    theta = 10.0 ** rng.uniform(-3, 1, d)
    for c in CORR + ("act_exp",):
        with quiet():
            g = k.componentwise_distance(D, c, d)
        want = D0 ** 2 if c == "squar_exp" else (D0 if c == "act_exp" else np.abs(D0))
        rec.check("distance", close(g, want, np.abs(want).max()), "componentwise:" + c, "componentwise distance differs from its definition", "%s n=%d d=%d" % (c, n, d))
    nc = int(rng.integers(1, d + 1))
    P = rng.normal(size=(d, nc))
    for c in ("squar_exp", "abs_exp"):
        with quiet():
            g = k.componentwise_distance_PLS(D, c, nc, P)
        want = (D0 ** 2) @ (P ** 2) if c == "squar_exp" else np.abs(D0) @ np.abs(P)
        rec.check("distance", close(g, want, np.abs(want).max()), "projected:" + c, "projected distance differs from its definition", "%s n=%d d=%d nc=%d" % (c, n, d, nc))
    rec.check("inputs_kept", bool(np.array_equal(D, D0)), "mutates-D", "a distance helper changed its argument", "distances n=%d" % n)


def crossed(case, rec, rng):
    k = ku()
    n, m, d = int(rng.integers(1, 40)), int(rng.integers(1, 40)), int(rng.integers(1, 5))
    if case["big"]:
        n, m = int(rng.integers(140, 230)), int(rng.integers(60, 160))
    X, Y = rng.normal(size=(n, d)), rng.normal(size=(m, d))
    X0, Y0 = X.copy(), Y.copy()
    if rng.random() < .3:
        X = np.asfortranarray(X)
    with quiet():
        D, ij = k.cross_distances(X)
        E = k.differences(X, Y)
    ij = np.asarray(ij)
    sig = "n=%d m=%d d=%d" % (n, m, d)
    pairs = [(int(a), int(b)) for a, b in ij]
    ok = D.shape == (n * (n - 1) // 2, d) and len(pairs) == len(set(frozenset(p) for p in pairs)) == n * (n - 1) // 2
    ok = ok and all(a != b for a, b in pairs) and (not pairs or np.array_equal(D, X0[ij[:, 0]] - X0[ij[:, 1]]))
    rec.check("distance", bool(ok), "cross-distances", "cross distances are not the differences of each pair once", "cross " + sig)
    want = (X0[:, None, :] - Y0[None, :, :]).reshape(-1, d)
    rec.check("distance", close(E, want, 10.0), "differences", "differences are not those of all pairs", "differences " + sig)
    rec.check("inputs_kept", bool(np.array_equal(X, X0) and np.array_equal(Y, Y0)), "mutates-X", "a distance helper changed its argument", "crossed " + sig)


def standardise(case, rec, rng):
    k = ku()
    n, d, ny = int(rng.integers(2, 40)), int(rng.integers(1, 6)), int(rng.integers(1, 4))
    X = rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-3, 3, d) + rng.choice([0.0, 1.0, -40.0], d)
    y = rng.normal(size=(n, ny)) * 10.0 ** rng.uniform(-3, 3, ny) + rng.choice([0.0, 7.0], ny)
    cx, cy = [], []
    if rng.random() < .5:
        cx = [int(rng.integers(d))]
        X[:, cx] = rng.choice([0.0, 0.1, 0.3, 1e6, -7.3])
    if rng.random() < .4:
        cy = [int(rng.integers(ny))]
        y[:, cy] = rng.choice([0.0, 0.1, 1e-3, 2.7])
    unit = bool(rng.random() < .4)
    X0, y0 = X.copy(), y.copy()
    with quiet():
        Z, w, xo, ym, xs, ys = k.standardization(X, y, scale_X_to_unit=unit) if unit else k.standardization(X, y)
    sig = "n=%d d=%d ny=%d unit=%s const x=%d y=%d" % (n, d, ny, unit, len(cx), len(cy))
    rec.check("inputs_kept", bool(np.array_equal(X, X0) and np.array_equal(y, y0)), "mutates-data", "standardisation changed its argument", sig)
    o = X0.min(0) if unit else X0.sum(0) / n
    s = np.ptp(X0, axis=0) if unit else np.sqrt(((X0 - o) ** 2).sum(0) / (n - 1))
    s[cx] = 1.0
    m = y0.sum(0) / n
    t = np.sqrt(((y0 - m) ** 2).sum(0) / (n - 1))
    t[cy] = 1.0
    sx, sy = np.abs(X0).max(0) + 1e-300, np.abs(y0).max(0) + 1e-300
    ok = np.allclose(xs, s, rtol=1e-8, atol=0) and np.allclose(ys, t, rtol=1e-8, atol=0) and np.all(np.abs(xo - o) <= 1e-12 * sx) and np.all(np.abs(ym - m) <= 1e-12 * sy)
    rec.check("standardised", bool(ok), "standardization-parameters", "offsets or scales are not mean/minimum and standard deviation/range (one for constants): scales %s instead of %s, %s instead of %s" % (xs, s, ys, t), sig)
    ok = np.all(np.abs(Z * s + o - X0) <= 1e-10 * sx) and np.all(np.abs(w * t + m - y0) <= 1e-10 * sy)
    rec.check("standardised", bool(ok), "standardization-data", "standardised data times scale plus offset is not the data", sig)
