"""S24: linear and quadratic models against an independent least-squares solution."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"orthogonal": 60, "optimal": 60, "recovers": 60, "order": 60, "equivariant": 60, "refuses": 8}
RULE = "distinct (model, dimension, number of points, outputs, kind of data, box)"
ASSUMPTIONS = ["tolerances scale with the condition number of the column-scaled basis; undecided beyond 1e9"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 2400)
    out = []
    for r in range(100 if tier == "quick" else 1500):
        for name in ("LS", "QP"):
            out.append(dict(m="fitted", name=name, s=int(rng.integers(1 << 30))))
    for r in range(12):
        out.append(dict(m="refuse", s=int(rng.integers(1 << 30))))
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


def basis(name, X):
    n, d = X.shape
    c = [np.ones(n)] + [X[:, i] for i in range(d)]
    if name == "QP":
        c += [X[:, i] * X[:, j] for i in range(d) for j in range(i, d)]
    return np.stack(c, 1)


def fitted_model(name, x, y):
    m, a = sm()
    s = getattr(m, name)(print_global=False)
    s.set_training_values(x.copy(), y.copy())
    with quiet():
        s.train()
    return s


def fitted(case, rec, rng):
    name = case["name"]
    d, ny = int(rng.integers(1, 7)), int(rng.integers(1, 4))
    p = d + 1 if name == "LS" else (d + 1) * (d + 2) // 2
    n = p + int(rng.choice([0, 1, 2, 5, 20, 60]))
    dat = Data(rng, n, d, ny, rough=2.0)
    kind = str(rng.choice(["smooth", "noise", "repeated", "big", "polynomial"]))
    x, y = dat.x, dat.y.copy()
    if kind == "noise":
        y = y + rng.normal(size=y.shape) * np.abs(y).max()
    elif kind == "repeated" and n > p + 4:
        x = x.copy()
        x[-2:] = x[:2]
    elif kind == "big":
        y = y * 1e7
    elif kind == "polynomial":
        y = basis(name, 2 * dat.to_u(x) - 1) @ rng.normal(size=(p, ny))
    B = basis(name, x)
    sc = np.linalg.norm(B, axis=0)
    sc[sc == 0] = 1
    cond = np.linalg.cond(B / sc)
    U = lambda q: basis(name, 2 * dat.to_u(q) - 1)
    condu = np.linalg.cond(U(x))
    if cond > 1e9 or condu > 1e5:
        raise Inconclusive("basis too ill-conditioned")
    s = fitted_model(name, x, y)
    xq = dat.points(rng, 8, margin=-0.3)
    with quiet():
        P, Q = s.predict_values(x), s.predict_values(xq)
    sig = "%s d=%d n=p+%d ny=%d %s cond=1e%d" % (name, d, n - p, ny, kind, int(np.log10(cond)))
    ysc = np.abs(y).max(0)
    if P.shape != y.shape:
        rec.violation("shape:" + name, "prediction has shape %s" % (P.shape,))
        return
    # growth of rounding errors: coefficients in raw coordinates can be cond times larger than the data
    tol = 1e-14 * cond * 50 * (1 + condu) + 1e-11
    res = P - y
    G = np.abs((B / sc).T @ res) / (np.sqrt(n) * ysc)
    rec.check("orthogonal", bool(G.max() <= tol), "orthogonal:" + name, "residual has relative component %.2e along basis function %d (allowed %.1e)" % (G.max(), int(np.argmax(G.max(1))), tol), sig)
    c = np.linalg.lstsq(U(x), y, rcond=None)[0]
    W, Wq = U(x) @ c, U(xq) @ c
    e = max((np.abs(P - W) / ysc).max(), (np.abs(Q - Wq) / np.maximum(ysc, np.abs(Wq).max(0))).max())
    rec.check("optimal", bool(e <= 10 * tol), "optimal:" + name, "prediction differs from the least-squares fit by %.2e (allowed %.1e)" % (e, 10 * tol), sig)
    if ny > 1:
        one = fitted_model(name, x, y[:, :1])
        with quiet():
            o = one.predict_values(xq)
        e = (np.abs(o - Q[:, :1]) / np.maximum(ysc[:1], np.abs(Q[:, :1]).max())).max()
        rec.check("optimal", bool(e <= 10 * tol), "per-output:" + name, "one output of several is fitted differently from the same output alone (%.2e)" % e, sig + " alone")
    # recovery of a polynomial of the class
    co = rng.normal(size=(p, ny)) * 10.0 ** rng.integers(-3, 4)
    yp = U(x) @ co
    sp = fitted_model(name, x, yp)
    with quiet():
        R = sp.predict_values(xq)
        D = [sp.predict_derivatives(xq, k) for k in range(d)]
    want = U(xq) @ co
    t = np.abs(want).max(0) + np.abs(yp).max(0)
    rec.check("recovers", bool((np.abs(R - want) / t).max() <= 10 * tol), "recovers:" + name, "a polynomial of the model's class is not reproduced: off by %.2e" % (np.abs(R - want) / t).max(), sig)
    for k in range(d):
        h = np.zeros(d)
        h[k] = dat.width(k) * 0.25
        dw = (U(xq + h) @ co - U(xq - h) @ co) / (2 * h[k])  # exact for degree two
        e = (np.abs(D[k] - dw) * dat.width(k) / t).max()
        rec.check("recovers", bool(e <= 30 * tol), "recovers-slope:" + name, "the slope of a polynomial of the model's class is not reproduced: off by %.2e" % e, sig + " slope")
    # order of the points
    q = rng.permutation(n)
    so = fitted_model(name, x[q], y[q])
    with quiet():
        O = so.predict_values(xq)
    t = np.maximum(ysc, np.abs(Q).max(0))
    rec.check("order", bool((np.abs(O - Q) / t).max() <= 10 * tol), "order:" + name, "the fit depends on the order of the training points (%.2e)" % (np.abs(O - Q) / t).max(), sig)
    a, b = float(rng.choice([-3.0, 1e-5, 2e4])), float(rng.choice([0.0, 5.0, -300.0])) * ysc.max()
    se = fitted_model(name, x, a * y + b)
    with quiet():
        E = se.predict_values(xq)
    e = (np.abs(E - (a * Q + b)) / (abs(a) * t + abs(b))).max()
    rec.check("equivariant", bool(e <= 10 * tol), "equivariant:" + name, "fit of a*y+b differs from a*fit+b by %.2e" % e, sig + " a=%g b=%g" % (a, b))


def refuse(case, rec, rng):
    """too few points for a quadratic"""
    d = int(rng.integers(1, 6))
    p = (d + 1) * (d + 2) // 2
    n = int(rng.integers(2, p))
    dat = Data(rng, n, d, 1)
    try:
        s = fitted_model("QP", dat.x, dat.y)
    except Exception:
        rec.ok("refuses", "d=%d n=%d" % (d, n))
        return
    with quiet():
        P = s.predict_values(dat.x)
    rec.check("refuses", bool(np.abs(P - dat.y).max() <= 1e-6 * np.abs(dat.y).max()), "too-few-points:QP", "quadratic model accepted %d points for %d coefficients" % (n, p), "d=%d n=%d" % (d, n))
