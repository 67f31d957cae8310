"""S04: output derivatives against retraining with perturbed training outputs."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"retrain": 120, "reproduces": 80, "retrain_nonlinear": 4, "weights_sum": 20}
RULE = "distinct (model, options, inputs, outputs, derivative data) in which the output derivatives were compared with retraining"
ASSUMPTIONS = ["RMTS: a direct solver is used wherever exactness is judged, so that the linear solve is not the limiting factor",
               "for approximation orders above 2 the reference is the numerical slope of retraining; undecided when it does not settle"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 400)
    out = []

    def add(m, **k):
        out.append(dict(m=m, s=int(rng.integers(1 << 30)), **k))
    for r in range(1 if tier == "quick" else 20):
        for k in range(24):
            add("plain", name="RBF", k=k)
            add("plain", name="IDW", k=k)
        for k in range(20):
            for name in ("RMTB", "RMTC"):
                add("rmts", name=name, k=k)
        for k in range(4):
            for name in ("RMTB", "RMTC"):
                add("nonlin", name=name, k=k)
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


def pts(rng, data):
    return np.vstack([data.points(rng, 6), data.x[rng.integers(0, len(data.x), 3)], data.to_x(rng.uniform(-.3, 1.3, (4, data.d)))])


def od(rec, s, P, n, ny, key, sig):
    dd = s.predict_output_derivatives(P.copy())
    D = np.asarray(dd[None], float)
    if D.shape != (len(P), n, ny):
        rec.violation("shape:" + key, "output derivatives have shape %s, expected %s" % (D.shape, (len(P), n, ny)), situation=sig)
        return None
    rec.check("finite", bool(np.isfinite(D).all()), "finite:" + key, "output derivatives are not finite", sig)
    return dd


def plain(case, rec, rng):
    name = case["name"]
    d, ny = int(rng.choice([1, 2, 3, 4])), int(rng.choice([1, 2, 3]))
    n = int(rng.integers(5, 40))
    data = Data(rng, n, d, ny, rough=2.0)
    w = data.xlimits[:, 1] - data.xlimits[:, 0]
    if name == "RBF":
        o = dict(poly_degree=int(rng.choice([-1, 0, 1])), reg=float(rng.choice([1e-10, 1e-3, 0.1])), d0=list(w * rng.uniform(0.5, 1.5) / n ** (1.0 / d)))
        D = ((data.x[:, None, :] - data.x[None, :, :]) / np.array(o["d0"])) ** 2
        cond = np.linalg.cond(np.exp(-D.sum(-1)) + o["reg"] * np.eye(n))
    else:
        o = dict(p=float(rng.choice([1.0, 2.0, 2.5, 5.0])))
        cond = 1.0
    if cond > 1e9:
        raise Inconclusive("ill-conditioned")
    sig = "%s d=%d ny=%d %s" % (name, d, ny, {k: v for k, v in o.items() if k != "d0"})
    s = fit(make(name, d, data, **dict(o)), data)
    P = pts(rng, data)
    y0 = s.predict_values(P)
    dd = od(rec, s, P, n, ny, name, sig)
    if dd is None:
        return
    D = np.asarray(dd[None])
    sc = np.abs(data.y).max() * (1 + np.abs(D).sum(1).max())
    tol = sc * (1e-9 + 1e-13 * cond)
    rec.check("reproduces", relok(np.einsum("ijk,jk->ik", D, data.y), y0, tol), "reproduces:" + name, "output derivatives times training outputs do not give the prediction", sig)
    for rep in range(2):
        V = rng.normal(size=data.y.shape) * np.abs(data.y).max()
        if rep == 0:  # a single training output of a single output column
            m = np.zeros_like(V)
            m[rng.integers(n), rng.integers(ny)] = 1
            V = V * m
        s2 = make(name, d, data, **{k: (list(v) if isinstance(v, list) else v) for k, v in o.items()})
        s2.set_training_values(data.x, data.y + V)
        with quiet():
            s2.train()
        rec.check("retrain", relok(np.einsum("ijk,jk->ik", D, V), s2.predict_values(P) - y0, 4 * tol), "retrain:" + name, "retraining with perturbed outputs changes the prediction differently", sig, n=P.shape[0])
    if name == "IDW":
        rec.check("weights_sum", relok(D.sum(1), np.ones((len(P), ny)), 1e-9), "weights:IDW", "weights do not sum to one", sig)


def relok(a, b, tol):
    return bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol))


def rmts_opts(rng, name, d, order):
    o = dict(approx_order=order, solver="lu", derivative_solver="lu", energy_weight=float(rng.choice([1e-4, 1e-2, 1.0])), regularization_weight=float(rng.choice([1e-8, 1e-4])),
             extrapolate=bool(rng.random() < .5), smoothness=[float(v) for v in rng.uniform(0.3, 3, d)], grad_weight=float(rng.choice([0.5, 0.1, 2.0])))
    if rng.random() < .15:
        o["min_energy"] = False
        o["regularization_weight"] = 1e-3
    if name == "RMTB":
        o["order"] = [int(v) for v in rng.integers(2 if not o.get("min_energy", True) else 3, 5, d)]
        o["num_ctrl_pts"] = [int(v) for v in rng.integers(5, 8 if d > 1 else 15, d)]
    else:
        o["num_elements"] = [int(v) for v in rng.integers(2, 4 if d > 1 else 7, d)]
    return o


def clone_opts(o):
    return {k: (list(v) if isinstance(v, list) else v) for k, v in o.items()}


def train_rmts(name, data, o, y, dy):
    s = make(name, data.d, data, **clone_opts(o))
    s.set_training_values(data.x, y)
    for k, v in dy.items():
        s.set_training_derivatives(data.x[: len(v)], v, k)
    with quiet():
        s.train()
    return s


def rmts(case, rec, rng):
    name = case["name"]
    d, ny = int(rng.choice([1, 2])), int(rng.choice([1, 2, 3]))
    n = int(rng.integers(6, 25))
    plainbox = bool(rng.random() < .6)
    data = Data(rng, n, d, ny, rough=2.0, plain=plainbox)
    base = 1e-6 if name == "RMTB" or plainbox else 3e-3  # the nodal slopes of RMTC are in units of x: badly scaled boxes lose digits
    o = rmts_opts(rng, name, d, 2)
    dy = {}
    if rng.random() < .5:
        for k in range(d):
            if rng.random() < .8:
                dy[k] = data.deriv(data.x, k)[: int(rng.integers(2, n + 1))]
    sig = "%s d=%d ny=%d derivs=%s %s" % (name, d, ny, sorted(dy), {k: v for k, v in o.items() if k not in ("smoothness",)})
    s = train_rmts(name, data, o, data.y, dy)
    P = pts(rng, data)
    if not o["extrapolate"]:
        P = P[:9]
    y0 = s.predict_values(P)
    dd = od(rec, s, P, n, ny, name, sig)
    if dd is None:
        return
    want = {None} | set(dy)
    if set(dd) != want:
        rec.violation("keys:" + name, "derivatives reported for %s, training data given for %s" % (sorted(map(str, dd)), sorted(map(str, want))), situation=sig)
        return
    D = {k: np.asarray(v) for k, v in dd.items()}
    full = np.einsum("ijk,jk->ik", D[None], data.y)
    mag = np.einsum("ijk,jk->ik", np.abs(D[None]), np.abs(data.y)).max()
    for k in dy:
        full = full + np.einsum("ijk,jk->ik", D[k], dy[k])
        mag = max(mag, np.einsum("ijk,jk->ik", np.abs(D[k]), np.abs(dy[k])).max())
    tol = base * (mag + np.abs(data.y).max())
    rec.check("reproduces", relok(full, y0, tol), "reproduces:" + name, "output derivatives times training data do not give the prediction: off by %.2e of %.2e" % (np.abs(full - y0).max(), mag), sig)
    for which in want:
        ref = data.y if which is None else dy[which]
        V = rng.normal(size=ref.shape) * (np.abs(ref).max() + 1e-3)
        y2 = data.y + V if which is None else data.y
        dy2 = {k: (v + V if k == which else v) for k, v in dy.items()}
        s2 = train_rmts(name, data, o, y2, dy2)
        got = np.einsum("ijk,jk->ik", D[which], V)
        act = s2.predict_values(P) - y0
        m = np.einsum("ijk,jk->ik", np.abs(D[which]), np.abs(V)).max()
        rec.check("retrain", relok(got, act, base * (m + np.abs(y0).max() + np.abs(act).max())), "retrain:" + name, "retraining with perturbed %s changes the prediction differently: off by %.2e of %.2e" % (
            "values" if which is None else "derivatives", np.abs(got - act).max(), np.abs(act).max()), sig, n=len(P))


def nonlin(case, rec, rng):
    """approximation order 4: implicit derivative of a converged nonlinear training"""
    name = case["name"]
    d, ny = 1, int(rng.choice([1, 2]))
    n = int(rng.integers(8, 16))
    data = Data(rng, n, d, ny, rough=1.5, plain=True)
    data.y = data.y + 0.3 * rng.normal(size=data.y.shape)
    o = rmts_opts(rng, name, d, 4)
    o.update(energy_weight=1.0, nonlinear_maxiter=60, solver_tolerance=1e-9, regularization_weight=1e-4, min_energy=True)
    sig = "%s nonlinear ny=%d" % (name, ny)
    P = data.points(rng, 6)
    s = train_rmts(name, data, o, data.y, {})
    dd = od(rec, s, P, n, ny, name, sig)
    if dd is None:
        return
    D = np.asarray(dd[None])
    V = rng.normal(size=data.y.shape)

    def f(T):
        return np.array([train_rmts(name, data, o, data.y + t[0] * V, {}).predict_values(P).ravel() for t in T])
    sl = ridders(f, np.zeros((1, 1)), 0, 0.05, ntab=6)
    an = np.einsum("ijk,jk->ik", D, V).ravel()[None, :]
    compare_slope(rec, "retrain_nonlinear", "retrain_nonlinear:" + name, an, sl, 1.0, sig, rtol=1e-3)
