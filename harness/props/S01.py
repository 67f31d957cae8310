"""S01: predict_derivatives equals the slope of predict_values (numerical slope with an error estimate as oracle)."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"slope": 400, "refuses_or_correct": 10}
RULE = "distinct (model, options, inputs, outputs, data size, place) for which at least one slope comparison was decisive"
ASSUMPTIONS = ["numerical slope by Ridders extrapolation of the model's own predict_values; points where its error estimate exceeds 0.2% are undecided"]


def cases(tier, seed):
    rng = np.random.default_rng(seed)
    rep = 3 if tier == "quick" else 40
    out = []
    for r in range(rep):
        for name in ("LS", "QP", "RBF", "IDW", "RMTB", "RMTC", "KRG", "KPLS", "KPLSK", "GEKPLS", "GENN", "VFM", "MFK", "MFKPLS", "MFKPLSK"):
            k = 3 if name in ("KRG", "VFM", "RMTB", "RMTC", "MFK", "RBF", "QP") else 2
            for j in range(k):
                out.append({"m": "slope", "model": name, "s": int(rng.integers(1 << 30)), "v": r * 10 + j})
        for name in ("KRG", "KPLS", "MFK", "MFKPLS"):
            out.append({"m": "refuse", "model": name, "s": int(rng.integers(1 << 30)), "v": r})
    for big in range(1 if tier == "quick" else 6):
        for name in ("KRG", "RBF", "IDW", "RMTB"):
            out.append({"m": "slope", "model": name, "s": int(rng.integers(1 << 30)), "v": 0, "big": 1})
    return out


def build(case, rng):
    """-> (model, data, signature, corner kinds to probe)"""
    name = case["model"]
    v = case["v"]
    d = int(rng.choice([1, 2, 3, 5])) if name not in ("RMTB", "RMTC", "GEKPLS") else int(rng.choice([1, 2, 3]))
    ny = int(rng.choice([1, 1, 2, 3]))
    o = {}
    n = 8 + 5 * d
    derivs = False
    outside = True
    if case.get("big"):
        d, n, ny = 2, 160, 1
    if name == "LS":
        pass
    elif name == "QP":
        n = (d + 1) * (d + 2) // 2 + 5
    elif name == "RBF":
        o = dict(d0=float(rng.choice([0.3, 1.0, 3.0])), poly_degree=int(rng.choice([-1, 0, 1])), reg=1e-10)
    elif name == "IDW":
        o = dict(p=float(rng.choice([2.0, 2.5, 3.0, 4.5])))
    elif name == "RMTB":
        o = dict(order=int(rng.choice([3, 4])), num_ctrl_pts=int(rng.choice([6, 9])), nonlinear_maxiter=2,
                 energy_weight=1e-4, regularization_weight=1e-10)
        if rng.random() < .3:
            o["order"] = [int(rng.choice([3, 4])) for _ in range(d)]
            o["num_ctrl_pts"] = [int(rng.choice([5, 7, 8])) for _ in range(d)]
        if d == 3:
            o["num_ctrl_pts"] = 6
        if rng.random() < .3:
            o["approx_order"] = 4
        if rng.random() < .4:
            o["extrapolate"] = True
    elif name == "RMTC":
        o = dict(num_elements=int(rng.choice([2, 4])), nonlinear_maxiter=2, energy_weight=1e-4, regularization_weight=1e-10)
        if rng.random() < .3:
            o["num_elements"] = [int(rng.choice([1, 2, 3])) for _ in range(d)]
        if d == 3:
            o["num_elements"] = 2
        if rng.random() < .4:
            o["extrapolate"] = True
    elif name in ("KRG", "KPLS", "KPLSK", "GEKPLS"):
        ny = 1 if name == "GEKPLS" or rng.random() < .7 else ny
        o = kriging_opts(rng, name, d, poly=str(rng.choice(["constant", "linear"])), corr="squar_exp")
        if rng.random() < .3:
            o["theta0"] = [float(rng.choice([1e-2, 0.3, 1.0]))]
        if name == "KRG" and rng.random() < .2:
            o["eval_noise"] = True
        if name == "KRG" and rng.random() < .2:
            o["hyper_opt"] = "TNC"
        if name == "GEKPLS":
            d = max(d, 2)
            o["n_comp"] = int(rng.integers(1, 3))
            o.update(extra_points=int(rng.choice([0, 1])), delta_x=1e-2)
            derivs = True
        n = 10 + 4 * d
    elif name == "GENN":
        ny = int(rng.choice([1, 1, 2]))
        o = dict(num_iterations=4, num_epochs=2, is_print=False, deep=int(rng.choice([1, 2, 3])), wide=int(rng.choice([3, 8])),
                 mini_batch_size=int(rng.choice([5, 64])), seed=int(rng.integers(100)), gamma=float(rng.choice([0.0, 1.0])))
        derivs = True
    elif name == "VFM":
        ny = 1
    elif name.startswith("MFK"):
        ny = 1
    data = Data(rng, n, d, ny)
    if name == "RBF" and rng.random() < .7:
        # one length for each input, unequal in units of the domain
        o["d0"] = [float(data.width(k) * rng.choice([.2, .5, 1.0, 2.0])) for k in range(d)]
    if name == "RMTB" and d < 3 and rng.random() < .3:
        o["order"], o["num_ctrl_pts"] = [int(rng.choice([5, 6])) for _ in range(d)], 9
    if name == "VFM":
        a = sm()[1]
        lf = str(rng.choice(["KRG", "LS", "QP", "RBF", "KPLS", "IDW"]))
        br = str(rng.choice(["KRG", "LS", "QP", "RBF", "KPLS"]))
        opt = {"KRG": OFF, "LS": OFF, "QP": OFF, "KPLS": OFF, "RBF": dict(OFF, d0=[2.0 * float(data.width(i)) for i in range(d)], poly_degree=0), "IDW": OFF}
        nlf = max(n, (d + 1) * (d + 2) // 2 + 4)
        xl = data.to_x(lhs(rng, nlf, d))
        xh = data.to_x(lhs(rng, (d + 1) * (d + 2) // 2 + 3, d))
        tb = str(rng.choice(["Additive", "Multiplicative"]))
        off = (abs(data.value(xl)).max() + abs(data.ysc)) * 2
        s = a.VFM(name_model_LF=lf, name_model_bridge=br, type_bridge=tb, X_LF=xl, y_LF=data.value(xl) + off, X_HF=xh,
                  y_HF=1.3 * data.value(xh) + off + data.ysc * data.to_u(xh)[:, :1] ** 2,
                  options_LF=dict(opt[lf]), options_bridge=dict(opt[br]))
        o = dict(lf=lf, br=br, tb=tb)
        data.x = xh
        if not np.all(np.isfinite(s.predict_values(xh))):
            raise Inconclusive("VFM: the low-fidelity part vanishes at the high-fidelity points")
    elif name.startswith("MFK"):
        lv = int(rng.choice([2, 2, 3]))
        o = dict(poly=str(rng.choice(["constant", "linear"])), rho_regr="constant")
        if name != "MFK":
            o["n_comp"] = int(rng.integers(1, d + 1))
        o["theta0"] = [float(rng.choice([1e-1, 1.0]))] * (o.get("n_comp", d))
        if lv > 2:
            o["theta0"] = np.ones((lv, o.get("n_comp", d))) * .5
        s = make(name, d, data, **o)
        sizes = [24 + 4 * d, 14 + 3 * d, 10 + 3 * d][:lv]
        for i, m in enumerate(sizes[:-1]):
            xx = data.to_x(lhs(rng, m, d))
            s.set_training_values(xx, 0.6 * data.value(xx) + 0.2 * i * data.ysc * data.to_u(xx)[:, :1], name=i)
        xx = data.to_x(lhs(rng, sizes[-1], d))
        s.set_training_values(xx, data.value(xx))
        data.x = xx
        with quiet():
            s.train()
        o["levels"] = lv
    else:
        s = make(name, d, data, **o)
        fit(s, data, derivs)
    sig = "%s d=%d ny=%d %s" % (name, d, ny, sorted((k, str(np.asarray(x).tolist())) for k, x in o.items()))
    return s, data, sig


def run_case(case, rec):
    rng = case_rng(case)
    name = case["model"]
    if case["m"] == "refuse":
        return refuse(case, rec, rng)
    with quiet():
        try:
            s, data, sig = build(case, rng)
        except Exception as e:
            tr = getattr(e, "args", [""])
            if any(t in str(e) for t in ("ill conditioned", "undetermined", "attempts to train")):
                raise Inconclusive("training refused: %s" % str(e)[:60])
            raise
    d = data.d
    ne = int(rng.choice([1, 2, 5, 7]))
    if data.ny > 1 and rng.random() < .4:
        ne = data.ny
    if case.get("big"):
        ne = 130
    places = [("inside", data.points(rng, ne))]
    places.append(("outside", data.to_x(rng.uniform(-.35, 1.35, (ne, d)))))
    if name in ("RMTB", "RMTC"):
        # on element boundaries and on the domain boundary
        places.append(("boundary", data.to_x(rng.choice([0.0, 0.25, 0.5, 0.75, 1.0], (ne, d)))))
    if name in ("IDW", "RBF", "KRG", "QP"):
        places.append(("attrain", data.x[rng.integers(0, len(data.x), min(ne, 3))].copy()))
    near = {}
    if name in ("IDW", "RBF", "KRG", "KPLS", "VFM", "MFK"):
        # close to training points, at distances over several orders of magnitude
        r = float(10 ** rng.uniform(-4, -1.2))
        v = rng.normal(size=(3, d))
        near["near"] = r
        places.append(("near", data.x[rng.integers(0, len(data.x), 3)] + r * v / np.linalg.norm(v, axis=1)[:, None] * (data.xlimits[:, 1] - data.xlimits[:, 0])))

    def f(x):
        with quiet():
            return s.predict_values(x)
    for place, xe in places:
        for kx in range(d):
            h0 = min(0.03, .4 * near.get(place, 1.0)) * data.width(kx)
            sl = ridders(f, xe, kx, h0)
            xin = xe.copy()
            with quiet():
                an = s.predict_derivatives(xin, kx)
            if np.ndim(an) == 1:
                an = np.asarray(an).reshape(len(xe), -1)
            compare_slope(rec, "slope", "slope:%s" % name, an, sl, data.width(kx),
                          "%s n=%d %s kx=%d" % (sig, ne, place, kx), config=sig, place=place, kx=kx, x=xe[:3])
            if rec.viol:
                return
    if name == "VFM":
        with quiet():
            full = s.predict_derivatives(places[0][1], None)
            cols = np.hstack([s.predict_derivatives(places[0][1], k) for k in range(d)])
        rec.check("jacobian", full.shape == cols.shape and np.allclose(full, cols, rtol=1e-10, atol=0), "slope:VFM:jacobian",
                  "the full Jacobian differs from the single derivatives", sig=sig)


def refuse(case, rec, rng):
    """configurations without analytic derivative: error, or a correct value"""
    name = case["model"]
    d = int(rng.integers(1, 4))
    data = Data(rng, 16 + 4 * d + (d + 1) * (d + 2) // 2, d, 1)
    if name == "KRG":
        o = dict(poly=str(rng.choice(["constant", "quadratic"])), corr=str(rng.choice(["abs_exp", "matern32", "matern52"])))
        if rng.random() < .35:
            o = dict(poly="quadratic", corr="squar_exp")
    elif name == "KPLS":
        o = dict(corr="abs_exp", n_comp=1)
        if rng.random() < .5:
            o = dict(corr="squar_exp", n_comp=1, poly="quadratic")
    elif name == "MFK":
        o = dict(rho_regr=str(rng.choice(["constant", "linear"])), corr=str(rng.choice(["squar_exp", "abs_exp", "matern32"])), theta0=[.5] * d)
        if o["rho_regr"] == "constant" and o["corr"] == "squar_exp":
            o["poly"] = "quadratic"
    else:
        o = dict(corr="abs_exp", n_comp=1, theta0=[.5])
    s = make(name, d, data, **o)
    if name.startswith("MFK"):
        xx = data.to_x(lhs(rng, 40, d))
        s.set_training_values(xx, 0.5 * data.value(xx) + data.ysc * 0.1, name=0)
    fit(s, data)
    xe = data.points(rng, 4)
    sig = "%s %s d=%d" % (name, sorted(o.items(), key=str), d)
    for kx in range(d):
        try:
            with quiet():
                an = s.predict_derivatives(xe, kx)
        except (ValueError, NotImplementedError) as e:
            rec.ok("refuses_or_correct", sig)
            continue
        sl = ridders(lambda x: s.predict_values(x), xe, kx, 0.03 * data.width(kx))
        n0 = rec.counts.get("slope", 0)
        compare_slope(rec, "slope", "slope:%s:should-refuse" % name, np.asarray(an).reshape(len(xe), -1), sl, data.width(kx), sig, options=o)
        if rec.counts.get("slope", 0) > n0:
            rec.ok("refuses_or_correct", sig)
