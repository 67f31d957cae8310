"""S19: variable-fidelity models against their parts, built and trained separately on the same data with the same random state."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *
import zoo
from zoo import snapshot

MIN = {"values": 40, "derivatives": 40, "all_derivatives": 15, "interpolates": 12, "caller_values": 40, "refused": 8}
RULE = "distinct (low-fidelity model, bridge model, bridge type, trained with derivatives, given by name or class, query)"
ASSUMPTIONS = ["training uses numpy's global random state: the parts are trained in the same order from the same seed",
               "the derivatives of the parts are judged by S01", "multiplicative bridges are built where the low-fidelity prediction stays away from zero", "one output"]
CASE_LIMIT = 120
NAMES = ["KRG", "RBF", "IDW", "QP", "LS", "KPLS", "KPLSK", "RMTB", "RMTC", "GEKPLS"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 1900)
    out = []
    for i in range(64 if tier == "quick" else 900):
        out.append(dict(m="parts", s=int(rng.integers(1 << 30)), lf=NAMES[i % len(NAMES)] if i < 20 else str(rng.choice(NAMES)), b=str(rng.choice(NAMES)), k=i))
    for i in range(8 if tier == "quick" else 40):
        out.append(dict(m="refuse", s=int(rng.integers(1 << 30)), k=i))
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


def options(name, rng, d, xl, plain=False):
    o = dict(print_global=False)
    if name in ("KRG", "KPLS", "KPLSK", "GEKPLS"):
        o.update(theta0=[0.4], theta_bounds=[0.05, 10.0])
        if rng.random() < .5:
            o["poly"] = "linear"
        if name == "GEKPLS":
            o.update(xlimits=xl.copy(), n_comp=1, extra_points=1, delta_x=1e-2)
    if name == "RBF":
        o.update(d0=1.0, poly_degree=int(rng.choice([-1, 0, 1])))
    if name in ("RMTB", "RMTC"):
        o.update(xlimits=xl.copy(), derivative_solver="lu", nonlinear_maxiter=2, energy_weight=1e-6)
        o.update(dict(num_ctrl_pts=6, order=4) if name == "RMTB" else dict(num_elements=3))
    return o


def build(m, name, o):
    o = dict(o)
    o.pop("deriv", None)
    return getattr(m, name)(**o)


def train(s, x, y, dy=None):
    s.set_training_values(x.copy(), y.copy())
    if dy is not None:
        for k in range(x.shape[1]):
            s.set_training_derivatives(x.copy(), dy[:, k].copy(), k)
    with quiet():
        s.train()
    return s


def setup(rng, lf, b, d):
    xl = np.stack([np.zeros(d), np.ones(d)], 1)
    f = Fun(rng, d, 1, 1.0)
    g = Fun(rng, d, 1, .7)
    xlf = lhs(rng, 14 + 8 * d, d)
    xhf = np.vstack([xlf[: 4 + 2 * d], lhs(rng, 8 + 3 * d, d)])
    up = 9.0
    yl = lambda x: f(x) + up
    yh = lambda x: 1.3 * f(x) + 0.4 * g(x) + up - 2
    dl = lambda x: np.stack([f.grad(x, k)[:, 0] for k in range(d)], 1)
    dh = lambda x: np.stack([1.3 * f.grad(x, k)[:, 0] + 0.4 * g.grad(x, k)[:, 0] for k in range(d)], 1)
    return xl, xlf, xhf, yl, yh, dl, dh


def parts(case, rec, rng):
    m, a = sm()
    lf, b = case["lf"], case["b"]
    d = int(rng.choice([1, 2, 3, 1, 2, 3, 5]))
    if "PLS" in lf or "PLS" in b:
        d = max(d, 2)
    if lf.startswith("RMT") or b.startswith("RMT") or "GEKPLS" in (lf, b):
        d = 2 if "GEKPLS" in (lf, b) else min(d, 2)
    xl, xlf, xhf, yl, yh, dl, dh = setup(rng, lf, b, d)
    bt = str(rng.choice(["Additive", "Multiplicative"]))
    olf, ob = options(lf, rng, d, xl), options(b, rng, d, xl)
    canl, canb = lf in ("RMTB", "RMTC", "GEKPLS"), b in ("RMTB", "RMTC", "GEKPLS")
    L = canl and (lf == "GEKPLS" or rng.random() < .6)
    B = canb and (b == "GEKPLS" or rng.random() < .6)
    lf_derivs = getattr(m, lf)().supports["derivatives"]
    if B and not lf_derivs:
        raise Inconclusive("bridge derivatives need derivatives of the low-fidelity model")
    if B and lf in ("KRG", "KPLS", "GEKPLS") and olf.get("poly") == "quadratic":
        raise Inconclusive("no derivatives")
    if L or rng.random() < .3:
        olf["deriv"] = bool(L)
    if B or rng.random() < .3:
        ob["deriv"] = bool(B)
    kw = dict(type_bridge=bt, X_LF=xlf.copy(), y_LF=yl(xlf), X_HF=xhf.copy(), y_HF=yh(xhf))
    if L or rng.random() < .3:
        kw["dy_LF"] = dl(xlf)
    if B:
        kw["dy_HF"] = dh(xhf)
    byclass = bool(rng.random() < .3)
    kw.update(name_model_LF=getattr(m, lf) if byclass else lf, name_model_bridge=getattr(m, b) if byclass else b, options_LF=olf, options_bridge=ob)
    before = snapshot({k: v for k, v in kw.items() if not callable(v)})
    vfm = a.VFM(**kw)
    x = np.clip(lhs(rng, 7, d), 0.02, 0.98)
    sig = (lf, b, bt, L, B, byclass)
    det = dict(lf=lf, bridge=b, type=bt, deriv=[L, B], d=d)
    np.random.seed(11)
    first = str(rng.choice(["values", "derivs"]))
    with quiet():
        got = vfm.predict_values(x.copy()) if first == "values" else None
        if first == "derivs":
            try:
                vfm.predict_derivatives(x.copy(), 0)
            except Exception:
                pass
            got = vfm.predict_values(x.copy())
    # the parts
    np.random.seed(11)
    low = train(build(m, lf, olf), xlf, yl(xlf), dl(xlf) if L else None)
    with quiet():
        l = low.predict_values(xhf)
        yb = yh(xhf) - l if bt == "Additive" else yh(xhf) / l
        db = None
        if B:
            gl = np.stack([low.predict_derivatives(xhf, k)[:, 0] for k in range(d)], 1)
            db = dh(xhf) - gl if bt == "Additive" else (dh(xhf) * l - yh(xhf) * gl) / l ** 2
    bridge = train(build(m, b, ob), xhf, yb, db)
    with quiet():
        vl, vb = low.predict_values(x), bridge.predict_values(x)
    want = vl + vb if bt == "Additive" else vl * vb
    sc = np.max(np.abs(want))
    rec.check("values", got.shape == want.shape and bool(np.all(np.abs(got - want) <= 1e-7 * sc)), "values:" + bt, "the prediction is not the corrected low-fidelity prediction", sig, got=got, want=want, **det)
    after = snapshot({k: v for k, v in kw.items() if not callable(v)})
    rec.check("caller_values", before == after, "caller", "the caller's arrays or option dictionaries changed", sig, **det)
    derivs = low.supports["derivatives"] and bridge.supports["derivatives"]
    if derivs:
        want = []
        try:
            with quiet():
                for k in range(d):
                    dl_, db_ = low.predict_derivatives(x, k), bridge.predict_derivatives(x, k)
                    want.append(dl_ + db_ if bt == "Additive" else dl_ * vb + vl * db_)
        except (NotImplementedError, ValueError):
            derivs = False
    if derivs:
        gs = max(np.max(np.abs(w)) for w in want)
        with quiet():
            for k in range(d):
                g = vfm.predict_derivatives(x.copy(), k)
                rec.check("derivatives", g.shape == want[k].shape and bool(np.all(np.abs(g - want[k]) <= 1e-6 * gs)), "derivatives:" + bt, "derivatives do not follow the rule for the bridge", sig + (k,), got=g, want=want[k], kx=k, **det)
            g = vfm.predict_derivatives(x.copy(), None)
        w = np.stack([w[:, 0] for w in want], 1)
        rec.check("all_derivatives", g.shape == w.shape and bool(np.all(np.abs(g - w) <= 1e-6 * gs)), "all:" + bt, "derivatives for all inputs at once differ", sig, **det)
    elif not (low.supports["derivatives"] and bridge.supports["derivatives"]):
        err = None
        try:
            with quiet():
                vfm.predict_derivatives(x.copy(), 0)
        except Exception as e:
            err = e
        rec.check("refused", err is not None, "refused:derivatives", "derivatives were returned although a part has none", sig)
    if b in ("KRG", "RBF", "IDW", "KPLS", "KPLSK"):
        with quiet():
            e = np.max(np.abs(vfm.predict_values(xhf.copy()) - yh(xhf)))
            eb = np.max(np.abs(bridge.predict_values(xhf) - yb)) * (np.max(np.abs(l)) if bt != "Additive" else 1)
        s = np.ptp(yh(xhf))
        if eb > 1e-4 * s:
            rec.inconclusive("the bridge itself does not interpolate here")
        else:
            rec.check("interpolates", e <= 2 * eb + 1e-6 * s, "interpolates:" + bt, "high-fidelity data are not reproduced: error %.2e of %.2e" % (e, s), sig, **det)


def refuse(case, rec, rng):
    m, a = sm()
    d = 2
    xl, xlf, xhf, yl, yh, dl, dh = setup(rng, "KRG", "KRG", d)
    good = dict(X_LF=xlf, y_LF=yl(xlf), X_HF=xhf, y_HF=yh(xhf), options_LF=dict(print_global=False), options_bridge=dict(print_global=False), name_model_LF="QP", name_model_bridge="QP")
    bads = [dict(type_bridge="Other"), dict(name_model_LF="NOPE"), dict(name_model_bridge="NOPE"), dict(X_LF=None), dict(y_HF=None), dict(y_LF=yl(xlf)[:-1]), dict(y_HF=yh(xhf)[:-1])]
    for k, bkw in enumerate(bads):
        kw = dict(good)
        kw.update(bkw)
        kw = {k2: v for k2, v in kw.items() if v is not None}
        err = None
        try:
            with quiet():
                a.VFM(**kw).predict_values(xhf)
        except Exception as e:
            err = e
        rec.check("refused", err is not None, "refused:%d" % k, "an inconsistent specification was accepted: %r" % sorted(bkw), k)
