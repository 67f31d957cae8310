"""S30: units, names and order of the data carry no information: other units, renumbered inputs or outputs and reordered points give the same answers in other clothes."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"values": 250, "derivatives": 120, "variances": 70, "output_derivatives": 12, "separate": 20}
RULE = "distinct (model, options, transformation) in which the answers were compared"
ASSUMPTIONS = ["hyperparameters of kriging are held by narrow bounds, so that the path of the optimiser is no part of the comparison",
               "options that carry units (radii, noise, domain, energy weights) are expressed in the same units as the data; the network, which starts from random weights, is only given other units that are powers of two, and splines and RBF without constant term are not shifted",
               "tolerance is measured by retraining with data that differ in the last digits; undecided above 1e-3 of the range of the answers"]
KR = ("KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS")
MODELS = KR + ("LS", "QP", "RBF", "IDW", "RMTB", "RMTC", "VFM", "GENN", "MOE1")
TRANS = {"LS": "y x rows columns outputs separate", "QP": "y x rows columns outputs separate", "RBF": "y x rows columns outputs separate", "IDW": "y x rows columns outputs separate",
         "RMTB": "y x rows columns outputs separate", "RMTC": "y x rows columns outputs separate", "KRG": "y x rows columns outputs", "KPLS": "y x rows columns", "KPLSK": "y x rows columns",
         "GEKPLS": "y x rows columns", "MFK": "y x rows columns", "MFKPLS": "y x rows columns", "VFM": "y x rows columns", "GENN": "y x", "MOE1": "y rows columns"}


def cases(tier, seed):
    rng = np.random.default_rng(seed + 3000)
    out = []
    for r in range(6 if tier == "quick" else 40):
        for name in MODELS:
            out.append(dict(model=name, s=int(rng.integers(1 << 30)), r=r))
    return out


class World:
    """training data, options and query points of one model in one system of units"""

    def copy(self):
        w = World()
        for k, v in vars(self).items():
            setattr(w, k, v.copy() if isinstance(v, (np.ndarray, dict)) else [u.copy() for u in v] if isinstance(v, list) and v and isinstance(v[0], np.ndarray) else v)
        w.o = {k: (v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v) for k, v in self.o.items()}
        return w

    def build(self):
        m, a = sm()
        kw = dict(OFF)
        kw.update({k: (v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v) for k, v in self.o.items()})
        n = self.name
        np.random.seed(5)
        if n == "VFM":
            s = a.VFM(name_model_LF=self.parts[0], name_model_bridge=self.parts[1], type_bridge=self.bridge, options_LF=dict(self.po[0], **OFF), options_bridge=dict(self.po[1], **OFF),
                      X_LF=self.X[0].copy(), y_LF=self.Y[0].copy(), X_HF=self.X[1].copy(), y_HF=self.Y[1].copy())
            with quiet():
                s._apply()
            return s
        if n == "MOE1":
            s = a.MOE(n_clusters=1, allow=["QP"], smooth_recombination=self.bridge)
            s.set_training_values(self.X[0].copy(), self.Y[0].copy())
            with quiet():
                s.train()
            return s
        s = getattr(a if n.startswith("MFK") else m, n)(**kw)
        for l in range(len(self.X)):
            s.set_training_values(self.X[l].copy(), self.Y[l].copy(), **({"name": l} if l < len(self.X) - 1 else {}))
        for k, g in enumerate(self.G):
            s.set_training_derivatives(self.X[0].copy(), g.copy(), k)
        with quiet():
            s.train()
        return s

    def jitter(self, rng):
        w = self.copy()
        e = lambda v: v * (1 + 2.0 ** -52 * rng.integers(-1, 2, v.shape))
        w.X, w.Y, w.G = [e(v) for v in w.X], [e(v) for v in w.Y], [e(v) for v in w.G]
        if "xlimits" in w.o:
            w.X = [np.clip(v, w.o["xlimits"][:, 0], w.o["xlimits"][:, 1]) for v in w.X]
        return w

    def answers(self, s):
        out = {}
        with quiet():
            out["values"] = np.array(s.predict_values(self.Q.copy()))
            if self.derivs:
                for k in range(self.d):
                    out["derivatives%d" % k] = np.array(s.predict_derivatives(self.Q.copy(), k))
            if self.name in KR:
                out["variances"] = np.array(s.predict_variances(self.Q.copy()))
            if self.name in ("RBF", "IDW"):
                out["output_derivatives"] = np.array(s.predict_output_derivatives(self.Q.copy())[None])
        return out


def world(name, rng):
    w = World()
    w.name = name
    d = int(rng.choice([1, 2, 3]))
    if "PLS" in name or name == "MOE1":
        d = int(rng.choice([2, 3]))
    if rng.random() < .1:
        d = 5
    if name.startswith("RMT"):
        d = int(rng.choice([1, 2]))
    ny = int(rng.choice([1, 2, 3])) if "outputs" in TRANS[name] else 1
    if name == "GENN":
        ny = int(rng.choice([1, 2]))
    n = (14 if d == 1 else 22) + int(rng.integers(0, 8))
    if name in ("QP", "MOE1"):
        n += 12
    if d == 5:
        n += 14
    dat = Data(rng, n, d, ny, rough=1.0, plain=True)
    w.d, w.ny = d, ny
    w.xl = dat.xlimits.copy()
    w.X, w.Y, w.G = [dat.x.copy()], [dat.y.copy()], []
    w.Q = dat.points(rng, 9)
    w.derivs = name not in ("MOE1",)
    o = {}
    if name in KR:
        t = float(rng.choice([.6, 1.0, 2.0])) * (1 if d > 1 else 3)
        o = dict(theta0=[t], theta_bounds=[t, t * (1 + 1e-9)], poly=str(rng.choice(["constant", "linear", "quadratic"] if name in ("KRG", "KPLS") else ["constant", "linear"])))
        o["corr"] = "squar_exp" if name in ("KPLSK", "MFK", "MFKPLS") or rng.random() < .5 else str(rng.choice(["abs_exp"] + ["matern52", "matern32"] * (name == "KRG")))
        w.derivs = o["corr"] == "squar_exp" and o["poly"] != "quadratic"
        if "PLS" in name:
            o["n_comp"] = int(rng.integers(1, d + 1)) if name not in ("GEKPLS",) else 1
        if name in ("KRG", "KPLS") and rng.random() < .3:
            o["noise0"] = [1e-3]
            w.noise = True
        if name == "GEKPLS":
            o.update(extra_points=int(rng.choice([0, 1])), delta_x=1e-2, xlimits=dat.xlimits.copy())
            w.G = [dat.deriv(dat.x, k) for k in range(d)]
        if name.startswith("MFK"):
            h = dat.x[rng.permutation(n)[:n // 2 + 2]]
            w.X.append(h.copy())
            w.Y.append(1.7 * dat.value(h) + .3 * h[:, :1] + .2 * np.sin(3 * h[:, -1:]))
            o["rho_regr"] = "constant" if rng.random() < .7 else "linear"
            w.derivs = o["rho_regr"] == "constant" and o["poly"] != "quadratic"
            o.pop("corr")
    elif name == "RBF":
        o = dict(d0=[float(v) for v in rng.uniform(.3, .7, d)], poly_degree=int(rng.choice([-1, 0, 1])))
    elif name == "IDW":
        o = dict(p=float(rng.choice([2.0, 2.5, 4.0])))
    elif name.startswith("RMT"):
        o = dict(xlimits=dat.xlimits.copy(), solver="lu", derivative_solver="lu", nonlinear_maxiter=2, approx_order=2, energy_weight=float(rng.choice([1e-4, 1e-2])), regularization_weight=1e-10, smoothness=[float(v) for v in rng.uniform(.5, 2, d)], extrapolate=True)
        o.update(dict(order=[3, 4][:d], num_ctrl_pts=[6, 7][:d]) if name == "RMTB" else dict(num_elements=[3, 2][:d]))
        if rng.random() < .4:
            w.G = [dat.deriv(dat.x, k) for k in range(d)]
            o["grad_weight"] = .5
    elif name == "VFM":
        w.parts = [str(v) for v in rng.choice(["KRG", "QP", "LS", "IDW"], 2)]
        w.bridge = str(rng.choice(["Additive", "Multiplicative"]))
        w.po = [dict(theta0=[1.0], theta_bounds=[1.0, 1.0 + 1e-9]) if p == "KRG" else {} for p in w.parts]
        h = np.vstack([dat.x[::2], dat.points(rng, 8)])
        w.X.append(h)
        w.Y = [w.Y[0] + 8, 1.2 * (dat.value(h) + 8) + .3 * h[:, :1]]
    elif name == "GENN":
        w.G = [dat.deriv(dat.x, k) for k in range(d)]
        o = dict(num_iterations=4, num_epochs=2, is_print=False, deep=2, wide=4, mini_batch_size=int(rng.choice([6, 64])), seed=int(rng.integers(100)), gamma=float(rng.choice([0.0, 1.0])), alpha=.05)
    elif name == "MOE1":
        w.bridge = bool(rng.random() < .5)
    w.o = o
    return w


def transform(w, kind, rng):
    """-> (other world, function from its answers to the answers of the first)"""
    v = w.copy()
    n = w.name
    if kind == "y":
        a = float(rng.choice([2.0 ** -7, 2.0 ** 9, 1e-4, 3e5, 1e-10, 1e12])) if n != "GENN" else float(2.0 ** rng.integers(-9, 9))
        b = float(rng.choice([0.0, 5.0, -20.0])) * a
        if n in ("RMTB", "RMTC", "GENN") or n == "RBF" and w.o["poly_degree"] < 0 or n == "VFM" and w.bridge == "Multiplicative":
            b = 0.0
        v.Y, v.G = [a * y + b for y in w.Y], [a * g for g in w.G]
        return v, lambda k, r: (r - b) / a if k == "values" else r / a if k.startswith("deriv") else r / a ** 2 if k == "variances" else r
    if kind == "x":
        if n == "GENN":
            c, e = 2.0 ** rng.integers(-8, 8, w.d), np.zeros(w.d)
        else:
            wide = 14 if rng.random() < .5 and n not in ("RMTB", "RMTC", "VFM", "MOE1") else 5
            c, e = 10.0 ** rng.uniform(-wide, wide, w.d), rng.uniform(-3, 3, w.d)
            e = e * c
        if n == "IDW" or n == "VFM" and "IDW" in w.parts:
            c, e = np.full(w.d, c[0]), e / c * c[0]
        if n == "RBF" and w.o["poly_degree"] == 1:
            c, e = 10.0 ** rng.uniform(-1, 1, w.d), e / c * .1
        v.X, v.Q, v.xl = [c * x + e for x in w.X], c * w.Q + e, (w.xl.T * c + e).T
        v.G = [g / c[k] for k, g in enumerate(w.G)]
        if "xlimits" in w.o:
            v.o["xlimits"] = v.xl.copy()
        if "d0" in w.o:
            v.o["d0"] = [float(q * c[k]) for k, q in enumerate(w.o["d0"])]
        if "smoothness" in w.o:
            v.o["smoothness"] = [float(q * c[k] ** 4) for k, q in enumerate(w.o["smoothness"])]
        if n.startswith("RMT") and w.G:  # the misfit of the derivatives carries the units of x: one weight for all inputs
            c1 = c[0]
            v.X, v.Q, v.xl = [c1 * x + e for x in w.X], c1 * w.Q + e, (w.xl.T * c1 + e).T
            v.G = [g / c1 for g in w.G]
            v.o.update(xlimits=v.xl.copy(), grad_weight=w.o["grad_weight"] * c1 ** 2, smoothness=[float(q * c1 ** 4) for q in w.o["smoothness"]])
            c = np.full(w.d, c1)
        if "xlimits" in v.o:
            v.X = [np.clip(x, v.o["xlimits"][:, 0], v.o["xlimits"][:, 1]) for x in v.X]
        return v, lambda k, r: r * c[int(k[11:])] if k.startswith("derivatives") else r
    if kind == "rows":
        ps = [rng.permutation(len(x)) for x in w.X]
        v.X, v.Y = [x[p] for x, p in zip(w.X, ps)], [y[p] for y, p in zip(w.Y, ps)]
        v.G = [g[ps[0]] for g in w.G]
        inv = np.argsort(ps[0])
        return v, lambda k, r: r[:, inv] if k == "output_derivatives" else r
    if kind == "columns":
        p = rng.permutation(w.d)
        if w.d > 1:
            while np.all(p == np.arange(w.d)):
                p = rng.permutation(w.d)
        v.X, v.Q, v.xl, v.G = [x[:, p].copy() for x in w.X], w.Q[:, p].copy(), w.xl[p], [w.G[k] for k in p] if w.G else []
        for k in ("xlimits", "d0", "smoothness", "order", "num_ctrl_pts", "num_elements"):
            if k in w.o:
                v.o[k] = w.o[k][p] if isinstance(w.o[k], np.ndarray) else [w.o[k][q] for q in p]
        inv = np.argsort(p)
        # answers of the other world: its derivative number inv[k] is ours number k
        v.rename = {"derivatives%d" % k: "derivatives%d" % inv[k] for k in range(w.d)}
        return v, lambda k, r: r
    p = rng.permutation(w.ny)
    if kind == "outputs":
        v.Y, v.G = [y[:, p].copy() for y in w.Y], [g[:, p].copy() for g in w.G]
        inv = np.argsort(p)
        return v, lambda k, r: r[..., inv] if r.shape[-1] == w.ny else r
    j = int(rng.integers(w.ny))
    v.Y, v.G, v.ny = [y[:, j:j + 1].copy() for y in w.Y], [g[:, j:j + 1].copy() for g in w.G], 1
    v.only = j
    return v, lambda k, r: r


def trained(w):
    try:
        return w.answers(w.build())
    except Exception as e:
        if any(t in str(e) for t in ("ill conditioned", "attempts to train", "undetermined", "unpack")):
            raise Inconclusive("training refused")
        raise


def run_case(case, rec):
    rng = case_rng(case)
    name = case["model"]
    w = world(name, rng)
    base = trained(w)
    shake = [trained(w.jitter(rng)) for _ in range(2)]
    for kind in TRANS[name].split():
        if kind == "columns" and w.d == 1 or kind in ("outputs", "separate") and w.ny == 1:
            continue
        v, back = transform(w, kind, rng)
        got = trained(v)
        shake2 = [trained(v.jitter(rng)) for _ in range(2)]
        sig = "%s %s d=%d ny=%d %s" % (name, kind, w.d, w.ny, {k: q for k, q in w.o.items() if k in ("corr", "poly", "poly_degree", "n_comp", "p", "rho_regr", "extra_points", "noise0")})
        if name == "VFM":
            sig += " %s %s" % (w.parts, w.bridge)
        for lab in base:
            src = getattr(v, "rename", {}).get(lab, lab)
            a, b = base[lab], back(lab, got[src])
            sel = (lambda r: r[..., v.only:v.only + 1] if r.shape[-1] > 1 else r) if hasattr(v, "only") else (lambda r: r)
            a = sel(a)
            if a.shape != b.shape:
                rec.check(lab.rstrip("0123456789"), False, "shape:%s:%s" % (name, kind), "answers of shape %s instead of %s" % (b.shape, a.shape), sig)
                continue
            noise = max([np.max(np.abs(sel(s[lab]) - a)) for s in shake] + [np.max(np.abs(back(lab, s[src]) - b)) for s in shake2])
            big = np.max(np.abs(a))
            size = max(np.ptp(a), .05 * big) if lab != "values" else max(np.ptp(a), 1e-3 * big)
            tol = 300 * noise + 1e-6 * size + 1e-11 * big
            if tol > 1e-3 * max(size, 1e-300) and tol > 1e-3 * big:
                rec.inconclusive("rounding of the training is too large")
                continue
            worst = float(np.max(np.abs(a - b)))
            mon = "separate" if kind == "separate" else lab.rstrip("0123456789")
            if lab == "variances":  # a difference of quantities of the size of the process variance
                tol += 1e-7 * big
            rec.check(mon, worst <= tol, "%s:%s:%s" % (kind, name, lab.rstrip("0123456789")), "in other clothes (%s) the %s differ by %.3e (allowed %.1e, size %.1e)" % (kind, lab, worst, tol, size), sig, options={k: str(q) for k, q in w.o.items()})
