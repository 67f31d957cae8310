"""Every model of the package behind one face: build with copies of its options, load training data, train, query."""
import copy
import numpy as np
from core import quiet
from lib import *

NAMES = ["LS", "QP", "RBF", "IDW", "RMTB", "RMTC", "KRG", "KPLS", "KPLSK", "GEKPLS", "GENN", "MGP", "MFK", "MFKPLS", "MFKPLSK", "VFM", "MOE", "MOESM", "MIX"]
SURR = [n for n in NAMES if n not in ("VFM", "MOE")]  # SurrogateModel interface proper
EXACT = {"LS", "QP", "RBF", "IDW", "RMTB", "RMTC"}  # training without an iterative search


def copied(o):
    return {k: (list(v) if isinstance(v, list) else v.copy() if isinstance(v, (dict, np.ndarray)) else v) for k, v in o.items()}


class Spec:
    """name + options; data sets are drawn separately so that the same model can be loaded with different data"""

    def __init__(self, name, rng, d=None, ny=None, light=True):
        self.name = name
        self.rng = rng
        self.d = d or int(rng.choice([1, 2, 3]))
        self.ny = ny or int(rng.choice([1, 1, 2, 3]))
        self.derivs = False
        self.levels = 1
        o = {}
        if name in ("GEKPLS", "MGP", "MFK", "MFKPLS", "MFKPLSK", "VFM", "MOE", "MOESM", "MIX"):
            self.ny = 1
        if "PLS" in name:
            self.d = max(2, self.d)
        if name == "MGP":
            self.d = max(2, self.d)
        d = self.d
        if name == "RBF":
            o = dict(d0=float(rng.choice([0.3, 1.0])), poly_degree=int(rng.choice([-1, 0, 1])))
        elif name == "IDW":
            o = dict(p=float(rng.choice([2.0, 2.5, 4.0])))
        elif name == "RMTB":
            self.d = d = min(d, 2)
            o = dict(num_ctrl_pts=6, order=3, nonlinear_maxiter=2, energy_weight=1e-4, extrapolate=bool(rng.random() < .5), solver=str(rng.choice(["lu", "krylov", "krylov-dense"])))
            self.derivs = bool(rng.random() < .4)
            o["derivative_solver"] = "lu"
        elif name == "RMTC":
            self.d = d = min(d, 2)
            o = dict(num_elements=3, nonlinear_maxiter=2, energy_weight=1e-4, extrapolate=bool(rng.random() < .5), derivative_solver="lu")
            self.derivs = bool(rng.random() < .4)
        elif name in ("KRG", "KPLS", "KPLSK", "GEKPLS"):
            o = kriging_opts(rng, name, d, poly=str(rng.choice(["constant", "linear"])), corr="squar_exp" if rng.random() < .5 else None)
            o.update(theta0=[0.5], theta_bounds=[0.05, 10.0], hyper_opt=str(rng.choice(["Cobyla", "TNC"])))
            if name == "GEKPLS":
                self.derivs = True
                o.update(extra_points=int(rng.choice([0, 1])), delta_x=1e-2)
            if name == "KRG" and rng.random() < .3:
                o["eval_noise"] = True
        elif name == "MGP":
            o = dict(n_comp=int(rng.integers(1, d)), theta0=[1.0], poly=str(rng.choice(["constant", "linear"])), nugget=1e-6)
        elif name == "GENN":
            self.derivs = True
            o = dict(num_iterations=3, num_epochs=2, is_print=False, deep=2, wide=4, mini_batch_size=int(rng.choice([6, 64])), seed=int(rng.integers(100)), gamma=float(rng.choice([0.0, 1.0])))
        elif name.startswith("MFK"):
            self.levels = int(rng.choice([1, 2, 2, 3])) if name == "MFK" else 2
            self.levels = max(2, self.levels)
            o = dict(theta0=[0.5], theta_bounds=[0.05, 10.0], rho_regr=str(rng.choice(["constant", "linear"])), poly=str(rng.choice(["constant", "linear"])))
            if name != "MFK":
                o["n_comp"] = int(rng.integers(1, d + 1))
            o["corr"] = "squar_exp"
        elif name == "VFM":
            self.mod_LF, self.mod_B = str(rng.choice(["KRG", "QP", "RBF", "LS"])), str(rng.choice(["KRG", "RBF", "QP"]))
            o = dict(type_bridge=str(rng.choice(["Additive", "Multiplicative"])))
        elif name in ("MOE", "MOESM"):
            o = dict(n_clusters=int(rng.choice([1, 2])), smooth_recombination=bool(rng.random() < .5), allow=[str(v) for v in rng.choice(["KRG", "KPLS", "RBF", "IDW", "LS", "QP"], 2, replace=False)])
            if rng.random() < .5:
                o.update(variances_support=True, allow=["KRG"])
        elif name == "MIX":
            self.inner = str(rng.choice(["KRG", "RBF", "QP"]))
            self.d = d = 3
            self.folded = bool(rng.random() < .5)
        self.opts = o
        self.xl = None

    def data(self, n=None):
        rng, d = self.rng, self.d
        n = n or int(rng.integers(12, 22)) + (6 if d > 2 else 0)
        if self.name == "QP":
            n += 6
        if self.name in ("MOE", "MOESM", "MIX"):
            n += 12
        dat = Data(rng, n, d, self.ny, rough=1.2, plain=self.name in ("RMTB", "RMTC", "RBF", "GENN", "VFM"))
        if self.xl is None:
            self.xl = dat.xlimits
        dat.xlimits = self.xl
        u = lhs(rng, n, d)
        dat.x = dat.to_x(u)
        if self.name == "MIX":
            u = rng.uniform(0, 1, (n, 3))
            dat.xlimits = self.xl = np.array([[-5.0, 5.0], [0, 2], [0, 3]])
            dat.x = np.stack([-5 + 10 * u[:, 0], np.floor(3 * u[:, 1] * .999), np.round(3 * u[:, 2])], 1)
            dat.y = dat.value(dat.x)
            if not self.folded:
                hot = np.eye(3)[dat.x[:, 1].astype(int)]
                dat.x = np.column_stack([dat.x[:, 0], hot, dat.x[:, 2]])
            return dat
        dat.y = dat.value(dat.x)
        if self.levels > 1:
            nh = max(d + 5, n // 2)
            dat.hx = dat.x[rng.permutation(n)[:nh]]
            dat.hy = 1.7 * dat.value(dat.hx) + dat.ysc * (0.3 * dat.to_u(dat.hx)[:, :1] + 0.2 * np.sin(3 * dat.to_u(dat.hx)[:, -1:]))
            if self.levels == 3:
                dat.mx = dat.x[rng.permutation(n)[: (n + nh) // 2]]
                dat.mx = np.unique(np.vstack([dat.mx, dat.hx]), axis=0)
                dat.my = 1.3 * dat.value(dat.mx)
        if self.name == "VFM":
            dat.hx = dat.x[:: 2] if n >= 16 else dat.x
            dat.hx = np.vstack([dat.hx, dat.points(rng, 8)])
            dat.y = dat.y + 8
            dat.hy = dat.value(dat.hx) * 1.2 + 9.5
        return dat

    def make(self, data=None):
        m, a = sm()
        kw = dict(OFF)
        kw.update(copied(self.opts))
        n = self.name
        if n in ("RMTB", "RMTC", "GEKPLS"):
            kw["xlimits"] = self.xl.copy()
        if n == "VFM":
            return a.VFM(name_model_LF=self.mod_LF, name_model_bridge=self.mod_B, options_LF=dict(OFF), options_bridge=dict(OFF),
                         X_LF=data.x.copy(), y_LF=data.y.copy(), X_HF=data.hx.copy(), y_HF=data.hy.copy(), **copied(self.opts))
        if n == "MOE":
            return a.MOE(**kw)
        if n == "MOESM":
            from smt.applications.moe import MOESurrogateModel
            return MOESurrogateModel(**kw)
        if n == "MIX":
            from smt.applications.mixed_integer import MixedIntegerSurrogateModel, FLOAT, INT, ENUM
            s = getattr(m, self.inner)(print_global=False, **(dict(theta0=[0.5], theta_bounds=[0.05, 10.]) if self.inner == "KRG" else {}))
            return MixedIntegerSurrogateModel([FLOAT, (ENUM, 3), INT], [[-5, 5], ["a", "b", "c"], [0, 3]], s, input_in_folded_space=self.folded)
        if n.startswith("MFK"):
            return getattr(a, n)(**kw)
        return getattr(m, n)(**kw)

    def calls(self, data):
        """the training calls as (method, args) with fresh copies"""
        c = []
        if self.name == "VFM":
            return c
        c.append(("set_training_values", [data.x.copy(), data.y.copy()], {}))
        if self.levels == 2:
            c = [("set_training_values", [data.x.copy(), data.y.copy()], {"name": 0}), ("set_training_values", [data.hx.copy(), data.hy.copy()], {})]
        elif self.levels == 3:
            c = [("set_training_values", [data.x.copy(), data.y.copy()], {"name": 0}), ("set_training_values", [data.mx.copy(), data.my.copy()], {"name": 1}),
                 ("set_training_values", [data.hx.copy(), data.hy.copy()], {})]
        if self.derivs:
            for k in range(self.d):
                c.append(("set_training_derivatives", [data.x.copy(), data.deriv(data.x, k), k], {}))
        return c

    def load(self, s, data):
        for f, a, k in self.calls(data):
            getattr(s, f)(*a, **k)

    def train(self, s, seed=7):
        np.random.seed(seed)
        with quiet():
            if self.name in ("MOE", "MOESM"):
                try:
                    s.train()
                except Exception:
                    moe = getattr(s, "moe", s)
                    try:
                        p = moe.cluster.predict(moe.training_values[:, [*range(self.d), -1]])
                        small = min(np.bincount(p, minlength=self.opts["n_clusters"])) < 14
                    except Exception:
                        small = False
                    if small:
                        raise Inconclusive("cluster too small for its experts")
                    raise
            elif self.name != "VFM":
                s.train()
            else:
                s._apply()
        return s

    def fitted(self, data, seed=7):
        s = self.make(data)
        self.load(s, data)
        return self.train(s, seed)

    def points(self, data, n, margin=0.03):
        if self.name == "MIX":
            rng = self.rng
            x = np.stack([rng.uniform(-5, 5, n), rng.integers(0, 3, n).astype(float), rng.integers(0, 4, n).astype(float)], 1)
            if not self.folded:
                x = np.column_stack([x[:, 0], np.eye(3)[x[:, 1].astype(int)], x[:, 2]])
            return x
        return data.points(self.rng, n, margin)

    def ops(self, s):
        """queries the model claims to support: label -> (function of (model, x), single point only)"""
        sup = getattr(s, "supports", None)
        o = {"values": (lambda s, x: s.predict_values(x), False)}
        nx = self.d
        if self.name == "VFM":
            ok = all(m in ("KRG", "RBF", "QP", "LS") for m in (self.mod_LF, self.mod_B))
            if ok:
                for k in range(nx):
                    o["deriv%d" % k] = (lambda s, x, k=k: s.predict_derivatives(x, k), False)
            return o
        if self.name == "MOE":
            if s.options["variances_support"]:
                o["variances"] = (lambda s, x: s.predict_variances(x), False)
            return o
        if self.name == "MIX":
            if self.inner == "KRG":
                o["variances"] = (lambda s, x: s.predict_variances(x), False)
            return o
        if sup.get("derivatives") and not (self.name in ("KRG", "KPLS", "GEKPLS") and self.opts.get("corr") != "squar_exp") and self.name != "MGP" and not (self.name.startswith("MFK") and self.opts["rho_regr"] != "constant"):
            for k in range(nx):
                o["deriv%d" % k] = (lambda s, x, k=k: s.predict_derivatives(x, k), False)
        if sup.get("output_derivatives"):
            o["output_derivs"] = (lambda s, x: s.predict_output_derivatives(x), False)
        if sup.get("variances"):
            o["variances"] = (lambda s, x: s.predict_variances(x), False)
        if sup.get("variance_derivatives") and self.name in ("KRG",):
            o["variance_derivs"] = (lambda s, x: s.predict_variance_derivatives(x), True)
        if self.name.startswith("MFK") and hasattr(s, "predict_variances_all_levels"):
            o["variances_all"] = (lambda s, x: s.predict_variances_all_levels(x), False)
            for l in range(self.levels if hasattr(s, "_predict_intermediate_values") else 0):
                o["level%d" % l] = (lambda s, x, l=l: s._predict_intermediate_values(x, l + 1), False)
        return o


def flat(r):
    """any answer as a list of arrays"""
    if isinstance(r, dict):
        return [np.asarray(r[k], float) for k in sorted(r, key=str)]
    if isinstance(r, (tuple, list)):
        out = []
        for v in r:
            out += flat(v)
        return out
    return [np.asarray(r, float)]


def snapshot(o, depth=0):
    """hashable deep picture of plain data (arrays by bytes), for before/after comparison"""
    if isinstance(o, np.ndarray):
        return ("a", o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, dict):
        return ("d",) + tuple((repr(k), snapshot(v, depth + 1)) for k, v in sorted(o.items(), key=lambda t: repr(t[0])))
    if isinstance(o, (list, tuple)):
        return ("l", type(o).__name__) + tuple(snapshot(v, depth + 1) for v in o)
    if isinstance(o, (str, int, float, bool, type(None), np.generic)):
        return ("v", repr(o))
    return ("o", type(o).__name__)


def options_of(s):
    return snapshot(vars(s.options)) if hasattr(s, "options") else None


def training_of(s):
    tp = getattr(s, "training_points", None)
    return snapshot({k: dict(v) for k, v in tp.items()}) if tp else None
