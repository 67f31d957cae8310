"""S08: option dictionaries against an independent model; options of objects stay private, callers' values stay untouched."""
import copy
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *
import zoo
from zoo import Spec, snapshot, copied

MIN = {"assignment": 3000, "stored": 3000, "read": 600, "update": 200, "clone": 200, "component_accepts": 150, "component_refuses": 250, "isolation": 150, "caller_values": 60, "values_kept": 45}
RULE = "distinct (declaration, value kind) for dictionaries; distinct (component, option, value) for components; distinct (component, options) used"
ASSUMPTIONS = ["an update that contains an invalid entry may keep the valid entries that precede it", "values are compared with ==, types with isinstance, as the documentation of declare says; booleans given for numbers are not judged"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 800)
    out = []
    n = 24 if tier == "quick" else 400
    for i in range(n):
        out.append(dict(m="fuzz", s=int(rng.integers(1 << 30)), k=i))
    for name in TABLE:
        out.append(dict(m="component", name=name, s=int(rng.integers(1 << 30))))
    for r in range(3 if tier == "quick" else 30):
        for name in zoo.NAMES:
            out.append(dict(m="use", name=name, s=int(rng.integers(1 << 30)), r=r))
    for r in range(1 if tier == "quick" else 8):
        for k in range(10):
            out.append(dict(m="use_other", k=k, s=int(rng.integers(1 << 30))))
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


# ------------------------------------------------------------------ model-based test of the dictionary

class A:
    pass


class B(A):
    pass


class C:
    def __str__(self):
        return "a"

    __repr__ = __str__


POOL = [C(), "1", 0, 1, 2, -3, 0.5, 1.5, -2.0, "a", "b", "aa", "", "ab", (1, 2), (1,), [1, 2], [], {"k": 1}, None, np.arange(2.0), np.float64(2.5), np.int64(7), A(), B(), len, 1 + 2j, b"x", {1}, float("inf")]
TYPES = [int, float, str, list, tuple, dict, np.ndarray, type(None), A, B, (int, float), (list, np.ndarray), (str, type(None)), (int, list, A), [int, str], [float], [list, tuple, np.ndarray]]
VALUES = [("a", "b"), ["a", "ab"], (1, 2), [1, "a", None], (None,), [0.5, 1.5], ("aa",), [(1, 2), (1,)]]


def ok(v, values, types):
    def inv(v):
        if isinstance(v, np.ndarray):
            return False
        for w in values:
            if type(v) is type(w) or isinstance(v, (int, float)) and isinstance(w, (int, float)):
                if v == w:
                    return True
        return False

    def inty(v):
        t = types if isinstance(types, (tuple, list)) else (types,)
        return any(isinstance(v, q) for q in t)
    if values is None and types is None:
        return True
    return (values is not None and inv(v)) or (types is not None and inty(v))


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and np.array_equal(a, b)
    if isinstance(a, (A, C)) or callable(a):
        return a is b or type(a) is type(b)
    return type(a) is type(b) and a == b


def fuzz(case, rec, rng):
    from smt.utils.options_dictionary import OptionsDictionary
    D = OptionsDictionary()
    model, decl = {}, {}
    pick = lambda seq: seq[int(rng.integers(len(seq)))]
    names = ["o%d" % i for i in range(10)]
    held = []  # (dictionary, model, what) clones watched

    def agree(what, sig):
        good = all(same(D[k], v) for k, v in model.items())
        rec.check("stored", good, "stored:%s" % what, "after %s a stored value changed that was not assigned" % what, sig)
    for step in range(220):
        r = rng.random()
        nm = pick(names)
        if r < .12 or not decl:
            values = pick(VALUES) if rng.random() < .5 else None
            types = pick(TYPES) if rng.random() < .6 else None
            cand = [v for v in POOL if ok(v, values, types)]
            kw = {}
            if cand and rng.random() < .7:
                kw["default"] = copy.deepcopy(pick(cand))
            bad = [v for v in POOL if not ok(v, values, types) and v is not None]
            sig = "values=%r types=%r" % (values, types)
            if bad and rng.random() < (.6 if nm in decl else .15):
                v = pick(bad)
                bn = "bad%d" % step
                try:
                    D.declare(bn, v, values=values, types=types)
                    rec.check("assignment", False, "declare:default", "an option was declared with an invalid default %r" % (v,), sig)
                except Exception:
                    rec.check("assignment", bn not in D, "declare:stored", "a declaration refused for its invalid default left that value stored", sig)
                continue
            try:
                D.declare(nm, values=values, types=types, **kw)
            except Exception as e:
                rec.check("assignment", False, "declare:refused", "a valid declaration is refused: %s: %s" % (type(e).__name__, e), sig)
                continue
            rec.check("assignment", True, "", "", sig)
            decl[nm], model[nm] = (values, types), kw.get("default")
            agree("declare", sig)
        elif r < .72:
            v = copy.deepcopy(pick(POOL))
            if nm in decl and (isinstance(v, bool)):
                continue
            want = nm in decl and ok(v, *decl[nm])
            sig = "%s value=%s %r" % (decl.get(nm, "undeclared"), type(v).__name__, v if isinstance(v, (int, float, str, tuple)) else "")
            try:
                D[nm] = v
                got = True
            except Exception:
                got = False
            if got and want:
                model[nm] = v
            rec.check("assignment", got == want, "assignment:%s" % ("accepted" if got else "refused"), "assigning %r to an option declared with %s is %s" % (v, decl.get(nm, "nothing"), "accepted" if got else "refused"), sig)
            if got and not want and nm in decl:
                model[nm] = D[nm]
            agree("assignment" if want else "refused assignment", sig)
            if not want and nm not in decl:
                rec.check("stored", nm not in D and not D.is_declared(nm), "stored:undeclared", "a refused assignment created the option", sig)
        elif r < .80:
            try:
                v = D[nm]
                got = True
            except Exception:
                got = False
            rec.check("read", got == (nm in decl) and (not got or same(v, model[nm])), "read", "reading %s option: %s" % ("a declared" if nm in decl else "an undeclared", "gave %r" % (v,) if got else "raised"), "%s" % (nm in decl))
            rec.check("read", D.is_declared(nm) == (nm in decl) and (nm in D) == (nm in model), "declared", "is_declared/contains answers wrong", "%s" % (nm in decl))
        elif r < .90:
            ks = [pick(names) for _ in range(int(rng.integers(0, 5)))]
            up = {k: copy.deepcopy(pick(POOL)) for k in ks}
            bad = [k for k in up if not (k in decl and ok(up[k], *decl[k]))]
            sig = "n=%d bad=%d" % (len(up), len(bad))
            before = dict(model)
            try:
                D.update(up)
                got = True
            except Exception:
                got = False
            rec.check("update", got == (not bad), "update:%s" % ("accepted" if got else "refused"), "update with %d invalid entries is %s" % (len(bad), "accepted" if got else "refused"), sig)
            for k in model:
                cur = D[k]
                fine = (same(cur, up[k]) if k in up and k not in bad and not bad else same(cur, before[k]) or (k in up and k not in bad and same(cur, up[k])))
                rec.check("update", fine, "update:stored", "after an update option holds %r" % (cur,), sig)
                model[k] = cur
        else:
            C = D.clone()
            sig = "clone"
            rec.check("clone", all(same(C[k], model[k]) for k in model) and all(C.is_declared(k) for k in decl), "clone:content", "a clone differs from its original", sig)
            keep = copy.deepcopy(model)
            for k in list(model):
                v = C[k]
                if isinstance(v, list):
                    v.append("scribble")
                elif isinstance(v, dict):
                    v["scribble"] = 1
                elif isinstance(v, np.ndarray):
                    v[...] = 1e9
                elif k in decl:
                    cand = [w for w in POOL if ok(w, *decl[k])]
                    if cand:
                        C[k] = pick(cand)
            C.declare("cloneonly", 3)
            rec.check("clone", all(same(D[k], keep[k]) for k in keep) and not D.is_declared("cloneonly"), "clone:shared", "changing a clone (or a value inside it) changed the original", sig)
            model = {k: D[k] for k in model}
            C2 = D.clone()
            k2 = copy.deepcopy(model)
            for k in list(model):
                v = D[k]
                if isinstance(v, list):
                    v.append(3)
            rec.check("clone", all(same(C2[k], k2[k]) for k in k2), "clone:shared", "changing the original (or a value inside it) changed its clone", sig)


# ------------------------------------------------------------------ components: documented options

def cls(name):
    import smt.surrogate_models as m, smt.applications as a, smt.sampling_methods as s, smt.problems as p, smt.utils.linear_solvers as l
    for mod in (m, a, s, p, l):
        if hasattr(mod, name):
            return getattr(mod, name)
    from smt.applications.moe import MOESurrogateModel
    return {"MOESurrogateModel": MOESurrogateModel}[name]


PR = {k: ([True, False], ["yes", 1.5, None, [True]]) for k in ("print_global", "print_training", "print_prediction", "print_problem", "print_solver")}
KR = dict(PR, poly=(["constant", "linear", "quadratic"], [1, None, ["linear"]]), corr=(["abs_exp", "squar_exp", "matern52", "matern32"], [3, None, ("squar_exp",)]), nugget=([1e-8, 0.0], ["small", None, [1e-8]]),
          theta0=([[0.1], np.array([0.1])], [0.1, "x", None, (0.1,)]), theta_bounds=([[1e-6, 1.0], np.array([1e-3, 1.0])], [1.0, "x", None]), hyper_opt=(["Cobyla", "TNC"], [1, None, ["TNC"]]),
          eval_noise=([True, False], ["yes", 2, None]), noise0=([[0.0], np.array([1e-3])], [0.0, "x", None]), noise_bounds=([[1e-8, 1.0]], [1.0, None]), use_het_noise=([True, False], ["no", None, 2.5]))
RM = dict(PR, xlimits=([np.array([[0.0, 1.0]])], [[[0, 1]], "x", 1.0, ((0, 1),)]), smoothness=([1.0, 2, [1.0, 2.0], np.ones(2)], ["x", None, {}]), regularization_weight=([0.1, 1], ["x", None, [1.0]]),
          energy_weight=([0.1, 1], ["x", None, [1.0]]), extrapolate=([True, False], ["x", None]), min_energy=([True, False], ["x", None]), approx_order=([2, 4], ["x", None, 2.5]),
          solver=(["krylov", "lu", "gs", "jacobi", "mg", "null", "krylov-dense", "dense-lu", "dense-chol"], ["cholesky", 1, None, ("lu",), "Krylov", "l", ""]),
          derivative_solver=(["krylov", "lu", "gs", "jacobi", "mg", "null", "krylov-dense", "dense-lu", "dense-chol"], ["cholesky", 1, None, ""]), grad_weight=([0.5, 1], ["x", None]),
          solver_tolerance=([1e-9], ["x", None]), nonlinear_maxiter=([3], [2.5, "x", None]), line_search=(["backtracking", "bracketed", "quadratic", "cubic", "null"], ["newton", 1, None, "b"]),
          save_energy_terms=([True, False], ["x", None]), data_dir=([None, "/tmp/x"], [1, ["x"]]), max_print_depth=([3], ["x", None, 2.5]))
TABLE = {
    "KRG": KR,
    "KPLS": dict(KR, corr=(["abs_exp", "squar_exp"], [3, None, ["squar_exp"]]), n_comp=([1, 2], [1.5, "x", None])),
    "KPLSK": dict(KR, corr=(["squar_exp"], [3, None, ["squar_exp"]]), n_comp=([1, 2], [1.5, "x", None])),
    "GEKPLS": dict(KR, corr=(["abs_exp", "squar_exp"], [3, None]), n_comp=([1, 2], [1.5, "x"]), xlimits=([np.array([[0.0, 1.0]])], [[[0, 1]], "x"]), delta_x=([1e-4], ["x", None]), extra_points=([0, 2], [1.5, "x", None])),
    "MGP": dict({k: KR[k] for k in ("poly", "nugget", "theta0", "theta_bounds", "noise0")}, n_comp=([1, 2], [1.5, "x"]), prior=([{"mean": [0.0], "var": 1.0}], [1, [0.0], None])),
    "RBF": dict(PR, d0=([1, 2.0, [1.0, 2.0], np.ones(2)], ["x", None, (1.0,)]), poly_degree=([-1, 0, 1], [1.5, "x", None]), reg=([1e-10, 1], ["x", None]), data_dir=(["/tmp/x"], [1, ["x"]]), max_print_depth=([3], ["x", 2.5])),
    "IDW": dict(PR, p=([2.5, 3], ["x", None]), data_dir=(["/tmp/x"], [1])),
    "LS": dict(PR, data_dir=(["/tmp/x"], [1])),
    "QP": dict(PR, data_dir=(["/tmp/x"], [1])),
    "RMTB": dict(RM, order=([3, (2, 3), [3, 4], np.array([3, 4])], [2.5, "x", None]), num_ctrl_pts=([8, (8, 9), [8], np.array([8])], [8.5, "x", None])),
    "RMTC": dict(RM, num_elements=([4, [4, 5], np.array([4])], [4.5, "x", None])),
    "GENN": dict(PR, alpha=([0.1], ["x", None]), beta1=([0.8], ["x"]), beta2=([0.8], ["x"]), lambd=([0.1], ["x"]), gamma=([1.0, 0.5], ["x", None]), deep=([2], [2.5, "x"]), wide=([2], [2.5, "x"]), mini_batch_size=([32], [3.5, "x"]), num_epochs=([3], [2.5, "x"]), num_iterations=([3], [2.5, "x"]), seed=([1], [1.5, "x"]), is_print=([True, False], ["x"])),
    "MFK": dict({k: KR[k] for k in ("poly", "corr", "nugget", "theta_bounds", "eval_noise", "theta0", "noise0")}, rho_regr=(["constant", "linear", "quadratic"], ["cubic", 1, None, ""]), optim_var=([True, False], ["x", None])),
    "MFKPLS": dict(n_comp=([1], [1.5, "x"]), rho_regr=(["constant"], ["cubic", None])),
    "MFKPLSK": dict(n_comp=([1], [1.5, "x"]), rho_regr=(["linear"], ["cubic", None])),
    "MOE": dict(smooth_recombination=([True, False], ["x", None, 3]), n_clusters=([0, 2], [1.5, "x", None]), heaviside_optimization=([True], ["x"]), derivatives_support=([True], ["x"]), variances_support=([True], ["x"]), ct=([np.zeros((3, 1))], [[1.0], "x"]), xtest=([np.zeros((3, 1))], [[1.0], "x"]), ytest=([np.zeros((3, 1))], [[1.0], "x"])),
    "EGO": dict(criterion=(["EI", "SBO", "UCB"], [1, None, ["EI"]]), n_iter=([3], [1.5, "x"]), n_max_optim=([3], [1.5, "x"]), n_start=([3], [1.5, "x"]), n_parallel=([2], [1.5, "x", None]), qEI=(["KB", "KBLB", "KBUB", "KBRand", "CLmin"], [1, None]), n_doe=([3], [1.5, "x"]), xdoe=([np.zeros((3, 1))], [[1.0], "x"]), ydoe=([np.zeros((3, 1))], [[1.0], "x"]), xlimits=([np.array([[0.0, 1.0]])], ["x", 1]), verbose=([True], ["x", None]), enable_tunneling=([True], ["x"]), xtypes=([[]], ["x", 1, (1,)]), random_state=([None, 3, np.random.RandomState(1)], ["x", 1.5])),
    "VFM": dict(type_bridge=(["Additive", "Multiplicative"], [1, None])),
    "LHS": dict(xlimits=([np.array([[0.0, 1.0]])], [[[0, 1]], "x"]), criterion=(["center", "maximin", "centermaximin", "correlation", "c", "m", "cm", "corr", "ese"], [1, None, ["c"]]), random_state=([None, 3, np.random.RandomState(1)], ["x", 1.5, [1]])),
    "FullFactorial": dict(xlimits=([np.array([[0.0, 1.0]])], [[[0, 1]], "x"]), weights=([[0.3, 0.7], np.ones(2)], ["x", 1.0, (0.3, 0.7)]), clip=([True, False], ["x", None])),
    "Random": dict(xlimits=([np.array([[0.0, 1.0]])], [[[0, 1]], "x"])),
    "Sphere": dict(ndim=([3], [1.5, "x", None]), return_complex=([True, False], ["x"]), name=(["Other"], [1, None])),
    "TensorProduct": dict(func=(["cos", "exp", "tanh", "gaussian"], ["sin", 1, "c", ""]), width=([2.0, 3], ["x", None])),
    "LpNorm": dict(order=([3], [1.5, "x", None])),
    "WaterFlow": dict(return_complex=([True], ["x"])),
    "CantileverBeam": dict(P=([1.0, 2], ["x", None]), E=([1.0, 2], ["x", None])),
}


def fresh(name, /, **kw):
    with quiet():
        if name == "TensorProduct":
            kw.setdefault("func", "cos")
        if name == "VFM":
            return cls(name)(**kw)
        return cls(name)(**kw)


def component(case, rec, rng):
    name = case["name"]
    tab = TABLE[name]
    one, two = fresh(name), fresh(name)
    base = {k: snapshot(two.options[k]) for k in tab}
    for k in tab:
        good, bad = tab[k]
        for v in good:
            v = copy.copy(v)
            try:
                one.options[k] = v
                err = None
            except Exception as e:
                err = "%s: %s" % (type(e).__name__, e)
            rec.check("component_accepts", err is None and (one.options[k] is v or snapshot(one.options[k]) == snapshot(v)), "accept:%s:%s" % (name, k), "documented value %r of %s.%s is not stored (%s)" % (v, name, k, err), "%s %s %r" % (name, k, v))
            if k not in ("ndim",):
                try:
                    o = fresh(name, **{k: v})
                    err = None if snapshot(o.options[k]) == snapshot(v) else "holds %r" % (o.options[k],)
                except Exception as e:
                    err = "%s: %s" % (type(e).__name__, e)
                rec.check("component_accepts", err is None, "construct:%s:%s" % (name, k), "%s(%s=%r): %s" % (name, k, v, err), "%s %s %r constructor" % (name, k, v))
        for v in bad:
            cur = snapshot(one.options[k])
            for way in ("assignment", "constructor", "update"):
                try:
                    if way == "assignment":
                        one.options[k] = v
                    elif way == "update":
                        one.options.update({k: v})
                    else:
                        fresh(name, **{k: v})
                    got = True
                except Exception:
                    got = False
                rec.check("component_refuses", not got and snapshot(one.options[k]) == cur, "refuse:%s:%s" % (name, k), "invalid value %r for %s.%s is accepted by %s" % (v, name, k, way), "%s %s %r %s" % (name, k, v, way))
        # writing into the value one object holds must not reach another object, existing or future
        v = one.options[k]
        if isinstance(v, list):
            v.append("scribble")
        elif isinstance(v, dict):
            v["scribble"] = 1
        third = fresh(name)
        for o, w in ((two, "an existing object"), (third, "a new object")):
            rec.check("isolation", snapshot(o.options[k]) == base[k], "isolation:%s:%s" % (name, k), "changing the option of one object changed %s" % w, "%s %s" % (name, k))
    # defaults: writing into a default value held by one object must not change the default of new objects
    for k in tab:
        v = two.options[k]
        if isinstance(v, list):
            v.append("scribble")
        elif isinstance(v, dict):
            v["scribble"] = 1
        elif isinstance(v, np.ndarray):
            v[...] = 7
        third = fresh(name)
        rec.check("isolation", snapshot(third.options[k]) == base[k], "default:%s:%s" % (name, k), "writing into a default value of one object changed the default of new objects", "%s %s default" % (name, k))
    for k in ("not_an_option", "Xlimits", "theta_0", ""):
        for way in ("assignment", "constructor", "read", "update"):
            try:
                if way == "assignment":
                    one.options[k] = 1
                elif way == "read":
                    one.options[k]
                elif way == "update":
                    one.options.update({k: 1})
                else:
                    if k == "":
                        continue
                    fresh(name, **{k: 1})
                got = True
            except Exception:
                got = False
            rec.check("component_refuses", not got, "undeclared:%s" % name, "undeclared option %r of %s is accepted by %s" % (k, name, way), "%s %r %s" % (name, k, way))


# ------------------------------------------------------------------ using an object leaves option values as the caller gave them

def use(case, rec, rng):
    name = case["name"]
    spec = Spec(name, rng)
    data = spec.data()
    d = spec.d
    own = copied(spec.opts)
    # the caller's own list and array objects, kept under watch
    arr = (lambda v: np.array(v)) if rng.random() < .5 else list
    if name in ("KRG", "KPLS", "KPLSK", "GEKPLS"):
        n = d if name == "KRG" else own.get("n_comp", 1)
        k = rng.integers(3)
        own["theta0"] = [arr([0.5]), arr([0.5] * n), arr([1e-1] * n)][k]
        own["theta_bounds"] = arr([0.05, 10.0])
        own["noise0"] = arr([1e-6])
        if rng.random() < .3 and not own.get("eval_noise") and name != "GEKPLS":
            own.update(use_het_noise=True, noise0=arr([1e-5] * len(data.x)))
            if rng.random() < .4:
                own["noise0"] = arr([1e-5])
    elif name == "MGP":
        own["theta0"] = arr([1.0]) if rng.random() < .5 else arr([0.6] * (d * own["n_comp"]))
        own["prior"] = {"mean": [0.0], "var": 1.0}
        own["noise0"] = arr([1e-6])
    elif name.startswith("MFK"):
        dd = own.get("n_comp", d)
        own["theta0"] = [[0.5], [0.5] * dd, np.full((spec.levels, dd), 0.4)][rng.integers(3)]
        own["noise0"] = [1e-6] if rng.random() < .5 else [[1e-6]] * spec.levels
        own["theta_bounds"] = arr([0.05, 10.0])
        if name == "MFK" and rng.random() < .4:
            own.update(eval_noise=True, optim_var=bool(rng.random() < .7))
    elif name == "RBF":
        own["d0"] = [1, 0.7, arr([0.7] * d), arr([1] * d)][rng.integers(4)]
    elif name == "RMTB":
        own["order"] = [3, arr([3] * d), (3,) * d][rng.integers(3)]
        own["num_ctrl_pts"] = [6, arr([6] * d)][rng.integers(2)]
        own["smoothness"] = [1.0, arr([1.0] * d), arr([0.5, 2.0][:d])][rng.integers(3)]
    elif name == "RMTC":
        own["num_elements"] = [3, arr([3] * d)][rng.integers(2)]
        own["smoothness"] = [1.0, arr([1.0] * d)][rng.integers(2)]
    elif name in ("MOE", "MOESM"):
        own["allow"] = list(own["allow"])
    spec.opts = own
    keep = copy.deepcopy(own)
    orig_copied, zoo.copied = zoo.copied, dict  # hand over the caller's objects themselves
    xl = data.xlimits
    xkeep = xl.copy()
    calls = None
    try:
        if name == "VFM":
            lf, br = dict(OFF), dict(OFF)
            X = [data.x.copy(), data.y.copy(), data.hx.copy(), data.hy.copy()]
            XK = [v.copy() for v in X]
            s = cls("VFM")(name_model_LF=spec.mod_LF, name_model_bridge=spec.mod_B, options_LF=lf, options_bridge=br, X_LF=X[0], y_LF=X[1], X_HF=X[2], y_HF=X[3], **own)
        else:
            s = spec.make(data)
            calls = spec.calls(data)
    finally:
        zoo.copied = orig_copied
    given = snapshot(dict(s.options._dict)) if hasattr(s.options, "_dict") else None
    sig = "%s %s" % (name, {k: (type(v).__name__, np.shape(v)) for k, v in own.items() if isinstance(v, (list, np.ndarray, tuple, dict))})
    args = []
    if calls:
        for f, a, k in calls:
            args.append((a, copy.deepcopy(a)))
            getattr(s, f)(*a, **k)
    try:
        spec.train(s)
        P = spec.points(data, 4)
        PK = P.copy()
        for lab, (op, single) in spec.ops(s).items():
            with quiet():
                op(s, P[:1] if single else P)
        failed = None
    except Inconclusive:
        raise
    except Exception as e:
        failed = e
    if failed is not None:
        rec.violation("use:%s" % name, "documented options are refused: %s: %s" % (type(failed).__name__, str(failed)[:200]), situation=sig)
        return
    rec.check("caller_values", snapshot(own) == snapshot(keep), "caller:%s" % name, "using the model changed option values of the caller: %s" % [k for k in own if snapshot(own[k]) != snapshot(keep[k])], sig)
    rec.check("caller_values", np.array_equal(xl, xkeep) and np.array_equal(P, PK) and all(snapshot(a) == snapshot(b) for a, b in args), "caller_arrays:%s" % name, "using the model changed arrays of the caller", sig + "arrays")
    if name == "VFM":
        rec.check("caller_values", lf == OFF and br == OFF and all(np.array_equal(a, b) for a, b in zip(X, XK)), "caller_arrays:VFM", "using VFM changed the caller's dictionaries or arrays", sig)
    if given is not None:
        now = snapshot(dict(s.options._dict))
        names = [k for k in s.options._dict if k not in ("X_LF",)]
        changed = [] if now == given else [a[0] for a, b in zip(given[1:], now[1:]) if a != b]
        rec.check("values_kept", now == given, "kept:%s:%s" % (name, ",".join(changed)), "training and predicting changed the values of the options %s" % changed, sig)


def use_other(case, rec, rng):
    k = case["k"]
    import smt.sampling_methods as S, smt.problems as PB
    from smt.applications.mixed_integer import MixedIntegerContext, FLOAT, INT, ENUM
    from smt.sampling_methods import LHS
    own, act = {}, None
    d = int(rng.integers(1, 4))
    xl = np.sort(rng.normal(size=(d, 2)), 1)
    if k == 0:
        own = dict(xlimits=xl, weights=rng.uniform(1, 5, d))
        act = lambda: [S.FullFactorial(**own)(n) for n in (1, 7, 20)]
    elif k == 1:
        own = dict(xlimits=xl, weights=[1.0] + [3.0] * (d - 1), clip=True)
        act = lambda: [S.FullFactorial(**own)(n) for n in (1, 7, 20)]
    elif k == 2:
        own = dict(xlimits=xl, criterion=str(rng.choice(["c", "m", "cm", "corr", "center"])), random_state=3)
        act = lambda: [S.LHS(**own)(n) for n in (4, 7)]
    elif k == 3:
        own = dict(xlimits=xl, criterion="ese", random_state=3)
        act = lambda: [S.LHS(**own)(n) for n in (4, 7)]
    elif k == 4:
        own = dict(xlimits=xl)
        act = lambda: S.Random(**own)(5)
    elif k == 5:
        own = dict(xtypes=[FLOAT, (ENUM, 2), INT], xlimits=[[0.0, 4.0], ["u", "v"], [1, 5]])

        def act():
            c = MixedIntegerContext(**own)
            X = c.build_sampling_method(LHS, criterion="c", random_state=1)(6)
            c.cast_to_discrete_values(c.unfold_with_enum_mask(X))
    elif k == 6:
        own = dict(dims=[0, 2], w=0.3)

        def act():
            p = PB.ReducedProblem(PB.Sphere(ndim=3), **own)
            p(np.random.rand(3, 2))
            p(np.random.rand(3, 2), 1)
    elif k == 7:
        own = dict(nlevel=2, xlimits=xl)

        def act():
            from smt.applications.mfk import NestedLHS
            NestedLHS(**own)(5)
    elif k in (8, 9):
        from smt.applications import EGO
        from smt.applications.ego import Evaluator
        from smt.surrogate_models import KRG
        X = np.array([[0.1], [0.5], [0.9], [0.3]])
        own = dict(xlimits=np.array([[0.0, 1.0]]), xdoe=X, ydoe=np.sin(6 * X))
        if k == 9:
            own.update(n_parallel=2, qEI="KB", xtypes=[INT], xlimits=np.array([[0, 9]]), xdoe=np.array([[0.0], [3.0], [9.0], [6.0]]))

        def act():
            e = EGO(n_iter=2, n_start=5, criterion="EI", surrogate=KRG(print_global=False), random_state=1, **own)
            before = snapshot({q: v for q, v in e.options._dict.items() if q not in ("surrogate", "evaluator")})
            e.optimize(fun=lambda x: np.sin(6 * x / own["xlimits"][0, 1]))
            now = snapshot({q: v for q, v in e.options._dict.items() if q not in ("surrogate", "evaluator")})
            rec.check("values_kept", before == now, "kept:EGO", "optimising changed the values of options", "EGO %d" % k)
    keep = copy.deepcopy(own)
    with quiet():
        act()
    rec.check("caller_values", snapshot(own) == snapshot(keep), "caller:other%d:%s" % (k, ",".join(q for q in own if snapshot(own[q]) != snapshot(keep[q]))), "using the component changed the caller's option values: %s" % [q for q in own if snapshot(own[q]) != snapshot(keep[q])], "other %d d=%d" % (k, d))
