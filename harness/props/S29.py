"""S29: what a model says it supports is what it does, whatever its options, its life so far and the other objects around it."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *
import zoo
from zoo import Spec, options_of, training_of

MIN = {"supported": 250, "unsupported": 250, "ever": 25, "undisturbed": 100, "declaration": 150, "derivative_data": 12, "derivative_data_refused": 20, "private": 60}
RULE = "distinct (model, options, capability, outcome)"
ASSUMPTIONS = ["a supported query may be refused with an explanation (ValueError or NotImplementedError) in configurations the model cannot handle, if other configurations are answered",
               "the applications VFM and MOE have no declarations; their methods are held to the documented ones"]
CAPS = ("derivatives", "output_derivatives", "variances", "variance_derivatives")
PRIVATE = ("training_derivatives", "adjoint_api") + CAPS


def cases(tier, seed):
    rng = np.random.default_rng(seed + 2900)
    out = []
    for r in range(2 if tier == "quick" else 25):
        for name in zoo.NAMES:
            if name not in ("VFM", "MOE"):
                out.append(dict(m="caps", name=name, s=int(rng.integers(1 << 30))))
        for name in ("RMTB", "RMTC", "GEKPLS", "GENN"):
            out.append(dict(m="data", name=name, s=int(rng.integers(1 << 30))))
        out.append(dict(m="wrap", s=int(rng.integers(1 << 30))))
        out.append(dict(m="moe", s=int(rng.integers(1 << 30))))
        out.append(dict(m="moe_history", s=int(rng.integers(1 << 30))))
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


def query(s, cap, x):
    with quiet():
        if cap == "derivatives":
            return s.predict_derivatives(x, 0)
        if cap == "variance_derivatives":
            return s.predict_variance_derivatives(x[:1])
        return getattr(s, "predict_" + cap)(x)


def supports_of(s):
    return {k: bool(s.supports[k]) for k in PRIVATE}


def outcome(f):
    try:
        return "answer", f()
    except (NotImplementedError, ValueError) as e:
        return type(e).__name__, str(e)
    except Inconclusive:
        raise
    except Exception as e:
        return "crash", "%s: %s" % (type(e).__name__, str(e)[:150])


def well_formed(cap, r, n, ny, d, name):
    if cap == "output_derivatives":
        return isinstance(r, dict) and None in r and all(np.shape(v)[0] == n and np.all(np.isfinite(v)) for v in r.values())
    r = np.asarray(r)
    if cap == "variance_derivatives":
        return r.size == d * ny and bool(np.all(np.isfinite(r)))
    return r.shape in (((n, ny), (n,)) if name == "MGP" else ((n, ny),)) and bool(np.all(np.isfinite(r)))


def caps(case, rec, rng):
    name = case["name"]
    done = {c: [0, 0] for c in CAPS}
    models = []
    for rep in range(4):
        spec = Spec(name, rng)
        if name in ("KRG", "KPLS", "GEKPLS") and rep == 0:
            spec.opts["corr"] = "squar_exp"
        if name.startswith("MFK") and rep == 0:
            spec.opts["rho_regr"] = "constant"
        data = spec.data()
        s = spec.make(data)
        first = supports_of(s)
        spec.load(s, data)
        try:
            spec.train(s)
        except Inconclusive:
            continue
        x = spec.points(data, 5)
        sup = supports_of(s)
        sig0 = "%s d=%d ny=%d %s" % (name, spec.d, spec.ny, {k: v for k, v in spec.opts.items() if k in ("corr", "poly", "rho_regr", "variances_support", "n_clusters", "eval_noise")})
        same = {k: sup[k] == first[k] for k in PRIVATE if not (k == "variances" and name == "MOESM")}
        rec.check("declaration", all(same.values()), "declaration:changes:%s" % name, "training changed what the model says it supports: %s" % [k for k, v in same.items() if not v], sig0)
        if name == "MOESM":
            rec.check("declaration", sup["variances"] == bool(spec.opts.get("variances_support", False)), "declaration:MOE:variances", "variances_support=%s but supports['variances'] is %s" % (spec.opts.get("variances_support"), sup["variances"]), sig0)
        with quiet():
            ref = s.predict_values(x.copy()).copy()
        opts, tr = options_of(s), training_of(s)
        for cap in rng.permutation(CAPS):
            cap = str(cap)
            kind, r = outcome(lambda: query(s, cap, x.copy()))
            what = "%s %s" % (sig0, cap)
            if sup[cap]:
                done[cap][0] += 1
                done[cap][1] += kind == "answer"
                rec.check("supported", kind in ("answer", "ValueError", "NotImplementedError"), "supported:%s:%s" % (name, cap), "%s says it supports %s, which crashes: %s" % (name, cap, r), what + kind)
                if kind == "answer":
                    rec.check("supported", well_formed(cap, r, 5, spec.ny, spec.d, name), "supported:form:%s:%s" % (name, cap), "%s of %s for 5 points: %s" % (cap, name, getattr(r, "shape", type(r).__name__)), what)
            else:
                rec.check("unsupported", kind == "NotImplementedError", "unsupported:%s:%s" % (name, cap), "%s says it does not support %s, which gives %s %s" % (name, cap, kind, str(r)[:100]), what)
            with quiet():
                again = s.predict_values(x.copy())
            rec.check("undisturbed", np.allclose(again, ref, rtol=1e-9, atol=1e-12 * (1 + np.max(np.abs(ref)))) and options_of(s) == opts and training_of(s) == tr, "undisturbed:%s:%s" % (name, cap),
                      "asking %s for its %s (%s) changed the model" % (name, cap, kind), what)
        rec.check("declaration", supports_of(s) == sup, "declaration:queries:%s" % name, "queries changed what the model says it supports", sig0)
        if not sup["training_derivatives"]:
            for f in (lambda: s.set_training_derivatives(data.x.copy(), np.ones((len(data.x), spec.ny)), 0), lambda: s.update_training_derivatives(np.ones((len(data.x), spec.ny)), 0)):
                kind, r = outcome(f)
                rec.check("derivative_data_refused", kind == "NotImplementedError", "training_derivatives:%s" % name, "%s says it does not support training derivatives; giving some: %s %s" % (name, kind, str(r)[:100]), sig0)
            rec.check("undisturbed", training_of(s) == tr, "undisturbed:%s:training_derivatives" % name, "refused derivatives were stored by %s" % name, sig0)
        models.append((s, sup))
        # the declaration belongs to the object
        other = spec.make(data)
        for k in PRIVATE:
            other.supports[k] = not other.supports[k]
        third = spec.make(data)
        rec.check("private", supports_of(s) == sup and supports_of(third) == first, "private:%s" % name, "changing the declarations of one %s changes those of another" % name, sig0)
    for cap, (asked, answered) in done.items():
        if asked >= 2 and not (name in ("KPLS", "GEKPLS") and cap == "derivatives" and asked < 3):
            rec.check("ever", answered > 0, "never:%s:%s" % (name, cap), "%s says it supports %s but refused it in all of %d configurations" % (name, cap, asked), "%s %s" % (name, cap))


def data(case, rec, rng):
    """a model that accepts derivative data makes use of them"""
    name = case["name"]
    spec = Spec(name, rng, d=2, ny=1)
    spec.derivs = True
    if name == "GEKPLS":
        spec.opts["extra_points"] = 1
    if name == "GENN":
        spec.opts.update(gamma=1.0, num_iterations=5)
    if name.startswith("RMT"):
        spec.opts["extrapolate"] = True
    dat = spec.data()
    x = spec.points(dat, 6)
    for kx in range(spec.d):
        ans = []
        for scale in (0.0, 0.5):
            s = spec.make(dat)
            spec.load(s, dat)
            g = dat.deriv(dat.x, kx)
            s.set_training_derivatives(dat.x.copy(), g + scale * (np.max(np.abs(g)) + dat.ysc / np.ptp(dat.xlimits[kx])), kx)
            spec.train(s)
            with quiet():
                ans.append(s.predict_values(x.copy()))
        ans = np.array(ans)
        rec.check("derivative_data", float(np.max(np.abs(ans[1] - ans[0]))) > 1e-6 * float(np.max(np.abs(ans[0]))), "unused:%s" % name, "other derivatives with respect to input %d do not change the predictions of %s" % (kx, name), "%s %d" % (name, kx))


def wrap(case, rec, rng):
    """wrapping a model for mixed variables leaves the declarations of the wrapped model alone"""
    m, a = sm()
    from smt.applications.mixed_integer import MixedIntegerSurrogateModel, FLOAT, INT, ENUM
    for inner in ("KRG", "RBF", "QP", "IDW", "GEKPLS", "RMTB", "KPLS"):
        kw = dict(xlimits=np.array([[-5.0, 5.0], [0, 3]])) if inner in ("RMTB", "GEKPLS") else {}
        s = getattr(m, inner)(print_global=False, **kw)
        before = supports_of(s)
        w = MixedIntegerSurrogateModel([FLOAT, INT], [[-5, 5], [0, 3]], s)
        rec.check("private", supports_of(s) == before, "private:wrapped", "wrapping %s changed what it says it supports" % inner, inner)
        for k in PRIVATE:
            w.supports[k] = not w.supports[k]
        rec.check("private", supports_of(s) == before, "private:wrapped", "the wrapper shares its declarations with the wrapped %s" % inner, inner)
        rec.check("private", supports_of(getattr(m, inner)(print_global=False, **kw)) == before, "private:class", "%s models share their declarations" % inner, inner)


def moe(case, rec, rng):
    """the mixture: a method it documents answers or explains"""
    spec = Spec("MOE", rng)
    dat = spec.data()
    try:
        s = spec.fitted(dat)
    except Inconclusive:
        return
    x = spec.points(dat, 5)
    kind, r = outcome(lambda: query(s, "variances", x.copy()))
    if spec.opts.get("variances_support"):
        rec.check("supported", kind == "answer" and np.shape(r) == (5, 1), "supported:MOE:variances", "variances of a mixture that supports them: %s %s" % (kind, str(r)[:100]), "MOE on")
    else:
        rec.check("unsupported", kind != "answer", "unsupported:MOE:variances", "variances of a mixture that does not support them: %s" % kind, "MOE off")


def moe_history(case, rec, rng):
    """the declarations of a mixture follow its options when they are changed between trainings"""
    m, a = sm()
    d = int(rng.integers(1, 3))
    x = lhs(rng, 30, d) * rng.uniform(1, 4, d)
    y = np.sin(2 * x[:, :1]) + x.sum(1)[:, None]
    on = bool(rng.random() < .5)
    s = a.MOESurrogateModel(n_clusters=int(rng.integers(1, 3)), variances_support=on, derivatives_support=bool(rng.random() < .5), allow=["KRG"] if rng.random() < .5 else [], **OFF)
    q = x[:4] + 0.01
    for t in range(4):
        s.options["variances_support"] = on
        s.options["derivatives_support"] = dv = bool(rng.random() < .5)
        s.set_training_values(x.copy(), y.copy())
        with quiet():
            s.train()
        sig = "history %d %s %s" % (t, on, dv)
        for cap, want in (("variances", on), ("derivatives", dv)):
            rec.check("declaration", bool(s.supports[cap]) == want or cap == "derivatives", "declaration:MOE:history:%s" % cap, "training %d with %s_support=%s: supports[%r] is %s" % (t, cap, want, cap, s.supports[cap]), sig)
            kind, r = outcome(lambda: query(s, cap, q.copy()))
            if bool(s.supports[cap]):
                rec.check("supported", kind == "answer", "supported:MOE:history:%s" % cap, "training %d of a mixture that supports %s: %s %s" % (t, cap, kind, str(r)[:100]), sig)
            else:
                rec.check("unsupported", kind == "NotImplementedError", "unsupported:MOE:history:%s" % cap, "training %d of a mixture that does not support %s: %s" % (t, cap, kind), sig)
        on = not on
