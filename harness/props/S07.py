"""S07: training state. A model driven through a random history of set/update/train/query calls against one freshly built
with the same options and given only the last training data; inconsistent calls must be refused without a trace."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *
import zoo
from zoo import Spec, flat, snapshot, training_of, copied

MIN = {"history": 70, "updated": 20, "private_arrays": 60, "private_options": 50, "refused": 300, "state_kept": 300, "answers_kept": 60}
RULE = "distinct (model, options, kinds of calls in the history, changed sizes) for histories; distinct (model, kind of bad call, trained or not) for refusals"
ASSUMPTIONS = ["training uses numpy's global random state: both models are trained from the same seed",
               "data labels (fidelity levels, derivative indices) that an earlier data set had and the last one has not are not part of the histories: the interface offers no way to withdraw them"]
CASE_LIMIT = 120


def cases(tier, seed):
    rng = np.random.default_rng(seed + 700)
    out = []
    for r in range(6 if tier == "quick" else 40):
        for name in zoo.NAMES:
            if name == "VFM":
                continue
            if tier == "quick" and r > 1 and name in ("RMTC", "MOE", "MOESM", "MFKPLSK", "GENN", "MGP"):
                continue
            out.append(dict(m="history", name=name, s=int(rng.integers(1 << 30)), r=r))
    for r in range(2 if tier == "quick" else 15):
        for name in zoo.NAMES:
            out.append(dict(m="bad", name=name, s=int(rng.integers(1 << 30)), r=r))
        for k in range(3):
            out.append(dict(m="bad", name="MIX", s=int(rng.integers(1 << 30)), r=r))
    for r in range(8 if tier == "quick" else 60):
        for k in range(len(CONFIGS) if r < 2 or tier != "quick" else 0):
            out.append(dict(m="config", k=k, s=int(rng.integers(1 << 30))))
        out.append(dict(m="columns", name=["MFK", "MFKPLS", "MFKPLSK", "MFK"][r % 4], s=int(rng.integers(1 << 30)), r=r))
    return out


def columns(case, rec, rng):
    """levels of fidelity with different numbers of inputs or outputs are refused, whichever level is the odd one"""
    a = sm()[1]
    levels = int(rng.choice([2, 3]))
    d = int(rng.choice([2, 3]))
    odd = int(rng.integers(levels))
    how = ("more", "fewer", "one")[case["r"] % 3]
    kw = {} if case["name"] == "MFK" else dict(n_comp=1)
    s = getattr(a, case["name"])(print_global=False, theta0=[1.0], corr="squar_exp", **kw)
    x = rng.uniform(0, 1, (16, 3 + 1))
    for i in range(levels):
        n = 16 - 4 * i
        c = d if i != odd else dict(more=d + 1, fewer=d - 1, one=1)[how]
        s.set_training_values(x[:n, :c].copy(), np.sin(3 * x[:n, :1]) + i * .1, **({} if i == levels - 1 else dict(name=i)))
    err = None
    try:
        with quiet():
            s.train()
    except Exception as e:
        err = e
    sig = "%s levels=%d d=%d odd=%d %s" % (case["name"], levels, d, odd, how)
    rec.check("refused", err is not None, "bad:columns:%s" % case["name"], "levels with different numbers of columns were accepted", sig)


# model, what is wrong, wrong options, right options; the data have n points of d inputs, d is two or three
CONFIGS = [
    ("KRG", "theta0 length", lambda d, n: dict(theta0=[.5] * (d + 1)), lambda d, n: dict(theta0=[.5] * d)),
    ("KRG", "theta0 length 2", lambda d, n: dict(theta0=[.5] * (2 if d == 3 else 3)), lambda d, n: dict(theta0=[.5])),
    ("KRG", "noise0 length", lambda d, n: dict(noise0=[1e-3, 1e-4]), lambda d, n: dict(noise0=[1e-3])),
    ("KRG", "noise0 lengths", lambda d, n: dict(noise0=[1e-3] * (n - 1), use_het_noise=True), lambda d, n: dict(noise0=[1e-3] * n, use_het_noise=True)),
    ("KRG", "corr", lambda d, n: dict(corr="act_exp"), lambda d, n: dict(corr="abs_exp")),
    ("KRG", "too few points", lambda d, n: dict(poly="quadratic"), lambda d, n: dict(poly="constant")),
    ("KPLS", "corr", lambda d, n: dict(corr="matern52", n_comp=1), lambda d, n: dict(corr="abs_exp", n_comp=1)),
    ("KPLS", "theta0 length", lambda d, n: dict(theta0=[.5] * 3, n_comp=2), lambda d, n: dict(theta0=[.5] * 2, n_comp=2)),
    ("KPLSK", "corr", lambda d, n: dict(corr="abs_exp", n_comp=1), lambda d, n: dict(corr="squar_exp", n_comp=1)),
    ("GEKPLS", "corr", lambda d, n: dict(corr="matern32", n_comp=1), lambda d, n: dict(corr="squar_exp", n_comp=1)),
    ("GEKPLS", "theta0 length", lambda d, n: dict(theta0=[.5] * 3, n_comp=2), lambda d, n: dict(theta0=[.5] * 2, n_comp=2)),
    ("MGP", "corr", lambda d, n: dict(corr="squar_exp", n_comp=1), lambda d, n: dict(n_comp=1)),
    ("MGP", "hyper_opt", lambda d, n: dict(hyper_opt="Cobyla", n_comp=1), lambda d, n: dict(hyper_opt="TNC", n_comp=1)),
    ("MGP", "theta0 length", lambda d, n: dict(theta0=[.5] * (d + 1), n_comp=1), lambda d, n: dict(theta0=[.5] * d, n_comp=1)),
    ("RBF", "d0 length", lambda d, n: dict(d0=np.ones(d + 1)), lambda d, n: dict(d0=np.ones(d))),
    ("RMTB", "order length", lambda d, n: dict(order=[3] * (d + 1)), lambda d, n: dict(order=[3] * d)),
    ("RMTB", "num_ctrl_pts length", lambda d, n: dict(num_ctrl_pts=[6] * (d + 1)), lambda d, n: dict(num_ctrl_pts=[6] * d)),
    ("RMTB", "num_ctrl_pts small", lambda d, n: dict(num_ctrl_pts=[6] * (d - 1) + [2], order=3), lambda d, n: dict(num_ctrl_pts=6, order=3)),
    ("RMTB", "reversed limits", lambda d, n: dict(xlimits=np.array([[0.0, 1]] * (d - 1) + [[1.0, 0]])), lambda d, n: dict(xlimits=np.array([[0.0, 1]] * d))),
    ("RMTB", "limits of other inputs", lambda d, n: dict(xlimits=np.array([[0.0, 1]] * (d + 1))), lambda d, n: dict(xlimits=np.array([[0.0, 1]] * d))),
    ("RMTB", "points below", lambda d, n: dict(xlimits=np.array([[0.3, 1]] + [[0.0, 1]] * (d - 1))), lambda d, n: dict(xlimits=np.array([[0.0, 1]] * d))),
    ("RMTB", "points above", lambda d, n: dict(xlimits=np.array([[0.0, 1]] * (d - 1) + [[0.0, .6]])), lambda d, n: dict(xlimits=np.array([[0.0, 1]] * d))),
    ("RMTC", "num_elements length", lambda d, n: dict(num_elements=[2] * (d + 1)), lambda d, n: dict(num_elements=[2] * d)),
    ("RMTC", "num_elements small", lambda d, n: dict(num_elements=[2] * (d - 1) + [0]), lambda d, n: dict(num_elements=2)),
    ("RMTC", "points above", lambda d, n: dict(xlimits=np.array([[0.0, .6]] + [[0.0, 1]] * (d - 1))), lambda d, n: dict(xlimits=np.array([[0.0, 1]] * d))),
    ("MFK", "corr", lambda d, n: dict(corr="act_exp"), lambda d, n: dict(corr="matern32")),
    ("MFK", "theta0 shape", lambda d, n: dict(theta0=np.full((3, d), .5)), lambda d, n: dict(theta0=np.full((2, d), .5))),
    ("MFK", "theta0 length", lambda d, n: dict(theta0=[.5] * 4), lambda d, n: dict(theta0=[.5] * d)),
    ("MFK", "noise0 length", lambda d, n: dict(noise0=[1e-3] * 3), lambda d, n: dict(noise0=[1e-3] * 2)),
    ("MFK", "too few points", lambda d, n: dict(poly="quadratic"), lambda d, n: dict(poly="constant")),
    ("MFKPLS", "corr", lambda d, n: dict(corr="matern52", n_comp=1), lambda d, n: dict(corr="abs_exp", n_comp=1)),
    ("MFKPLS", "theta0 length", lambda d, n: dict(theta0=[.5] * 3, n_comp=1), lambda d, n: dict(theta0=[.5], n_comp=1)),
    ("MFKPLSK", "corr", lambda d, n: dict(corr="abs_exp", n_comp=1), lambda d, n: dict(corr="squar_exp", n_comp=1)),
    ("MOE", "outputs for criterion", lambda d, n: dict(allow=["RBF"], ct=np.arange(n - 1.0)[:, None]), lambda d, n: dict(allow=["RBF"], ct=np.arange(1.0 * n)[:, None])),
    ("MOE", "no candidates", lambda d, n: dict(allow=["KRG"], deny=["KRG"]), lambda d, n: dict(allow=["RBF", "IDW"], deny=[])),
]


def config(case, rec, rng):
    """options that contradict the data are refused by training, without a trace: with the right options the object is as good as new"""
    m, a = sm()
    name, what, wrong, right = CONFIGS[case["k"]]
    d = int(rng.choice([2, 3])) if not name.startswith("RMT") else 2
    n = 8 if what == "too few points" and d == 3 else 5 if what == "too few points" else int(rng.integers(14, 18))
    x = lhs(rng, n, d)
    f = Fun(rng, d, 1, 1.0)
    y = f(2 * x - 1)
    q = rng.uniform(.1, .9, (5, d))
    base = dict(print_global=False)
    if name.startswith("RMT"):
        base.update(xlimits=np.array([[0.0, 1.0]] * d), num_elements=2, energy_weight=1e-4) if name == "RMTC" else base.update(xlimits=np.array([[0.0, 1.0]] * d), num_ctrl_pts=6)
    if name == "MOE":
        base.update(n_clusters=1)
    if name == "GEKPLS":
        base.update(xlimits=np.array([[0.0, 1.0]] * d))

    new = getattr(m, name, None) or getattr(a, name)
    low = lhs(rng, n + 8, d)

    def load(s):
        s.set_training_values(x.copy(), y.copy())
        if name.startswith("MFK"):
            s.set_training_values(low.copy(), .5 * f(2 * low - 1) + low[:, :1], name=0)
        if name == "GEKPLS":
            for k in range(d):
                s.set_training_derivatives(x.copy(), 2 * f.grad(2 * x - 1, k), k)
        return s
    sig = "%s: %s d=%d" % (name, what, d)
    good = right(d, n)
    try:
        s = load(new(**dict(base, **wrong(d, n))))
    except Exception:
        rec.ok("refused", sig)
        return
    opts = {k: np.copy(s.options[k]) for k in wrong(d, n)}
    before = state(s)
    err = None
    np.random.seed(3)
    try:
        with quiet():
            s.train()
            s.predict_values(q)
    except Exception as e:
        err = e
    rec.check("refused", err is not None, "config:%s:%s" % (name, what), "options that contradict the data were accepted", sig, options=wrong(d, n), points=n)
    if err is None:
        return
    rec.check("state_kept", state(s) == before, "config:%s:%s:data" % (name, what), "a refused training changed the data", sig)
    rec.check("state_kept", all(np.array_equal(opts[k], s.options[k]) for k in opts), "config:%s:%s:options" % (name, what), "a refused training changed the options", sig)
    fresh = load(new(**dict(base, **good)))
    plain = new(**base)
    for k in wrong(d, n):
        s.options[k] = good.get(k, plain.options[k])
    for k, v in good.items():
        s.options[k] = v
    res = []
    for o in (s, fresh):
        np.random.seed(5)
        with quiet():
            o.train()
            res.append(o.predict_values(q))
    rec.check("answers_kept", bool(np.allclose(res[0], res[1], rtol=1e-9, atol=1e-9)), "config:%s:%s:afterwards" % (name, what), "after a refused training the model differs from a fresh one", sig, got=res[0], want=res[1])


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


FIXED_D = ("RMTB", "RMTC", "GEKPLS", "MIX")  # options fix the domain
ONE_OUT = ("GEKPLS", "MGP", "MFK", "MFKPLS", "MFKPLSK", "VFM", "MOE", "MOESM", "MIX")


def variant(spec, rng):
    """the same model with data of another dimension / number of outputs"""
    import copy
    o = copy.copy(spec)
    if spec.name not in FIXED_D and rng.random() < .5:
        lo = 2 if ("PLS" in spec.name or spec.name == "MGP") else 1
        if "n_comp" in spec.opts:
            lo = max(lo, spec.opts["n_comp"] + (spec.name == "MGP"))
        o.d = int(rng.integers(lo, max(lo, 3) + 1))
    if spec.name not in ONE_OUT:
        o.ny = int(rng.choice([1, 2, 3]))
    if spec.name not in FIXED_D:
        o.xl = None
    return o


def noisy(spec, rng):
    """estimated noise, repeated points, single level: paths that adapt the training data or the options"""
    if spec.name in ("KRG", "KPLS", "MFK") and rng.random() < .35:
        spec.opts.update(eval_noise=True)
        if rng.random() < .5:
            spec.opts["use_het_noise"] = True
            spec.repeat = True
        if spec.name == "MFK" and rng.random() < .6:
            spec.opts["optim_var"] = True
    elif spec.name == "MFK" and rng.random() < .4:
        spec.levels = 1
        spec.opts["noise0"] = [1e-6]


def draw(spec, n=None):
    dat = spec.data(n)
    if getattr(spec, "repeat", False):
        for a in ("x", "y", "hx", "hy", "mx", "my"):
            if hasattr(dat, a):
                v = getattr(dat, a)
                w = v[:3] + (0.05 * np.std(v) * spec.rng.standard_normal((3, 1)) if a.endswith("y") else 0)
                setattr(dat, a, np.vstack([v, w]))
    return dat


def answers(spec, s, xs, seed=3):
    np.random.seed(seed)
    out = {}
    with quiet():
        for label, (f, single) in sorted(spec.ops(s).items()):
            try:
                out[label] = flat(f(s, (xs[:1] if single else xs).copy()))
            except (NotImplementedError, ValueError) as e:
                out[label] = "refused:" + type(e).__name__
    return out


def differ(a, b, tol=1e-6):
    """'' or what differs"""
    if set(a) != set(b):
        return "queries supported"
    for k in a:
        if isinstance(a[k], str) or isinstance(b[k], str):
            if not (isinstance(a[k], str) and isinstance(b[k], str)):
                return k + " (refused by one)"
            continue
        if len(a[k]) != len(b[k]):
            return k + " (number of arrays)"
        for u, v in zip(a[k], b[k]):
            if u.shape != v.shape:
                return k + " (shape %s, %s)" % (u.shape, v.shape)
            if not np.array_equal(np.isfinite(u), np.isfinite(v)):
                return k + " (not finite)"
            m = np.isfinite(u)
            if m.any() and np.max(np.abs(u[m] - v[m])) > tol * (np.max(np.abs(v[m])) + 1e-12):
                return k + " (%.2e of %.2e)" % (np.max(np.abs(u[m] - v[m])), np.max(np.abs(v[m])))
    return ""


def jolt(a, rng):
    """change an array in place, the way a caller may after the call"""
    a *= 1.0 + 0.3 * rng.standard_normal(a.shape)
    a += 0.5


def history(case, rec, rng):
    spec = Spec(case["name"], rng)
    name = spec.name
    noisy(spec, rng)
    data0 = draw(spec)
    s = spec.make(data0)
    kinds = []
    cur, cursp = None, spec

    def load(sp, dat, mutate):
        for f, a, k in sp.calls(dat):
            getattr(s, f)(*a, **k)
            if mutate:
                for v in a:
                    if isinstance(v, np.ndarray):
                        jolt(v, rng)

    steps = int(rng.integers(2, 6))
    trained = False
    for i in range(steps):
        op = str(rng.choice(["set", "set", "train", "query", "partial"])) if i else "set"
        if op == "set":
            cursp = variant(spec, rng) if i else spec
            cur = draw(cursp) if i else data0
            load(cursp, cur, True)
            trained = False
            kinds.append("set")
        elif op == "train":
            try:
                cursp.train(s, int(rng.integers(100)))
                trained = True
            except Inconclusive:
                trained = False
            kinds.append("train")
        elif op == "query" and trained:
            answers(cursp, s, cursp.points(cur, 3))
            kinds.append("query")
        elif op == "partial" and name not in ("MOE", "MOESM") and trained:
            # a failing training in between: too few points for a trend or a constant output
            bad = cursp.data()
            try:
                s.set_training_values(bad.x[:1].copy(), bad.y[:1].copy())
                with quiet():
                    s.train()
            except Exception:
                pass
            trained = False
            cur = None
            kinds.append("failed")
        if cur is None:
            cursp = variant(spec, rng)
            cur = draw(cursp)
            load(cursp, cur, True)
    # the last data
    upd = rng.random() < .5 and name not in ("MOE", "MOESM")
    same = rng.random() < .3
    last = cursp if same else variant(spec, rng)
    fin = draw(last)
    if upd:
        load_calls = last.calls(fin)
        # set with other outputs first, (maybe train), then update to the last ones
        for f, a, k in load_calls:
            b = [v.copy() if isinstance(v, np.ndarray) else v for v in a]
            b[1] = b[1] * 0.5 + (1.0 if name != "MIX" else 0.3)
            getattr(s, f)(*b, **k)
        if rng.random() < .6:
            last.train(s, 5)
            kinds.append("train")
        for f, a, k in load_calls:
            args = [a[1].copy()] + list(a[2:])
            getattr(s, f.replace("set_", "update_"))(*args, **k)
            jolt(args[0], rng)
        kinds.append("update")
    else:
        load(last, fin, True)
        kinds.append("set")
    xs = last.points(fin, 5)
    # options: arrays given by the caller are changed after training only
    opts = {k: v for k, v in spec.opts.items()}
    last.train(s, 7)
    ref = last.make(fin)
    last.load(ref, fin)
    last.train(ref, 7)
    a, b = answers(last, s, xs), answers(last, ref, xs)
    d = differ(a, b)
    sig = (name, sorted(spec.opts.items(), key=str), sorted(set(kinds)), last.d != spec.d, last.ny != spec.ny)
    if d:
        # is training itself repeatable?
        for _ in range(2):
            r2 = last.make(fin)
            last.load(r2, fin)
            last.train(r2, 7)
            if differ(answers(last, r2, xs), b):
                rec.inconclusive("training not repeatable")
                return
    rec.check("history", not d, "history:%s" % name, "after %s the model differs from a freshly built one in %s" % ("/".join(kinds), d), sig, d=[spec.d, last.d], ny=[spec.ny, last.ny], options=spec.opts)
    if upd and not d:
        rec.ok("updated", name)
    # later changes of the caller's arrays and options
    t = spec_with_arrays(last, fin)
    if t is not None:
        m, arrays = t
        for f, args, k in last.calls(fin):
            getattr(m, f)(*args, **k)
            arrays += [v for v in args if isinstance(v, np.ndarray)]
        last.train(m, 7)
        before = answers(last, m, xs)
        for v in arrays:
            if isinstance(v, np.ndarray):
                jolt(v, rng)
            elif isinstance(v, list):
                v[:] = [q * 1.7 if isinstance(q, float) else q for q in v]
        after = answers(last, m, xs)
        d = differ(after, before, 1e-9)
        rec.check("private_arrays", not d, "private:%s" % name, "predictions follow later changes of the caller's arrays or options: " + d, sig)
        last.train(m, 7)
        again = answers(last, m, xs)
        d = differ(again, before)
        if d and differ(b, before):
            rec.inconclusive("training not repeatable")
        else:
            rec.check("private_options", not d, "retrain:%s" % name, "training again after the caller changed its arrays and options gives another model: " + d, sig)


def spec_with_arrays(spec, data):
    """a model built from option objects the caller keeps; returns the model and those objects"""
    m, a = sm()
    kept = []
    kw = {}
    for k, v in copied(spec.opts).items():
        if isinstance(v, (list, np.ndarray, dict)):
            kept.append(v)
        kw[k] = v
    if spec.name in ("RMTB", "RMTC", "GEKPLS"):
        kw["xlimits"] = spec.xl.copy()
        kept.append(kw["xlimits"])
    if spec.name in ("MIX", "MOE", "MOESM", "VFM"):
        return spec.make(data), kept
    cls = getattr(a if spec.name.startswith("MFK") else m, spec.name)
    return cls(print_global=False, **kw), kept


# ------------------------------------------------------------------ inconsistent calls

def bad(case, rec, rng):
    spec = Spec(case["name"], rng)
    name = spec.name
    dat = spec.data()
    xs = spec.points(dat, 4)
    nx = xs.shape[1]
    fresh = spec.make(dat)
    if name != "VFM":
        refuse_all(rec, spec, fresh, dat, xs, nx, rng, "fresh")
    s = spec.fitted(dat)
    before = answers(spec, s, xs)
    refuse_all(rec, spec, s, dat, xs, nx, rng, "trained")
    after = answers(spec, s, xs)
    d = differ(after, before, 1e-9)
    rec.check("answers_kept", not d, "bad:%s:answers" % name, "refused calls changed the predictions: " + d, name)
    if name not in ("VFM",):
        spec.train(s, 7)
        d = differ(answers(spec, s, xs), before)
        if d:
            r2 = spec.fitted(dat)
            if differ(answers(spec, r2, xs), before):
                rec.inconclusive("training not repeatable")
                return
        rec.check("answers_kept", not d, "bad:%s:retrain" % name, "training again after refused calls gives another model: " + d, (name, "retrain"))


def state(s):
    out = [training_of(s)]
    for a in ("xt", "yt", "nx", "ny", "nt"):
        v = getattr(s, a, None)
        if isinstance(v, np.ndarray) or isinstance(v, (int, np.integer)):
            out.append((a, snapshot(v) if isinstance(v, np.ndarray) else int(v)))
    for a in ("_surrogate", "moe"):
        if hasattr(s, a):
            out.append(state(getattr(s, a)))
    return out


def refuse_all(rec, spec, s, dat, xs, nx, rng, when):
    name = spec.name
    n = dat.x.shape[0]
    y = dat.y
    sup = dict(getattr(s, "supports", {}) or {})
    calls = []
    x = dat.x

    def add(kind, f):
        calls.append((kind, f))
    if name != "VFM":
        add("set:fewer outputs", lambda: s.set_training_values(x.copy(), y[:-1].copy()))
        add("set:fewer inputs", lambda: s.set_training_values(x[:-2].copy(), y.copy()))
        add("set:3d", lambda: s.set_training_values(np.zeros((4, nx, 2)), np.zeros((4, 1))))
        add("set:3d outputs", lambda: s.set_training_values(x.copy(), np.zeros((n, 1, 2))))
        add("set:list", lambda: s.set_training_values(x.tolist(), y.copy()))
        add("set:None", lambda: s.set_training_values(None, y.copy()))
        add("set:None outputs", lambda: s.set_training_values(x.copy(), None))
        if name == "MIX":
            add("set:more columns", lambda: s.set_training_values(np.column_stack([x, x[:, 0]]), y.copy()))
            add("set:fewer columns", lambda: s.set_training_values(x[:, :-1].copy(), y.copy()))
            if spec.folded:
                def outside():
                    z = x.copy(); z[0, 1] = 7
                    s.set_training_values(z, y.copy())
                add("set:no such category", outside)
        if hasattr(s, "update_training_values") and name not in ("MOE", "MOESM"):
            add("update:fewer", lambda: s.update_training_values(y[:-1].copy()))
            add("update:more", lambda: s.update_training_values(np.vstack([y, y[:1]])))
            add("update:other name", lambda: s.update_training_values(y.copy(), name=5))
            add("update:list", lambda: s.update_training_values(y.tolist()))
            if when == "fresh":
                add("update:before set", lambda: s.update_training_values(y.copy()))
        if hasattr(s, "set_training_derivatives") and name not in ("MOE", "MOESM"):
            td = sup.get("training_derivatives") and name != "MIX"
            dy = np.ones_like(y)
            if not td:
                add("derivs:unsupported", lambda: s.set_training_derivatives(x.copy(), dy, 0))
                add("update derivs:unsupported", lambda: s.update_training_derivatives(dy, 0))
            else:
                add("derivs:fewer", lambda: s.set_training_derivatives(x.copy(), dy[:-1], 0))
                add("derivs:fewer inputs", lambda: s.set_training_derivatives(x[:-1].copy(), dy, 0))
                add("derivs:kx float", lambda: s.set_training_derivatives(x.copy(), dy, 0.5))
                add("derivs:kx None", lambda: s.set_training_derivatives(x.copy(), dy, None))
                add("derivs:kx negative", lambda: s.set_training_derivatives(x.copy(), dy, -1))
                add("derivs:kx too large", lambda: s.set_training_derivatives(x.copy(), dy, nx))
                add("derivs:list", lambda: s.set_training_derivatives(x.copy(), dy.tolist(), 0))
                add("update derivs:other name", lambda: s.update_training_derivatives(dy, 0, name="q"))
                add("update derivs:kx too large", lambda: s.update_training_derivatives(dy, nx))
                if when == "fresh" or not spec.derivs:
                    for k in range(nx):
                        add("update derivs:before set", lambda k=k: s.update_training_derivatives(dy, k))
                else:
                    for k in range(nx):
                        add("update derivs:fewer", lambda k=k: s.update_training_derivatives(dy[:-1], k))
        if when == "fresh":
            add("train:no data", lambda: s.train())
    wide = np.column_stack([xs, xs[:, :1]])
    narrow = xs[:, :-1] if nx > 1 else None
    if name == "MGP" and spec.opts["n_comp"] == nx - 1:
        narrow = None  # points of the reduced space
    if when == "trained":
        for q in ["predict_values", "predict_variances", "predict_output_derivatives", "predict_derivatives", "predict_variance_derivatives"]:
            f = getattr(s, q, None)
            if f is None:
                continue
            arg = (0,) if q == "predict_derivatives" else ()
            add(q + ":too many inputs", lambda f=f, arg=arg: f(wide.copy(), *arg))
            if narrow is not None:
                add(q + ":too few inputs", lambda f=f, arg=arg: f(narrow.copy(), *arg))
            key = q.replace("predict_", "").replace("values", "")
            if key and sup and name not in ("MIX", "MOE") and not sup.get(key, True):
                add(q + ":unsupported", lambda f=f, arg=arg: f(xs[:1].copy(), *arg))
        if name == "MOE" and not s.options["variances_support"]:
            add("predict_variances:unsupported", lambda: s.predict_variances(xs.copy()))
        if name == "MIX" and spec.inner != "KRG":
            add("predict_variances:unsupported", lambda: s.predict_variances(xs.copy()))
    for kind, f in calls:
        st = state(s)
        err = None
        np.random.seed(1)
        try:
            with quiet():
                f()
        except Exception as e:
            err = e
        sig = (name, kind, when)
        rec.check("refused", err is not None, "bad:%s:%s:%s" % (name, kind, when), "%s: the call was accepted (%s)" % (kind, when), sig, options=spec.opts)
        now = state(s)
        rec.check("state_kept", now == st, "bad:%s:%s:%s:state" % (name, kind, when), "%s: the refused call changed the stored training data (%s)" % (kind, when), sig, options=spec.opts)
        if now != st:
            return
