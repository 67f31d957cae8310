"""S10: the compiled components, built with address and undefined-behaviour sanitizers from the current sources, under histories of
valid and hostile public calls; invalid arguments must be refused; poisoned allocations show reads of uninitialised memory."""
import json
import os
import subprocess
import sys
import warnings
import numpy as np
from core import case_rng, Inconclusive, quiet
from lib import *

MIN = {"answered": 1500, "native_calls": 3000, "refused": 150, "retrained": 60, "special_points": 300, "uninitialised": 10, "stale": 40, "memory_returned": 10}
RULE = "distinct (model, kind of call, kind of points, number of inputs)"
ASSUMPTIONS = ["extensions are compiled by g++ with -fsanitize=address,undefined,float-cast-overflow and libstdc++ assertions; arrays handed to them live on the heap between red zones",
               "sizes are such that the arrays fit in memory; products beyond 2**31 entries are only tried in the thorough tier, without sanitizers",
               "reads of uninitialised memory are seen as a difference between two runs whose fresh allocations are filled differently"]
CASE_LIMIT = 200
NAMES = ["IDW", "RBF", "RMTB", "RMTC"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 1000)
    n = 1 if tier == "quick" else 16
    out = []
    add = lambda m, k=0, **kw: out.append(dict(m=m, s=int(rng.integers(1 << 30)), k=k, **kw))
    for k in range(6 * n):
        for name in NAMES:
            add("history", k, model=name)
    for k in range(3 * n):
        for name in NAMES:
            add("hostile", k, model=name)
    for k in range(6 * n):
        add("shapes", k, model="RMTB")
        add("shapes", k, model="RMTC")
    for k in range(3 * n):
        add("direct", k)
    for k in range(2 * n):
        for name in NAMES:
            add("poison", k, model=name)
    for k in range(n):
        for name in NAMES:
            add("leak", k, model=name)
    if tier == "thorough":
        for name in ("IDW", "RBF"):
            add("large", 0, model=name)
    rng.shuffle(out)
    return out


CALLS = [0]


class Count:
    """counts the calls that reach compiled code"""

    def __init__(self, cls):
        self._cls = cls

    def __call__(self, *a, **k):
        return Proxy(self._cls(*a, **k))


class Proxy:
    def __init__(self, o):
        self._o = o

    def __getattr__(self, n):
        f = getattr(self._o, n)
        CALLS[0] += 1
        return f


def count_native():
    import importlib
    for mod, cls in (("idw", "PyIDW"), ("rbf", "PyRBF"), ("rmtb", "PyRMTB"), ("rmtc", "PyRMTC")):
        try:
            m = importlib.import_module("smt.surrogate_models." + mod)
            c = getattr(m, cls)
            if not isinstance(c, Count):
                setattr(m, cls, Count(c))
        except (ImportError, AttributeError):
            CALLS[0] += 10 ** 6  # the classes have moved: no count, no minimum


def run_case(case, rec):
    count_native()
    CALLS[0] = 0
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        globals()[case["m"]](case, rec, case_rng(case))
    rec.seen("native_calls", CALLS[0])


class Data_:
    def __init__(self, rng, d, n, ny, xl):
        u = lhs(rng, n, d)
        if rng.random() < .3 and n > 4:  # on the boundary too
            u[0], u[1] = 0.0, 1.0
        if rng.random() < .2 and n > 6:
            u[3] = u[4]
        self.x = xl[:, 0] + (xl[:, 1] - xl[:, 0]) * u
        self.x = np.clip(self.x, xl[:, 0], xl[:, 1])
        self.y = np.sin(self.x @ rng.normal(size=(d, ny))) + self.x[:, :1]
        self.d, self.ny, self.xl, self.n = d, ny, xl, n


def limits(rng, d):
    s = 10.0 ** rng.choice([0, 0, -3, 3, 6])
    return np.stack([-rng.uniform(0, 2, d), rng.uniform(0.5, 3, d)], 1) * s


def options(name, rng, d, xl, wild=True):
    o = dict(OFF)
    if name == "RBF":
        o.update(d0=float(rng.choice([0.1, 1.0, 10.0])) * float(np.ptp(xl)), poly_degree=int(rng.choice([-1, 0, 1])), reg=float(rng.choice([1e-10, 1e-4])))
        if rng.random() < .3:
            o["d0"] = list(np.full(d, o["d0"]))
    elif name == "IDW":
        o.update(p=float(rng.choice([1.0, 2.5, 4.0, 40.0])))
    else:
        o.update(xlimits=xl.copy(), solver="lu", derivative_solver="lu", energy_weight=1e-4, regularization_weight=1e-8, nonlinear_maxiter=1, extrapolate=bool(rng.random() < .6), approx_order=int(rng.choice([2, 2, 4])),
                 min_energy=bool(rng.random() < .8))
        small = d > 2
        if name == "RMTB":
            order = [int(v) for v in rng.integers(1, 4 if small else 7, d)]
            ctrl = [v + int(rng.integers(0, 2 if small else 5)) for v in order]
            o.update(order=order, num_ctrl_pts=ctrl)
            if rng.random() < .3:
                o.update(order=max(order), num_ctrl_pts=max(order) + int(rng.integers(0, 3)))
        else:
            o.update(num_elements=[int(v) for v in rng.integers(1, 3 if small else 5, d)])
    return o


def make(name, o):
    m, a = sm()
    return getattr(m, name)(**{k: (list(v) if isinstance(v, list) else v.copy() if isinstance(v, np.ndarray) else v) for k, v in o.items()})


SPECIAL = ["inside", "corners", "breaks", "training", "ulp", "outside", "far", "huge", "inf", "nan", "many", "one", "float32", "int", "fortran", "strided", "subnormal"]


def points(kind, rng, dat, o):
    d, xl = dat.d, dat.xl
    w = xl[:, 1] - xl[:, 0]
    u = rng.uniform(0, 1, (int(rng.integers(1, 12)), d))
    if kind == "corners":
        u = rng.integers(0, 2, (9, d)).astype(float)
    elif kind == "breaks":  # where pieces of the splines meet
        nb = int(rng.integers(1, 9))
        if "num_elements" in o:
            nb = np.resize(o["num_elements"], d)
        elif "order" in o:
            nb = np.maximum(1, np.resize(o["num_ctrl_pts"], d) - np.resize(o["order"], d) + 1)
        u = rng.integers(0, nb + 1, (12, d)) / nb
    elif kind == "training":
        return dat.x[rng.permutation(dat.n)[:6]].copy()
    elif kind == "outside":
        u = rng.uniform(-.5, 1.5, (10, d))
    elif kind == "far":
        u = rng.uniform(-1, 1, (6, d)) * 10.0 ** rng.integers(1, 12, (6, d))
    elif kind == "huge":
        u = rng.choice([-1e300, 1e300, 1e20, -1e20, 0.5], (6, d))
    elif kind == "inf":
        u = rng.choice([-np.inf, np.inf, 0.5], (6, d))
    elif kind == "nan":
        u = rng.choice([np.nan, 0.5, 0.2], (6, d))
        u[0] = np.nan
    elif kind == "many":
        u = rng.uniform(-.1, 1.1, (700, d))
    elif kind == "one":
        u = u[:1]
    x = xl[:, 0] + w * u
    if kind in ("corners", "breaks"):
        x = np.where(u == 1, xl[:, 1], np.where(u == 0, xl[:, 0], x))
    if kind == "ulp":
        x = np.nextafter(np.where(rng.random((8, d)) < .5, xl[:, 0], xl[:, 1]), rng.choice([-np.inf, np.inf], (8, d)))
    elif kind == "float32":
        x = x.astype(np.float32)
    elif kind == "int":
        x = np.round(x).astype(int)
    elif kind == "fortran":
        x = np.asfortranarray(x)
    elif kind == "strided":
        x = np.repeat(np.repeat(x, 2, 0), 2, 1)[::2, ::2]
    elif kind == "subnormal":
        x = x * 1e-310
    return x


def ask(rec, s, what, f, sig, valid=False):
    """one public call; the sanitizers judge it, an exception is a refusal"""
    try:
        with quiet():
            r = f()
    except Exception as e:
        if valid:
            rec.check("answered", False, "%s: valid points refused" % sig[0], "%s refused the %s at %s points: %s: %s" % (sig[0], sig[1], sig[2], type(e).__name__, str(e)[:100]))
        else:
            rec.ok("refused", sig + (type(e).__name__,))
        return e
    rec.ok("answered", sig)
    return r


def queries(rec, rng, s, name, dat, o, kinds, where):
    for kind in kinds:
        x = points(kind, rng, dat, o)
        if kind in SPECIAL[1:12]:
            rec.seen("special_points")
        ask(rec, s, "values", lambda: s.predict_values(x), (name, "values", kind, dat.d, where), kind not in ("nan", "inf"))
        for kx in range(dat.d):
            ask(rec, s, "derivatives", lambda: s.predict_derivatives(x, kx), (name, "derivatives", kind, dat.d, where), kind not in ("nan", "inf"))
        if name != "IDW" and dat.n < 40 and dat.d <= 2 and rng.random() < .4 or name == "IDW" and rng.random() < .4:
            ask(rec, s, "output derivatives", lambda: s.predict_output_derivatives(x[:8]), (name, "output derivatives", kind, dat.d, where))


def history(case, rec, rng):
    """one object trained and queried again and again with data of other sizes"""
    name = case["model"]
    top = 5 if name in ("IDW", "RBF") else 3 if case["k"] % 3 else 4
    d = int(rng.integers(1, top + 1))
    xl = limits(rng, d)
    ny = int(rng.integers(1, 4))
    o = options(name, rng, d, xl)
    s = make(name, o)
    dat = None
    for step in range(3 if name.startswith("RMT") and d > 2 else 5):
        if step and rng.random() < .5:  # other dimensions
            d = int(rng.integers(1, top + 1))
            xl = limits(rng, d)
            o2 = options(name, rng, d, xl)
            o = o2
            for k, v in o2.items():
                s.options[k] = v
            rec.seen("other_dimension")
        dat = Data_(rng, d, int(rng.choice([1, 2, 5, 12, 30, 60])) + d, int(rng.integers(1, 4)), xl)
        s.set_training_values(dat.x, dat.y)
        if name.startswith("RMT") and rng.random() < .4:
            for k in range(d):
                s.set_training_derivatives(dat.x, np.cos(dat.y), k)
        if isinstance(ask(rec, s, "train", s.train, (name, "train", d, step > 0)), Exception):
            continue
        if step:
            rec.seen("retrained")
        queries(rec, rng, s, name, dat, o, [str(v) for v in rng.permutation(SPECIAL)[:7]] + ["breaks", "corners"], "history")
        # new data without training: an error or an answer, never a stray access
        n2, d2 = int(rng.choice([1, 3, 80])) + d, int(rng.integers(1, top + 1))
        dd = d2 if rng.random() < .6 else d
        other = Data_(rng, dd, n2, int(rng.integers(1, 4)), np.tile(xl[:1], (dd, 1)))
        s.set_training_values(other.x, other.y)
        x = np.tile(xl[:1, 0], (4, dd)) + rng.random((4, dd)) * np.ptp(xl[0])
        for q in (lambda: s.predict_values(x), lambda: s.predict_derivatives(x, dd - 1), lambda: s.predict_output_derivatives(x), lambda: s.predict_values(other.x)):
            ask(rec, s, "stale", q, (name, "new data without training", dd != d))
            rec.seen("stale")


def must_refuse(rec, f, key, msg, **detail):
    try:
        with quiet():
            r = f()
    except Exception as e:
        rec.ok("refused", (key, type(e).__name__))
        return
    rec.check("refused", False, key, msg, answer=repr(r)[:120], **detail)


def hostile(case, rec, rng):
    name = case["model"]
    d = int(rng.integers(1, 4)) if name in ("IDW", "RBF") else int(rng.integers(1, 3))
    xl = limits(rng, d)
    o = options(name, rng, d, xl)
    dat = Data_(rng, d, 14 + d, int(rng.integers(1, 3)), xl)
    x = points("inside", rng, dat, o)
    s = make(name, o)
    for q in (lambda: s.predict_values(x), lambda: s.predict_derivatives(x, 0), lambda: s.predict_output_derivatives(x), s.train):
        must_refuse(rec, q, "%s: use without training data" % name, "%s answered without training data" % name, model=name)
    s.set_training_values(dat.x, dat.y)
    for q in (lambda: s.predict_values(x), lambda: s.predict_derivatives(x, 0), lambda: s.predict_output_derivatives(x)):
        must_refuse(rec, q, "%s: use without training" % name, "%s answered without training" % name, model=name)
    with quiet():
        s.train()
    rec.ok("answered", (name, "train", d))
    for kx in (-1, -2, -d, d, d + 1, 1000, 10 ** 6, -10 ** 6, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 40):
        must_refuse(rec, lambda: s.predict_derivatives(x, kx), "%s: derivative with respect to an input that does not exist" % name, "%s with %d inputs gave a derivative with respect to input %d" % (name, d, kx), model=name, kx=kx, d=d)
    for kx in (None, "0", 0.5, [0]):
        ask(rec, s, "kx", lambda: s.predict_derivatives(x, kx), (name, "kx", type(kx).__name__))
    for bad in (np.zeros((3, d + 1)), np.zeros((3, d, 1)), np.zeros((0, d)), np.zeros((3, 0)), np.zeros(()), [[0.0] * d], None, np.array([["a"] * d]), np.zeros((3, d), complex), np.zeros((2, d), object), np.zeros((3, max(0, d - 1)))):
        for q in (lambda: s.predict_values(bad), lambda: s.predict_derivatives(bad, 0), lambda: s.predict_output_derivatives(bad)):
            ask(rec, s, "x", q, (name, "x", getattr(bad, "shape", None), str(getattr(bad, "dtype", ""))))
        if isinstance(bad, np.ndarray) and bad.ndim == 2 and bad.shape[1] != d:
            must_refuse(rec, lambda: s.predict_values(bad), "%s: points with another number of inputs" % name, "%s with %d inputs accepted points of shape %s" % (name, d, bad.shape), model=name)
    # training data the interface may or may not accept
    for t in range(10):
        s2 = make(name, o)
        xt, yt = dat.x.copy(), dat.y.copy()
        if t == 0:
            xt[1, 0] = np.nan
        elif t == 1:
            yt[1, 0] = np.nan
        elif t == 2:
            xt[1, 0] = np.inf
        elif t == 3:
            xt, yt = xt[:1], yt[:1]
        elif t == 4:
            xt[:] = xt[0]
        elif t == 5:
            xt, yt = xt[:0], yt[:0]
        elif t == 6:
            xt = xt.astype(np.float32)
        elif t == 7:
            xt = np.round(xt).astype(np.int64)
            xt = np.clip(xt, np.ceil(xl[:, 0]), np.floor(xl[:, 1])).astype(np.int64)
        elif t == 8:
            xt = np.asfortranarray(xt)
        elif t == 9:
            xt, yt = np.repeat(xt, 2, 1)[:, ::2], yt[::1]

        def go():
            s2.set_training_values(xt, yt)
            s2.train()
            s2.predict_values(x)
            s2.predict_derivatives(x, 0)
            s2.predict_output_derivatives(x)
        ask(rec, s2, "data", go, (name, "odd data", t))
    # options
    bad = {"RBF": [dict(d0=[1.0] * (d + 1)), dict(d0=np.ones(d + 2)), dict(poly_degree=2), dict(poly_degree=-2)], "IDW": [],
           "RMTB": [dict(order=5, num_ctrl_pts=4), dict(order=5, num_ctrl_pts=3), dict(order=9, num_ctrl_pts=2), dict(order=0), dict(order=-1), dict(order=-3, num_ctrl_pts=2), dict(num_ctrl_pts=0), dict(num_ctrl_pts=-5),
                    dict(order=[3] * (d + 1)), dict(num_ctrl_pts=[6] * (d + 1))],
           "RMTC": [dict(num_elements=0), dict(num_elements=-1), dict(num_elements=[-2] * d), dict(num_elements=[3] * (d + 1))]}[name]
    if name.startswith("RMT"):
        if d > 1:
            bad.append({("order" if name == "RMTB" else "num_elements"): [2] + [0] * (d - 1)})
            bad.append(dict(xlimits=xl[:1]))
            bad.append(dict(xlimits=xl[: d - 1].copy()))
        bad += [dict(xlimits=np.vstack([xl, xl])), dict(xlimits=xl[:, :1].copy()), dict(xlimits=np.zeros((0, 2))), dict(xlimits=xl[:, ::-1].copy())]
        z = xl.copy()
        z[0, 1] = z[0, 0]
        bad.append(dict(xlimits=z))
        z = xl.copy()
        z[0, 1] = np.nan
        bad.append(dict(xlimits=z))
    for b in bad:
        def go():
            s3 = make(name, dict(o, **b))
            s3.set_training_values(dat.x, dat.y)
            s3.train()
            return s3.predict_values(x)
        must_refuse(rec, go, "%s: invalid option %s" % (name, "+".join(b)), "%s with %d inputs trained with %r" % (name, d, b), model=name, option=repr(b))
    soft = {"RBF": [dict(d0=0.0), dict(d0=-1.0), dict(d0=1e-300), dict(d0=1e300), dict(reg=0.0)], "IDW": [dict(p=0.0), dict(p=-1.0), dict(p=1e4)],
            "RMTB": [dict(smoothness=[1.0] * (d + 1)), dict(xlimits=xl * np.array([1e8, 1e8])), dict(xlimits=np.round(xl + [[-1, 1]]).astype(int)), dict(xlimits=np.column_stack([np.full(d, -1e308), np.full(d, 1e308)]))],
            "RMTC": [dict(smoothness=[1.0] * (d + 1)), dict(xlimits=xl * np.array([1e8, 1e8])), dict(xlimits=np.round(xl + [[-1, 1]]).astype(int)), dict(xlimits=np.column_stack([np.full(d, -1e308), np.full(d, 1e308)]))]}[name]
    for b in soft:
        def go():
            s3 = make(name, dict(o, **b))
            s3.set_training_values(dat.x, dat.y)
            s3.train()
            s3.predict_values(x)
            s3.predict_derivatives(x, 0)
        ask(rec, None, "soft", go, (name, "odd option", repr(sorted(b))))


def shapes(case, rec, rng):
    """every order and number of elements, alone and mixed"""
    name = case["model"]
    d = 1 + case["k"] % 4
    xl = limits(rng, d)
    o = options(name, rng, d, xl)
    dat = Data_(rng, d, int(rng.integers(2, 25)), int(rng.integers(1, 3)), xl)
    s = make(name, o)
    s.set_training_values(dat.x, dat.y)
    r = ask(rec, s, "train", s.train, (name, "train", d, repr(o.get("order", o.get("num_elements")))))
    if isinstance(r, Exception):
        return
    queries(rec, rng, s, name, dat, o, ["inside", "corners", "breaks", "ulp", "outside", "far", "huge", "nan", "inf"], "shapes")


def direct(case, rec, rng):
    """the models inside others: multi-fidelity bridges, mixtures, mixed-integer, extended samples"""
    m, a = sm()
    d = int(rng.integers(1, 3))
    xl = limits(rng, d)
    dat = Data_(rng, d, 40, 1, xl)
    x = points("outside", rng, dat, {})

    def moe():
        s = a.MOE(n_clusters=2, allow=["RBF", "IDW"], **{k: v for k, v in OFF.items() if k == "print_global"})
        s.set_training_values(dat.x, dat.y)
        s.train()
        s.predict_values(x)

    def vfm():
        s = a.VFM(name_model_LF="RBF", name_model_bridge="RBF", options_LF=dict(OFF), options_bridge=dict(OFF), type_bridge="Additive", X_LF=dat.x, y_LF=dat.y, X_HF=dat.x[::2], y_HF=dat.y[::2] + 1)
        s._apply()
        s.predict_values(x)
        s.predict_derivatives(x, d - 1)

    def mix():
        from smt.applications.mixed_integer import MixedIntegerSurrogateModel, FLOAT, INT, ENUM
        s = MixedIntegerSurrogateModel([FLOAT, (ENUM, 3)], [[-5, 5], ["a", "b", "c"]], m.IDW(print_global=False))
        xt = np.column_stack([rng.uniform(-5, 5, 12), np.eye(3)[rng.integers(0, 3, 12)]])
        s.set_training_values(xt, rng.normal(size=(12, 1)))
        s.train()
        s.predict_values(xt)

    for f in (moe, vfm, mix):
        ask(rec, None, f.__name__, f, (f.__name__, d))


SCRIPT = """
import sys, json, hashlib
sys.path[:0] = [%(harness)r]
import os
import native
native.install(native.build(%(flavor)r))
import numpy as np
fill = %(fill)d
real = np.empty
def empty(*a, **k):
    r = real(*a, **k)
    if r.dtype.kind == "f":
        r.fill([0.0, np.nan, 1e6][fill])
    elif r.dtype.kind == "i":
        r.fill([0, 1, 3][fill])
    return r
if fill:
    np.empty = empty
    real_like = np.empty_like
    np.empty_like = lambda a, *r, **k: empty(np.shape(a), k.get("dtype") or np.asarray(a).dtype)
from props import S10
print(json.dumps(S10.hashes(%(model)r, %(s)d)))
"""


def hashes(name, s):
    """hash of every answer of a short history"""
    import hashlib
    import io
    import contextlib
    rng = np.random.default_rng(s)
    out = []
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for t in range(4):
            d = int(rng.integers(1, 4 if name in ("IDW", "RBF") else 3))
            xl = limits(rng, d)
            o = options(name, rng, d, xl)
            dat = Data_(rng, d, int(rng.integers(4, 20)) + d, int(rng.integers(1, 3)), xl)
            x = np.vstack([points(k, rng, dat, o) for k in ("inside", "corners", "breaks", "training", "outside")])
            s_ = make(name, o)
            s_.set_training_values(dat.x, dat.y)
            if name.startswith("RMT") and t % 2:
                for k in range(d):
                    s_.set_training_derivatives(dat.x, np.cos(dat.y), k)
            try:
                with quiet():
                    s_.train()
                    r = [s_.predict_values(x)] + [s_.predict_derivatives(x, k) for k in range(d)]
                    od = s_.predict_output_derivatives(x[:6])
                    r += [od[k] for k in sorted(od, key=str)]
            except Exception as e:
                out.append("error %s" % type(e).__name__)
                continue
            for v in r:
                out.append(hashlib.sha256(np.ascontiguousarray(v, float).tobytes()).hexdigest()[:16])
    return out


def poison(case, rec, rng):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    got = []
    for fill, byte in ((0, 0), (1, 0xA5), (2, 0x3F)):
        env = dict(os.environ)
        flavor = "asan" if "LD_PRELOAD" in env else "plain"
        env["ASAN_OPTIONS"] = env.get("ASAN_OPTIONS", "") + ":max_malloc_fill_size=100000000:malloc_fill_byte=%d" % byte
        env["MALLOC_PERTURB_"] = str(byte)
        env["PYTHONHASHSEED"] = "0"
        p = subprocess.run([sys.executable, "-c", SCRIPT % dict(harness=here, fill=fill, model=case["model"], s=case["s"], flavor=flavor)], env=env, capture_output=True, text=True, timeout=150)
        if p.returncode:
            from core import sanitizer_summary
            kind, text = sanitizer_summary(p.stderr)
            if kind:
                rec.violation("sanitizer:" + kind, "sanitizer report: " + kind, report=text)
                return
            raise Inconclusive("poisoned run failed: " + p.stderr[-300:])
        got.append(json.loads(p.stdout.strip().splitlines()[-1]))
    for a, b, c in zip(*got):
        rec.check("uninitialised", a == b == c, "%s: answer depends on uninitialised memory" % case["model"], "answers of %s change with the content of fresh memory" % case["model"], (case["model"], "filled"), model=case["model"])


ALIAS = """
import sys, mmap, ctypes
sys.path[:0] = [%(harness)r]
import native
native.install(native.build("plain"))
import numpy as np
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
import os
CH = 1 << 26
fd = os.memfd_create("alias")
os.ftruncate(fd, CH)
real = np.empty
def big(nbytes):
    # a long array whose pages are the same few over and over, between inaccessible guards
    n = (nbytes + CH - 1) // CH
    base = libc.mmap(None, (n + 2) * CH, 0, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000, -1, 0)
    for i in range(n):
        r = libc.mmap(base + (i + 1) * CH, CH, 3, mmap.MAP_SHARED | 0x10, fd, 0)
        assert r == base + (i + 1) * CH
    return base + (n + 1) * CH - nbytes
def empty(shape, dtype=float, *a, **k):
    n = int(np.prod(shape)) * np.dtype(dtype).itemsize
    if n < 1 << 30:
        return real(shape, dtype, *a, **k)
    buf = (ctypes.c_char * n).from_address(big(n))
    return np.frombuffer(buf, dtype).reshape(shape)
np.empty = empty
import smt.surrogate_models as m
name = %(model)r
rng = np.random.default_rng(0)
"""


def large(case, rec, rng):
    """more than 2**31 entries between the model and its points (address space only: the pages are aliased)"""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    name = case["model"]
    code = ALIAS + """
xt = rng.uniform(0, 1, (2200, 1)); yt = np.sin(xt)
s = getattr(m, name)(print_global=False)
s.set_training_values(xt[:50], yt[:50]); s.train()
c = s.idwc if name == "IDW" else s.rbfc
x = np.full(980000, 0.5)
class Found(Exception): pass
# the compiled call alone: the product with the solution would need real memory
nt = 2200
if name == "IDW":
    c.setup(1, nt, 2.5, xt.ravel())
else:
    c.setup(1, nt, nt, -1, np.ones(1), xt.ravel())
jac = empty(980000 * nt)
if name == "IDW":
    c.compute_jac(980000, x, jac)
else:
    c.compute_jac_derivs(980000, 0, x, jac)
print("done")
"""
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS")}
    try:
        p = subprocess.run([sys.executable, "-c", code % dict(harness=here, model=name)], env=env, capture_output=True, text=True, timeout=CASE_LIMIT - 10)
    except subprocess.TimeoutExpired:
        raise Inconclusive("large run took too long")
    if p.returncode < 0:
        rec.check("large", False, "%s: crash with more than 2**31 entries" % name, "%s died with signal %d" % (name, -p.returncode), model=name)
    elif "done" in p.stdout:
        rec.ok("large", (name,))
    else:
        raise Inconclusive("large run failed: " + p.stderr[-300:])


def leak(case, rec, rng):
    """memory of the compiled components comes back: cycles of construction, training, queries and destruction leave the allocator where it was"""
    import ctypes
    import gc
    try:
        held = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    except AttributeError:
        raise Inconclusive("the allocator of the sanitizer is not there")
    held.restype = ctypes.c_size_t
    name = case["model"]
    d = int(rng.integers(1, 4 if name in ("IDW", "RBF") else 3))
    xl = limits(rng, d)
    o = options(name, rng, d, xl)
    dat = Data_(rng, d, 30, 2, xl)
    x = points("inside", rng, dat, o)
    once = make(name, o)
    once.set_training_values(dat.x, dat.y)
    if name.startswith("RMT"):
        for k in range(d):
            once.set_training_derivatives(dat.x, np.cos(dat.y), k)

    def cycle(s):
        with quiet():
            s.train()
            for _ in range(3):
                s.predict_values(x)
                for k in range(d):
                    s.predict_derivatives(x, k)
            if name == "IDW" or dat.n < 40 and d < 3:
                s.predict_output_derivatives(x)

    def again():
        getattr(getattr(once, "printer", None), "times", {}).clear()  # the timings of every training are kept on purpose
        cycle(once)

    def fresh():
        s = make(name, o)
        s.set_training_values(dat.x, dat.y)
        cycle(s)

    def refused():
        s = make(name, o)
        s.set_training_values(dat.x, dat.y)
        with quiet():
            s.train()
            for f in (lambda: s.predict_values(np.zeros((3, d + 1))), lambda: s.predict_derivatives(x, d + 1), lambda: s.predict_values(np.array([["a"] * d]))):
                try:
                    f()
                except Exception:
                    pass
    for what, f in (("retraining", again), ("new objects", fresh), ("refused calls", refused)):
        for _ in range(6):
            f()
        at = []
        for block in range(5):
            for _ in range(8):
                f()
            gc.collect()
            at.append(held())
        grow = np.diff(at)
        rec.check("memory_returned", int(np.sum(grow > 0)) < 4 or float(np.median(grow)) < 8 * 8, "%s: memory lost by %s" % (name, what),
                  "%s loses about %.0f bytes per cycle of %s" % (name, np.median(grow) / 8, what), "%s %s d=%d" % (name, what, d), held=[int(v) for v in at])
