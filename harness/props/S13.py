"""S13: benchmark problems against independent formulas, exact (complex-step) slopes and their own numeric slopes."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"formula": 90, "slope": 150, "own_slope": 120, "rows": 90, "input_kept": 90, "limits": 60, "reduced": 40, "real": 90, "stated": 30}
RULE = "distinct (problem, options, dimension, number type, derivative index)"
ASSUMPTIONS = ["formulas are those of the documentation (cantilever beam in SI units)", "numeric slopes are undecided near kinks"]
G = 9.80665


def f_sphere(x, o):
    return (x * x).sum(1)


def f_branin(x, o):
    a, b = x[:, 0], x[:, 1]
    return (b - 5.1 / (4 * np.pi ** 2) * a * a + 5 / np.pi * a - 6) ** 2 + 10 * (1 - 1 / (8 * np.pi)) * np.cos(a) + 10


def f_rosen(x, o):
    return sum((100.0 * (x[:, i + 1] - x[:, i] * x[:, i]) ** 2 + (x[:, i] - 1) ** 2 for i in range(x.shape[1] - 1)), np.zeros(len(x), x.dtype))


def f_beam(x, o):
    n = x.shape[1] // 3
    b, h, l = x[:, 0::3], x[:, 1::3], x[:, 2::3]
    t = 0
    for i in range(n):
        t = t + 12.0 / b[:, i] / h[:, i] ** 3 * (l[:, i:].sum(1) ** 3 - l[:, i + 1:].sum(1) ** 3)
    return o.get("P", 50e3) / 3.0 / o.get("E", 200e9) * t


def f_arm(x, o):
    L, th = x[:, 0::2], np.cumsum(x[:, 1::2], axis=1)
    return np.sqrt((L * np.cos(th)).sum(1) ** 2 + (L * np.sin(th)).sum(1) ** 2)


def f_tp(x, o):
    a = o.get("width", 1.0)
    g = dict(cos=lambda v: np.cos(a * np.pi * v), exp=lambda v: np.exp(a * v), tanh=lambda v: np.tanh(a * v), gaussian=lambda v: np.exp(-2.0 * a * v * v))[o["func"]]
    return g(x).prod(1)


def f_tors(x, o):
    d1, L1, G1, L3, G3, D1, d2, L2, G2, d3, t1, r1, D2, t2, r2 = x.T
    k = lambda g, d, l: np.pi * g * d / (32 * l)
    K1, K2, K3 = k(G1, d1, L1), k(G2, d2, L2), k(G3, d3, L3)
    J1 = 0.5 * (r1 * np.pi * t1 * D1 / (4 * G)) * (D1 / 2) ** 2
    J2 = 0.5 * (r2 * np.pi * t2 * D2 / (4 * G)) * (D2 / 2) ** 2
    b = -((K1 + K2) / J1 + (K2 + K3) / J2)
    c = (K1 * K2 + K2 * K3 + K3 * K1) / (J1 * J2)
    return np.sqrt((-b - np.sqrt(b * b - 4 * c)) / 2) / (2 * np.pi)


def water(x, num, one):
    rw, r, Tu, Hu, Tl, Hl, L, Kw = x.T
    g = np.log(r / rw)
    return num * Tu * (Hu - Hl) / (g * (one + 2 * L * Tu / (g * rw * rw * Kw) + Tu / Tl))


def f_water(x, o):
    return water(x, 2 * np.pi, 1.0)


def f_waterlf(x, o):
    return water(x, 5.0, 1.5)


def f_weld(x, o):
    t, h, l = x.T
    q = np.sqrt(0.25 * (l * l + (h + t) ** 2))
    t1 = 6000 / (np.sqrt(2.0) * h * l)
    t2 = 6000 * (14 + 0.5 * l) * q / (2 * (0.707 * h * l * (l * l / 12 + 0.25 * (h + t) ** 2)))
    return np.sqrt(t1 ** 2 + t2 ** 2 + l * t1 * t2 / q)


def f_wing(x, o):
    S, W, A, lam, q, la, tc, N, Wd, Wp = x.T
    c = np.cos(lam * np.pi / 180)
    return 0.036 * S ** 0.758 * W ** 0.0035 * (A / c ** 2) * q ** 0.006 * la ** 0.04 * (100 * tc / c) ** (-0.3) * (N * Wd) ** 0.49 + S * Wp


def f_lp(x, o):
    p = o.get("order", 2)
    a = np.sqrt(x * x) if np.iscomplexobj(x) else np.abs(x)
    if np.iscomplexobj(x):
        a = np.where(x.real < 0, -x, x)
    return (a ** p).sum(1) ** (1.0 / p)


FORM = dict(Sphere=f_sphere, Branin=f_branin, Rosenbrock=f_rosen, CantileverBeam=f_beam, RobotArm=f_arm, TensorProduct=f_tp, TorsionVibration=f_tors,
            WaterFlow=f_water, WaterFlowLFidelity=f_waterlf, WeldedBeam=f_weld, WingWeight=f_wing, LpNorm=f_lp)
FD = ("TorsionVibration", "WaterFlow", "WaterFlowLFidelity", "WeldedBeam", "WingWeight")
NDIM = ("NdimCantileverBeam", "NdimRobotArm", "NdimRosenbrock", "NdimStepFunction")


def cases(tier, seed):
    rng = np.random.default_rng(seed + 1300)
    out = []
    for r in range(4 if tier == "quick" else 60):
        for name in FORM:
            for k in range(4 if name == "TensorProduct" else 2):
                out.append(dict(m="plain", name=name, fd=False, v=k, s=int(rng.integers(1 << 30))))
        for name in FD:
            out.append(dict(m="plain", name=name, fd=True, v=0, s=int(rng.integers(1 << 30))))
        for name in NDIM:
            for k in range(2):
                out.append(dict(m="ndim", name=name, s=int(rng.integers(1 << 30))))
        for k in range(8):
            out.append(dict(m="reduced", s=int(rng.integers(1 << 30))))
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


def base(rng, name, v=0, big=False):
    """a problem with drawn options, and what the reference needs"""
    import smt.problems as P
    o = {}
    if name in ("Sphere", "TensorProduct", "LpNorm"):
        o["ndim"] = int(rng.integers(1, 8))
    elif name == "Rosenbrock":
        o["ndim"] = int(rng.integers(2, 8))
    elif name == "CantileverBeam":
        o["ndim"] = 3 * int(rng.integers(1, 6))
        if v % 2:
            o.update(P=float(rng.uniform(1e3, 1e5)), E=float(rng.uniform(1e10, 3e11)))
    elif name == "RobotArm":
        o["ndim"] = 2 * int(rng.integers(1, 6))
    if name == "TensorProduct":
        o["func"] = ["cos", "exp", "tanh", "gaussian"][v % 4]
        o["width"] = float(rng.choice([1.0, 0.4, 5.0])) if rng.random() < .7 else int(rng.integers(1, 6))
    if name == "LpNorm":
        o["order"] = int(rng.choice([1, 2, 3, 4, 5]))
    return getattr(P, name)(**o), o


def stated_limits(name, d):
    """the ranges the documentation gives (none: not stated there)"""
    flow = [[.05, .15], [100, 50000], [63070, 115600], [990, 1110], [63.1, 116], [700, 820], [1120, 1680], [9855, 12045]]
    r = {"Branin": [[-5, 10], [0, 15]], "CantileverBeam": [[.01, .05], [.3, .65], [.5, 1]], "LpNorm": [[-1, 1]],
         "TensorProduct": [[-1, 1]], "Sphere": [[-10, 10]], "Rosenbrock": [[-2, 2]], "RobotArm": [[0, 1], [0, 2 * np.pi]],
         "WaterFlow": flow, "WaterFlowLFidelity": flow, "WeldedBeam": [[5, 10], [.125, 1], [5, 10]],
         # the documentation prints 25000 for the gross weight, a misprint: the literature and the code have 2500
         "WingWeight": [[150, 200], [220, 300], [6, 10], [-10, 10], [16, 45], [.5, 1], [.08, .18], [2.5, 6], [1700, 2500], [.025, .08]],
         "TorsionVibration": [[1.8, 2.2], [9, 11], [10530000, 12870000], [7.2, 8.8], [3510000, 4290000], [10.8, 13.2], [1.64, 2.005],
                              [10.8, 13.2], [5580000, 6820000], [2.025, 2.475], [2.7, 3.3], [.252, .308], [12.6, 15.4], [3.6, 4.4], [.09, .11]]}.get(name)
    return None if r is None or d % len(r) else np.tile(np.array(r, float), (d // len(r), 1))


def judge(rec, rng, prob, f, sig, key, fd=False):
    """f: reference of the value, valid for complex input"""
    lim = np.array(prob.xlimits, float)
    d = len(lim)
    ok = lim.shape[1] == 2 and np.all(np.isfinite(lim)) and np.all(lim[:, 0] < lim[:, 1]) and prob.options["ndim"] == d
    rec.check("limits", bool(ok), "limits:" + key, "limits %s of a problem with %s variables" % (lim.tolist(), prob.options["ndim"]), sig)
    n = int(rng.choice([1, 2, 9]))
    kind = str(rng.choice(["float", "float", "fortran", "view", "corner", "int"]))
    x = lim[:, 0] + rng.uniform(0.01, 0.99, (n, d)) * (lim[:, 1] - lim[:, 0])
    if kind == "corner":
        x = np.where(rng.random((n, d)) < .5, lim[:, 0], lim[:, 1])
    if kind == "int":
        xi = np.round(x)
        if np.all((xi >= lim[:, 0]) & (xi <= lim[:, 1])):
            x = xi.astype(int)
        else:
            kind = "float"
    if kind == "fortran":
        x = np.asfortranarray(x)
    if kind == "view":
        b = np.zeros((2 * n, 2 * d))
        b[::2, 1::2] = x
        x = b[::2, 1::2]
    if d == 1 and rng.random() < .3:
        x = x[:, 0]
    x0 = x.copy()
    X = np.asarray(x, float).reshape(n, d)
    sig = "%s n=%d %s%s" % (sig, n, kind, " flat" if x.ndim == 1 else "")
    with quiet():
        y = prob(x)
        yb = prob(x)
    good = isinstance(y, np.ndarray) and y.shape == (n, 1) and y.dtype == np.float64
    rec.check("real", bool(good), "result:" + key, "value of shape %s and type %s" % (np.shape(y), getattr(y, "dtype", None)), sig)
    if not good:
        return
    want = f(X)
    ref = np.abs(f(lim[:, 0] + rng.uniform(0.05, 0.95, (20, d)) * (lim[:, 1] - lim[:, 0])))
    sc = np.abs(want).max() + 0.1 * ref[np.isfinite(ref)].max() + ("RobotArm" in key)
    ok = np.all((np.abs(y[:, 0] - want) <= 1e-11 * sc) | ~np.isfinite(want))
    rec.check("formula", bool(ok), "formula:" + key, "value %r instead of %r" % (y[:, 0][:3].tolist(), want[:3].tolist()), sig)
    width = lim[:, 1] - lim[:, 0]
    res = [y]
    for kx in range(d):
        with quiet():
            g = prob(x, kx)
        good = isinstance(g, np.ndarray) and g.shape == (n, 1) and g.dtype == np.float64
        rec.check("real", bool(good), "result:" + key, "derivative of shape %s and type %s" % (np.shape(g), getattr(g, "dtype", None)), sig)
        if not good:
            return
        res.append(g)
        c = X.astype(complex)
        c[:, kx] += 1e-30j
        w = f(c).imag / 1e-30
        smooth = np.isfinite(w) & np.isfinite(g[:, 0]) & (np.abs(want) > 1e-9 * sc) if key.startswith(("RobotArm", "LpNorm", "R:RobotArm", "R:LpNorm", "NdimRobot")) else np.isfinite(w)
        if "LpNorm" in key:
            smooth = smooth & np.all(np.abs(X) > 1e-12, 1)
        if not smooth.any():
            rec.inconclusive("not smooth at these points")
            continue
        e = np.abs(g[:, 0] - w)[smooth]
        wsc = np.abs(w[smooth]).max() + 1e-3 * sc / width[kx]
        # a central difference with the stated step: rounding over the step
        step = 1e-6 * np.maximum(1.0, np.abs(X[:, kx])).min()
        tol = 1e-4 * wsc + 1e-15 * 30 * sc / step if fd else 1e-10 * wsc
        rec.check("slope", bool(e.max() <= tol) if tol < 0.05 * (np.abs(w[smooth]).max() + 1e-300) or not fd else None, "slope:" + key, "derivative %d is %r, the slope is %r" % (kx, g[smooth][:2, 0].tolist(), w[smooth][:2].tolist()), sig + " kx=%d" % kx)
        if kind != "corner" and not fd:
            def val(q):
                with quiet():
                    return prob(q)
            sl = ridders(val, X[smooth], kx, 0.01 * width[kx])
            compare_slope(rec, "own_slope", "own-slope:" + key, g[smooth], sl, width[kx], sig + " kx=%d" % kx)
    rec.check("input_kept", bool(np.array_equal(x, x0)), "changes-input:" + key, "the problem changed its argument", sig)
    rec.check("input_kept", bool(np.array_equal(y, yb)), "stateful:" + key, "a second evaluation differs", sig)
    # row by row
    q = rng.permutation(n)
    ok = True
    for kx in [None] + list(range(d)):
        with quiet():
            full = prob(X[q]) if kx is None else prob(X[q], kx)
            one = np.vstack([prob(X[i:i + 1]) if kx is None else prob(X[i:i + 1], kx) for i in range(n)])
        r = res[0] if kx is None else res[1 + kx]
        m = np.isfinite(r[:, 0])
        s = np.abs(r[m]).max() + 1e-300 if m.any() else 1.0
        ok = ok and np.all(np.abs(full - r[q])[m[q]] <= 1e-13 * s) and np.all(np.abs(one - r)[m] <= 1e-13 * s)
    rec.check("rows", bool(ok), "rows:" + key, "rows of a batch get other answers than alone", sig)


def plain(case, rec, rng):
    import smt.problems as P
    name = case["name"]
    prob, o = base(rng, name, case["v"])
    if case["fd"]:
        prob = getattr(P, name)(use_FD=True, **o)
    f = lambda x: FORM[name](x, o)
    judge(rec, rng, prob, f, "%s %s fd=%s" % (name, o, case["fd"]), name + (":fd" if case["fd"] else ""), case["fd"])
    lim = prob.xlimits
    doc = stated_limits(name, len(lim))
    if doc is not None:
        rec.check("stated", lim.shape == doc.shape and bool(np.all(np.abs(lim - doc) <= 0.005 * np.abs(doc).max(1)[:, None])), "stated-limits:" + name, "limits %s, the documentation gives %s" % (lim.tolist(), doc.tolist()), "%s %d stated" % (name, len(lim)))
    lo, hi = np.ceil(lim[:, 0]), np.floor(lim[:, 1])
    if np.all(lo <= hi):         # whole numbers stored as such
        xi = np.stack([rng.integers(int(a), int(b) + 1, 3) for a, b in zip(lo, hi)], 1)
        with quiet():
            for kx in [None] + list(range(len(lim))):
                a, b = np.asarray(prob(xi.copy(), kx), float), np.asarray(prob(xi.astype(float), kx), float)
                m = np.isfinite(b)
                rec.check("slope", a.shape == b.shape and bool(np.array_equal(a[m], b[m])), "whole:" + name, "whole numbers stored as integers give another answer (kx=%r): %r, %r" % (kx, a[:2].tolist(), b[:2].tolist()), "%s whole fd=%s" % (name, case["fd"]))
    if not case["fd"] and name != "LpNorm":
        # complex results on request
        pc = getattr(P, name)(return_complex=True, **o)
        lim = pc.xlimits
        x = lim[:, 0] + rng.uniform(.1, .9, (4, len(lim))) * (lim[:, 1] - lim[:, 0])
        with quiet():
            y, z = pc(x), prob(x)
        rec.check("real", bool(np.iscomplexobj(y) and y.shape == (4, 1) and np.array_equal(y.real, z)), "complex:" + name, "complex results differ from the real ones", name + " complex")


def ndim(case, rec, rng):
    import smt.problems as P
    name = case["name"]
    nd = int(rng.integers(1, 6))
    if name == "NdimStepFunction":
        w = float(rng.choice([10.0, 2.0]))
        prob = P.NdimStepFunction(ndim=nd, width=w)
        f = lambda x: f_tp(x, dict(func="tanh", width=w))
        lim = [[-1, 1]] * nd
    else:
        w = float(rng.choice([0.2, 0.5, 0.0 if name == "NdimRosenbrock" else 0.8, 1.0]))
        prob = getattr(P, name)(ndim=nd, w=w)
        inner, dims, lo, hi = {"NdimCantileverBeam": (f_beam, np.arange(1, 3 * nd, 3), [.01, .3, .5] * nd, [.05, .65, 1.0] * nd),
                               "NdimRobotArm": (f_arm, np.arange(3, 2 * (nd + 1), 2), [0.0, 0.0] * (nd + 1), [1.0, 2 * np.pi] * (nd + 1)),
                               "NdimRosenbrock": (f_rosen, np.arange(1, nd + 1), [-2.0] * (nd + 1), [2.0] * (nd + 1))}[name]
        lo, hi = np.array(lo), np.array(hi)

        def f(x):
            z = np.empty((len(x), len(lo)), x.dtype)
            z[:] = lo + w * (hi - lo)
            z[:, dims] = x
            return inner(z, {})
        lim = np.stack([lo, hi], 1)[dims]
    rec.check("reduced", bool(np.allclose(prob.xlimits, lim)), "limits:" + name, "limits are %s" % prob.xlimits.tolist(), "%s %d limits" % (name, nd))
    judge(rec, rng, prob, f, "%s ndim=%d w=%g" % (name, nd, w), name)


def reduced(case, rec, rng):
    import smt.problems as P
    name = str(rng.choice(list(FORM)))
    prob, o = base(rng, name, int(rng.integers(4)))
    d = prob.options["ndim"]
    w = float(rng.choice([0.2, 0.0, 0.5, 0.9]))
    how = str(rng.choice(["int", "list", "array", "tuple", "nested"]))
    k = int(rng.integers(1, d + 1))
    dims = np.arange(k) if how == "int" else rng.permutation(d)[:k]
    arg = dict(int=k, list=[int(v) for v in dims], tuple=tuple(int(v) for v in dims), array=dims.copy(), nested=[int(v) for v in dims])[how]
    kept = np.array(arg).copy()
    lim0 = prob.xlimits.copy()
    red = P.ReducedProblem(prob, arg, w)
    lo, hi = lim0[:, 0], lim0[:, 1]
    fixed = lo + w * (hi - lo)
    if how == "nested":
        w2 = 0.3
        sub = [int(v) for v in rng.permutation(k)[:max(1, k // 2)]]
        red = P.ReducedProblem(red, sub, w2)
        fixed = fixed.copy()
        fixed[dims] = lo[dims] + w2 * (hi - lo)[dims]
        dims = dims[sub]

    def f(x):
        z = np.empty((len(x), d), x.dtype)
        z[:] = fixed
        z[:, dims] = x
        return FORM[name](z, o)
    sig = "R:%s %s %s %d/%d w=%g" % (name, o.get("func", ""), how, len(dims), d, w)
    rec.check("reduced", bool(np.array_equal(red.xlimits, lim0[dims])), "reduced-limits", "limits are not those of the selected variables", sig)
    y = FORM[name](fixed[None], o)
    if not np.isfinite(y).all():
        raise Inconclusive("fixed values outside the domain of the formula")
    judge(rec, rng, red, f, sig, "R:" + name)
    rec.check("reduced", bool(np.array_equal(prob.xlimits, lim0) and np.array_equal(kept, np.array(arg))), "reduced-changes", "the reduced problem changed the underlying one or the selection", sig)
