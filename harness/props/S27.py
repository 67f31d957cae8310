"""S27: the error measure against the ratio computed independently."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *
from zoo import *

MIN = {"values": 60, "derivatives": 30, "training": 40, "training_derivatives": 10, "refuses": 40, "kept": 60}
RULE = "distinct (model, dimension, outputs, layout of the reference, derivative index, given or stored data)"
ASSUMPTIONS = ["predictions themselves are taken from the model"]
MODELS = ["LS", "QP", "RBF", "IDW", "RMTB", "RMTC", "KRG", "KPLS", "KPLSK", "GEKPLS", "GENN", "MGP", "MFK", "MFKPLS", "MFKPLSK", "MOESM", "MIX"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 2700)
    out = []
    for r in range(4 if tier == "quick" else 40):
        for name in MODELS:
            out.append(dict(m="measure", name=name, s=int(rng.integers(1 << 30))))
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


def ratio(P, Y):
    P, Y = np.asarray(P, float).ravel(), np.asarray(Y, float).ravel()
    return float(np.sqrt(np.sum((P - Y) ** 2)) / np.sqrt(np.sum(Y ** 2)))


def measure(case, rec, rng):
    from smt.utils.misc import compute_rms_error
    name = case["name"]
    sp = Spec(name, rng)
    dat = sp.data()
    s = sp.fitted(dat)
    before = (training_of(s), options_of(s))
    n = int(rng.choice([1, 2, 5, 13]))
    xe = sp.points(dat, n)
    with quiet():
        ref0 = np.array(s.predict_values(xe))
    shape = (n, sp.ny)
    lay = str(rng.choice(["2d", "fortran", "flat", "list-like view"] if sp.ny == 1 else ["2d", "fortran", "list-like view"]))

    def reference(like, spread=0.3):
        v = np.asarray(like, float).reshape(shape)
        r = v + spread * (np.abs(v).max() + 1e-9) * rng.normal(size=shape)
        if rng.random() < .15:
            r = v * 1.0
        if lay == "fortran":
            r = np.asfortranarray(r)
        elif lay == "flat":
            r = r.ravel()
        elif lay == "list-like view":
            b = np.zeros((2 * n, sp.ny))
            b[::2] = r
            r = b[::2]
        return r
    sig = "%s d=%d ny=%d n=%d %s" % (name, sp.d, sp.ny, n, lay)

    def same(got, want):
        return got is not None and np.ndim(got) == 0 and bool(abs(got - want) <= 1e-9 * (want + 1e-3))
    ye = reference(ref0)
    xc, yc = xe.copy(), ye.copy()
    with quiet():
        e = compute_rms_error(s, xe, ye)
    w = ratio(ref0, ye)
    rec.check("values", same(e, w), "values:" + name, "reported %r, the ratio is %r" % (e, w), sig)
    keys = [k for k in sp.ops(s) if k.startswith("deriv")]
    for kx in range(len(keys)):
        with quiet():
            d = np.array(s.predict_derivatives(xe, kx))
        de = reference(d)
        with quiet():
            e = compute_rms_error(s, xe, de, kx)
        w = ratio(d, de)
        rec.check("derivatives", same(e, w), "derivatives:" + name, "reported %r for the derivative, the ratio is %r" % (e, w), sig + " kx=%d" % kx)
    xt, yt = (dat.hx, dat.hy) if sp.levels > 1 else (dat.x, dat.y)
    if name == "MIX":
        xt = None
    if name == "MOESM":
        xt = None
    if xt is not None:
        with quiet():
            P = np.array(s.predict_values(xt))
            e = compute_rms_error(s)
        w = ratio(P, yt)
        rec.check("training", same(e, w), "training:" + name, "reported %r for the training data, the ratio is %r" % (e, w), sig)
        for kx in range(sp.d):
            if sp.derivs and keys:
                with quiet():
                    d = np.array(s.predict_derivatives(xt, kx))
                    e = compute_rms_error(s, kx=kx)
                w = ratio(d, dat.deriv(xt, kx))
                rec.check("training_derivatives", same(e, w), "training-derivatives:" + name, "reported %r for the training derivatives, the ratio is %r" % (e, w), sig + " kx=%d" % kx)
            elif not sp.derivs:
                try:
                    with quiet():
                        e = compute_rms_error(s, kx=kx)
                    rec.seen("refuses")
                    rec.violation("no-reference:" + name, "returned %r although no training derivative is stored" % (e,))
                except Exception:
                    rec.ok("refuses", sig + " no derivative %d" % kx)
    for kw in (dict(xe=xe), dict(ye=ye)):
        try:
            with quiet():
                e = compute_rms_error(s, **kw)
            rec.seen("refuses")
            rec.violation("half-given", "returned %r for %s alone" % (e, list(kw)[0]))
        except Exception:
            rec.ok("refuses", sig + " " + list(kw)[0])
    with quiet():
        ok = np.array_equal(ref0, s.predict_values(xe)) and (training_of(s), options_of(s)) == before
    rec.check("kept", bool(ok and np.array_equal(xe, xc) and np.array_equal(ye, yc)), "changes:" + name, "measuring the error changed the model, its training data or the reference data", sig)
