"""S06: queries are pure and row-wise: any interleaving of queries in any layout gives every row its own, unchanging answer."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *
import zoo
from zoo import Spec, flat, options_of, training_of, copied

MIN = {"same_answer": 1500, "argument_unchanged": 1500, "model_unchanged": 60, "rowwise_big": 8, "other_model": 40, "result_private": 300, "shape": 180, "numeric_type": 250, "no_drift": 150}
RULE = "distinct (model, options, query kind, way of asking) whose answer was compared with the answer each row got first"
ASSUMPTIONS = ["rows of a batch may differ by rounding (summation order); the tolerance is the model's own measured rounding noise times 200 plus 1e-7 of the answers' size",
               "variance derivatives are documented for one point and asked for one point at a time"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 600)
    out = []
    for r in range(4 if tier == "quick" else 40):
        for name in zoo.NAMES:
            out.append(dict(m="pure", name=name, s=int(rng.integers(1 << 30)), r=r))
    for r in range(1 if tier == "quick" else 4):
        for name in ("KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "RBF", "IDW", "RMTB", "MOE", "GENN", "QP", "MGP"):
            out.append(dict(m="big", name=name, s=int(rng.integers(1 << 30)), r=r))
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


def ask(op, s, x):
    with quiet():
        return flat(op(s, x))


class Rows:
    """first answers, row by row"""

    def __init__(self, spec, s, ops, P):
        self.P, self.spec = P, spec
        self.ref, self.tol, self.drifts = {}, {}, []
        rng = spec.rng
        w = np.ptp(P, axis=0) + 1e-300
        for lab, (op, single) in ops.items():
            rows = [ask(op, s, P[i:i + 1].copy()) for i in range(len(P))]
            self.ref[lab] = rows
            self.drift(lab, op, s, rows)
            tol = []
            for j in range(len(rows[0])):
                big = max(np.max(np.abs(np.where(np.isfinite(r[j]), r[j], 0))) if r[j].size else 0 for r in rows)
                noise = 0.0
                if spec.name != "MIX":
                    for i in range(0, len(P), max(1, len(P) // 6)):
                        near = [ask(op, s, P[i:i + 1] + sg * 2e-13 * w)[j] for sg in (-1, 1, 2)]
                        noise = max(noise, max(np.max(np.abs(v - rows[i][j])) if v.size else 0 for v in near))
                tol.append(200 * min(noise, 1e-3 * big) + (1e-6 if spec.name == "MIX" else 1e-7) * big)
            self.tol[lab] = tol

    def drift(self, lab, op, s, rows):
        """the very same question after many others: not a slow change that each single tolerance would absorb"""
        i = len(self.P) // 2
        x = self.P[i:i + 1]
        first = ask(op, s, x.copy())
        step = [np.max(np.abs(np.nan_to_num(b - a)), initial=0) for a, b in zip(first, ask(op, s, x.copy()))]
        for k in range(30):
            ask(op, s, self.P[k % len(self.P)][None, :].copy())
        last = ask(op, s, x.copy())
        for j in range(len(first)):
            fin = np.where(np.isfinite(first[j]), first[j], 0)
            big = np.max(np.abs(fin), initial=0)
            d = np.max(np.abs(np.nan_to_num(last[j] - first[j])), initial=0) if last[j].shape == first[j].shape else np.inf
            self.drifts.append((lab, d, 5 * step[j] + 1e-9 * big))

    def compare(self, lab, idx, got):
        rows = self.ref[lab]
        for j in range(len(rows[0])):
            want = np.concatenate([rows[i][j] for i in idx], 0) if rows[0][j].ndim and rows[0][j].shape[0] == 1 else rows[idx[0]][j]
            g = got[j] if j < len(got) else None
            if g is None or g.shape != want.shape:
                return "shape %s instead of %s" % (None if g is None else g.shape, want.shape)
            bad = ~((np.abs(g - want) <= self.tol[lab][j]) | (np.isnan(g) & np.isnan(want)) | (g == want))
            if bad.any():
                k = tuple(np.argwhere(bad)[0])
                return "row %d: %r instead of %r (allowed difference %.1e)" % (k[0], float(g[k]), float(want[k]), self.tol[lab][j])
        return None


LAYOUTS = ("plain", "fortran", "strided", "negative", "readonly", "wide_view", "repeat", "permuted", "single", "duplicates", "one_dim", "context", "empty_tail")


def lay(rng, P, kind, lab):
    """-> (array to pass, indices of the rows of P it holds (None: foreign row))"""
    n, d = P.shape
    idx = list(range(n))
    if kind == "permuted":
        idx = list(rng.permutation(n))
    elif kind == "single":
        idx = [int(rng.integers(n))]
    elif kind == "duplicates":
        idx = list(rng.integers(0, n, n + 3))
    elif kind == "empty_tail":
        idx = idx[: int(rng.integers(1, n))]
    X = P[idx].copy()
    if kind == "fortran":
        X = np.asfortranarray(X)
    elif kind == "strided":
        b = np.full((2 * len(X), d), 1e30)
        b[::2] = X
        X = b[::2]
    elif kind == "negative":
        X = X[::-1].copy()[::-1]
    elif kind == "readonly":
        X.setflags(write=False)
    elif kind == "wide_view":
        b = np.full((len(X), d + 3), -1e30)
        b[:, 1:1 + d] = X
        X = b[:, 1:1 + d]
    elif kind == "one_dim" and d == 1 and not lab.startswith(("level", "variances_all")):
        X = X.ravel().copy()
    return X, idx


def pure(case, rec, rng):
    name = case["name"]
    spec = Spec(name, rng)
    data = spec.data()
    s = spec.fitted(data)
    P = np.vstack([spec.points(data, 6), data.x[rng.integers(0, len(data.x), 2)]])
    if name not in ("MIX", "RMTB", "RMTC"):
        P = np.vstack([P, data.to_x(rng.uniform(-.5, 1.5, (2, spec.d)))])
    elif name != "MIX" and spec.opts["extrapolate"]:
        P = np.vstack([P, data.to_x(rng.uniform(-.2, 1.2, (2, spec.d)))])
    ops = spec.ops(s)
    osnap, tsnap = options_of(s), training_of(s)
    rows = Rows(spec, s, ops, P)
    sig0 = "%s d=%d ny=%d %s" % (name, spec.d, spec.ny, {k: v for k, v in spec.opts.items() if k in ("corr", "poly", "solver", "extrapolate", "n_clusters", "smooth_recombination", "rho_regr", "type_bridge", "eval_noise", "allow")})
    labs = list(ops)
    for lab, d, allowed in rows.drifts:
        rec.check("no_drift", d <= allowed, "drift:%s:%s" % (name, lab.rstrip("0123456789")), "the same question asked again after 30 others is answered %.3e differently (allowed %.1e)" % (d, allowed), "%s %s" % (sig0, lab), situation=sig0)
    for lab in labs:
        if lab in ("values", "variances") or lab.startswith("deriv"):
            g = rows.ref[lab][0][0]
            rec.check("shape", g.shape == ((1,) if name == "MGP" else (1, spec.ny)), "shape:%s:%s" % (name, lab.rstrip("0123456789")), "answer for one point has shape %s, expected (1, %d)" % (g.shape, spec.ny), "%s %s" % (sig0, lab))
    other = None
    for step in range(34):
        lab = str(rng.choice(labs))
        op, single = ops[lab]
        kind = LAYOUTS[step % len(LAYOUTS)] if not single else str(rng.choice(["single", "readonly"]))
        X, idx = lay(rng, P, kind, lab)
        if single:
            i = int(rng.integers(len(P)))
            X, idx = P[i:i + 1].copy(), [i]
            if kind == "readonly":
                X.setflags(write=False)
        if kind == "context" and not single:  # unrelated rows in front
            F = spec.points(data, int(rng.integers(1, 30)))
            X = np.vstack([F, X])
        base = X.base if X.base is not None else X
        before = (base.tobytes(), X.tobytes())
        try:
            got = ask(op, s, X)
        except Exception as e:
            rec.seen("same_answer")
            rec.violation("refused:%s:%s:%s" % (name, lab.rstrip("0123456789"), kind), "query refused: %s: %s" % (type(e).__name__, str(e)[:200]), situation=sig0)
            continue
        rec.check("argument_unchanged", (base.tobytes(), X.tobytes()) == before, "argument:%s:%s" % (name, lab.rstrip("0123456789")), "the query changed the array it was given", "%s %s %s" % (sig0, lab, kind))
        if kind == "context" and not single:
            nf = len(F)
            if any(g.ndim == 0 or g.shape[0] != len(X) for g in got):
                rec.violation("shape:%s:%s" % (name, lab.rstrip("0123456789")), "answer does not have one row per point: %s" % [g.shape for g in got], situation=sig0)
                continue
            got2 = [g[nf:] for g in got]
        else:
            got2 = got
        bad = rows.compare(lab, idx, got2)
        rec.check("same_answer", bad is None, "answer:%s:%s:%s" % (name, lab.rstrip("0123456789"), kind), "%s asked as %s: %s" % (lab, kind, bad), "%s %s %s" % (sig0, lab, kind), n=1, situation=sig0)
        if step % 3 == 0:
            # the answer and the argument belong to the caller: scribbling over them must not matter
            with quiet():
                X2 = P[:1].copy() if single else P.copy()
                r = op(s, X2)
                scribble(r)
                X2[...] = 1e9
            got = ask(op, s, P[:1].copy() if single else P.copy())
            bad = rows.compare(lab, [0] if single else list(range(len(P))), got)
            rec.check("result_private", bad is None, "private:%s:%s" % (name, lab.rstrip("0123456789")), "after overwriting a returned answer, %s" % bad, "%s %s" % (sig0, lab))
        if step == 12:
            # another model of the same kind, trained on other data, must not matter
            oth = spec.data()
            other = spec.fitted(oth, seed=99)
            for l2, (op2, s2) in ops.items():
                ask(op2, other, P[:1].copy() if s2 else P.copy())
        if step in (13, 33) and other is not None:
            for l2, (op2, s2) in ops.items():
                bad = rows.compare(l2, [0] if s2 else list(range(len(P))), ask(op2, s, P[:1].copy() if s2 else P.copy()))
                rec.check("other_model", bad is None, "other:%s:%s" % (name, l2.rstrip("0123456789")), "after using another model of the same kind, %s" % bad, sig0 + l2)
    # other numeric types: the same numbers, whatever the type that carries them
    lo, hi = P.min(0), P.max(0)
    for dt in (np.int64, np.int32, np.float32, ">f8", bool):
        if dt is np.float32 or dt == ">f8":
            X = P.astype(dt)
        elif dt is bool:
            X = rng.integers(0, 2, P.shape).astype(bool)
        else:
            X = np.round(P).astype(dt)
        if name == "MIX" and dt is bool:
            continue
        for lab, (op, single) in ops.items():
            Y = X[:1] if single else X
            try:
                want = ask(op, s, Y.astype(float))
                got = ask(op, s, Y)
            except Exception as e:
                rec.seen("numeric_type")
                rec.violation("dtype:%s:%s:%s" % (name, lab.rstrip("0123456789"), np.dtype(dt).name), "%s given as %s: %s: %s" % (lab, np.dtype(dt).name, type(e).__name__, str(e)[:150]), situation=sig0)
                continue
            for j in range(len(want)):
                t = rows.tol[lab][j] * 10 + 1e-9 * np.max(np.abs(want[j]), initial=0) + (3e-3 * (np.max(np.abs(want[j]), initial=0) + rows.tol[lab][j]) if dt is np.float32 else 0)
                good = got[j].shape == want[j].shape and bool(np.all((np.abs(got[j] - want[j]) <= t) | (np.isnan(got[j]) & np.isnan(want[j])) | (got[j] == want[j])))
                rec.check("numeric_type", good, "dtype:%s:%s:%s" % (name, lab.rstrip("0123456789"), np.dtype(dt).name), "%s given as %s differs from the same numbers in double precision" % (lab, np.dtype(dt).name), "%s %s %s" % (name, lab, np.dtype(dt).name), situation=sig0)
    rec.check("model_unchanged", options_of(s) == osnap, "options:%s" % name, "predicting changed the options of the model", sig0)
    rec.check("model_unchanged", training_of(s) == tsnap, "training:%s" % name, "predicting changed the stored training data", sig0)
    rec.sample(situation=sig0, queries=labs)


def scribble(r):
    if isinstance(r, dict):
        for v in r.values():
            scribble(v)
    elif isinstance(r, (tuple, list)):
        for v in r:
            scribble(v)
    elif isinstance(r, np.ndarray) and r.flags.writeable and r.dtype.kind == "f":
        r[...] = np.nan


def big(case, rec, rng):
    """batches large enough for chunked distance evaluations (more than 1e4 and 2e4 point pairs, and exact multiples)"""
    name = case["name"]
    spec = Spec(name, rng)
    n = 25 if name != "MOE" else 40
    data = spec.data(n)
    s = spec.fitted(data)
    nt = len(data.x)
    ops = {k: v for k, v in spec.ops(s).items() if not v[1] and k != "output_derivs"}
    m = {0: 10000 // nt, 1: 10000 // nt + 1, 2: int(rng.integers(810, 1300)), 3: 20000 // nt}[int(rng.integers(4))]
    if name == "MOE":
        m = 450
    X = spec.points(data, m)
    full = {k: ask(op, s, X.copy()) for k, (op, _) in ops.items()}
    pick = np.unique(np.concatenate([[0, m - 1, m // 2], rng.integers(0, m, 12), np.array([10000 // nt - 1, 10000 // nt, 10000 // nt + 1]) % m]))
    rows = Rows(spec, s, ops, X[pick])
    for k in ops:
        bad = rows.compare(k, list(range(len(pick))), [g[pick] for g in full[k]])
        rec.check("rowwise_big", bad is None, "big:%s:%s" % (name, k.rstrip("0123456789")), "in a batch of %d points, %s" % (m, bad), "%s %s m=%d" % (name, k, m))
