"""S16: mixed-integer handling. Folding, unfolding and casting against their definitions on random variable lists; sampling and
surrogates in a mixed-integer context against the continuous methods on the projected points."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"fold_unfold": 300, "projection": 300, "argument_unchanged": 600, "names": 300, "sampling": 120, "surrogate": 300, "representations": 36, "limits": 50, "refused": 60}
RULE = "distinct (variable types, what was checked) for conversions; distinct (types, sampling method, representation); distinct (types, inner model, representation, query)"
ASSUMPTIONS = ["limits of integer variables are integers; projected points lie within the relaxed limits", "training points of mixed-integer surrogates are valid points"]
CASE_LIMIT = 120


def cases(tier, seed):
    rng = np.random.default_rng(seed + 1600)
    out = []
    for i in range(60 if tier == "quick" else 1200):
        out.append(dict(m="convert", s=int(rng.integers(1 << 30))))
    for i in range(40 if tier == "quick" else 600):
        out.append(dict(m="sampling", s=int(rng.integers(1 << 30)), k=i % 4))
    for i in range(36 if tier == "quick" else 400):
        out.append(dict(m="surrogate", s=int(rng.integers(1 << 30)), k=i % 6))
    for i in range(3 if tier == "quick" else 20):
        out.append(dict(m="levels", s=int(rng.integers(1 << 30))))
        out.append(dict(m="refuse", s=int(rng.integers(1 << 30))))
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


class Space:
    """a list of variables, written down independently of the code under test"""

    def __init__(self, rng, most=5):
        from smt.applications.mixed_integer import FLOAT, INT, ENUM
        k = int(rng.integers(1, most + 1))
        self.kinds, self.xtypes, self.xlimits = [], [], []
        for i in range(k):
            t = str(rng.choice(["f", "i", "e"]))
            if t == "f":
                lo = float(rng.choice([-5.0, 0.0, 0.25, 100.0]))
                self.xtypes.append(FLOAT)
                self.xlimits.append([lo, lo + float(rng.choice([0.5, 3.0, 40.0]))])
            elif t == "i":
                lo = int(rng.integers(-6, 5))
                self.xtypes.append(INT)
                self.xlimits.append([lo, lo + int(rng.integers(1, 9))])
            else:
                n = int(rng.integers(1, 6)) if rng.random() < .3 else int(rng.integers(2, 5))
                self.xtypes.append((ENUM, n))
                self.xlimits.append(["v%d_%d" % (i, j) for j in range(n)])
            self.kinds.append(t)
        self.width = [t[1] if isinstance(t, tuple) else 1 for t in self.xtypes]
        self.off = np.concatenate([[0], np.cumsum(self.width)]).astype(int)
        self.sig = "".join(k if k != "e" else "e%d" % w for k, w in zip(self.kinds, self.width))

    def folded(self, rng, n):
        x = np.zeros((n, len(self.kinds)))
        for i, k in enumerate(self.kinds):
            if k == "f":
                x[:, i] = rng.uniform(self.xlimits[i][0], self.xlimits[i][1], n)
            elif k == "i":
                x[:, i] = rng.integers(self.xlimits[i][0], self.xlimits[i][1] + 1, n)
            else:
                x[:, i] = rng.integers(0, self.width[i], n)
        return x

    def unfold(self, x):
        z = np.zeros((len(x), self.off[-1]))
        for i, k in enumerate(self.kinds):
            if k == "e":
                z[np.arange(len(x)), self.off[i] + x[:, i].astype(int)] = 1
            else:
                z[:, self.off[i]] = x[:, i]
        return z

    def relaxed(self, rng, n):
        z = np.zeros((n, self.off[-1]))
        for i, k in enumerate(self.kinds):
            o = self.off[i]
            if k == "e":
                z[:, o:o + self.width[i]] = rng.uniform(0, 1, (n, self.width[i]))
                for r in range(n):
                    u = rng.random()
                    if u < .15:  # ties
                        z[r, o:o + self.width[i]] = rng.choice([0.0, 0.5, 1.0], self.width[i])
                    elif u < .2:
                        z[r, o:o + self.width[i]] = rng.choice([0.0, 1.0])
            else:
                lo, hi = self.xlimits[i]
                z[:, o] = rng.uniform(lo, hi, n)
                if k == "i":
                    m = rng.random(n)
                    z[m < .15, o] = np.floor(z[m < .15, o]) + 0.5 * (np.floor(z[m < .15, o]) < hi)
                    z[m > .9, o] = rng.choice([lo, hi], int((m > .9).sum()))
        return z

    def projected(self, z, p):
        """'' or how p fails to be the projection of z"""
        if p.shape != z.shape:
            return "shape %s" % (p.shape,)
        for i, k in enumerate(self.kinds):
            a, b = z[:, self.off[i]:self.off[i + 1]], p[:, self.off[i]:self.off[i + 1]]
            if k == "f":
                if not np.array_equal(a, b):
                    return "continuous variable changed"
            elif k == "i":
                lo, hi = self.xlimits[i]
                if not (np.array_equal(b, np.rint(b)) and (np.abs(a - b) <= 0.5).all() and (b >= lo).all() and (b <= hi).all()):
                    return "integer variable not rounded to a valid value"
            else:
                if not (((b == 0) | (b == 1)).all() and (b.sum(1) == 1).all()):
                    return "not exactly one category"
                if not (a[b == 1] >= a.max(1)).all():
                    return "not the category of the highest level"
        return ""

    def valid_folded(self, x):
        if x.ndim != 2 or x.shape[1] != len(self.kinds):
            return "shape %s" % (x.shape,)
        for i, k in enumerate(self.kinds):
            v = x[:, i]
            lo, hi = (0, self.width[i] - 1) if k == "e" else self.xlimits[i]
            if not ((v >= lo).all() and (v <= hi).all()):
                return "variable %d outside its limits" % i
            if k != "f" and not np.array_equal(v, np.rint(v)):
                return "variable %d not an integer" % i
        return ""


def given_limits(sp, rng):
    u = rng.random()
    if u < .3:
        a = np.empty(len(sp.xlimits), dtype=object)
        for i, v in enumerate(sp.xlimits):
            a[i] = v
        return a
    return [list(v) for v in sp.xlimits]


def context(sp, rng, folded):
    from smt.applications.mixed_integer import MixedIntegerContext
    return MixedIntegerContext(list(sp.xtypes), given_limits(sp, rng), work_in_folded_space=folded)


def unchanged(rec, what, f, x, sp):
    w = x.copy()
    r = f(w)
    rec.check("argument_unchanged", np.array_equal(w, x), "argument:" + what, what + " changed its argument", (sp.sig, what))
    return np.asarray(r)


def convert(case, rec, rng):
    import smt.applications.mixed_integer as mi
    sp = Space(rng)
    n = int(rng.integers(1, 12))
    ctx = context(sp, rng, bool(rng.random() < .5))
    T = sp.xtypes
    X = sp.folded(rng, n)
    U = sp.unfold(X)
    d = dict(types=T, limits=sp.xlimits)
    for how, unf, fold, cast in (("module", lambda x: mi.unfold_with_enum_mask(T, x), lambda x: mi.fold_with_enum_index(T, x), lambda x: mi.cast_to_discrete_values(T, x)),
                                 ("context", ctx.unfold_with_enum_mask, ctx.fold_with_enum_index, ctx.cast_to_discrete_values)):
        u = unchanged(rec, "unfold", unf, X, sp)
        rec.check("fold_unfold", u.shape == U.shape and np.array_equal(u, U), "unfold:" + how, "unfolded points are wrong", (sp.sig, how, "unfold"), got=u, want=U, **d)
        f = unchanged(rec, "fold", fold, U, sp)
        rec.check("fold_unfold", f.shape == X.shape and np.array_equal(f, X), "fold:" + how, "folded points are wrong", (sp.sig, how, "fold"), got=f, want=X, **d)
        rec.check("fold_unfold", np.array_equal(fold(unf(X)), X) and np.array_equal(unf(fold(U)), U), "inverse:" + how, "folding and unfolding are not inverse", (sp.sig, how, "inverse"), **d)
        for layout in ("C", "F", "wide"):
            Z = sp.relaxed(rng, n)
            if layout == "F":
                A = np.asfortranarray(Z)
            elif layout == "wide":
                A = np.repeat(Z, 2, axis=0)[::2]
            else:
                A = Z.copy()
            keep = A.copy()
            p = np.asarray(cast(A))
            rec.check("argument_unchanged", np.array_equal(A, keep), "argument:cast", "the projection changed its argument", (sp.sig, "cast", layout))
            why = sp.projected(Z, p)
            rec.check("projection", not why, "cast:" + how, "projection: " + why, (sp.sig, how, "cast"), z=Z, p=p, **d)
            q = np.asarray(cast(p.copy()))
            rec.check("projection", np.array_equal(p, q), "idempotent:" + how, "projecting twice differs from projecting once", (sp.sig, how, "idempotent"), **d)
            rec.check("projection", np.array_equal(np.asarray(cast(U.copy())), U), "valid:" + how, "projection changes valid points", (sp.sig, how, "valid"), **d)
        one = np.asarray(unf(X[0]))
        rec.check("fold_unfold", np.array_equal(np.atleast_2d(one), U[:1]), "unfold row:" + how, "unfolding a single point differs", (sp.sig, how, "row"), **d)
    for r in range(min(n, 4)):
        for nm, conv in (("module", lambda x: mi.cast_to_mixed_integer(T, sp.xlimits, x)), ("context", ctx.cast_to_mixed_integer)):
            v = list(conv(X[r].copy()))
            good = len(v) == len(sp.kinds)
            for i, k in enumerate(sp.kinds):
                good = good and (v[i] == X[r, i] if k == "f" else (isinstance(v[i], (int, np.integer)) and v[i] == X[r, i]) if k == "i" else v[i] == sp.xlimits[i][int(X[r, i])])
            z = X[r].copy()       # nearly an integer, and off by less than a half
            for i, k in enumerate(sp.kinds):
                if k == "i":
                    z[i] = np.clip(z[i] + float(rng.choice([-1e-12, -.3, .3])), *sp.xlimits[i])
                elif k == "e":
                    z[i] += float(rng.choice([-1e-12, 1e-12]))
            w = list(conv(z))
            good = good and all(k == "f" or w[i] == v[i] for i, k in enumerate(sp.kinds))
            rec.check("names", bool(good), "names:" + nm, "values of a point are wrong: %r" % (v,), (sp.sig, nm), x=X[r], **d)
    for i, k in enumerate(sp.kinds):
        if k == "e":
            got = mi.cast_to_enum_value(sp.xlimits, i, X[:, i].astype(int))
            rec.check("names", list(got) == [sp.xlimits[i][int(j)] for j in X[:, i]], "names:enum", "category names are wrong", (sp.sig, "enum"))
    L = np.asarray(ctx.get_unfolded_xlimits())
    want = []
    for i, k in enumerate(sp.kinds):
        want += [[0.0, 1.0]] * sp.width[i] if k == "e" else [sp.xlimits[i]]
    rec.check("limits", L.shape == (sp.off[-1], 2) and np.array_equal(L, np.array(want, float)) and ctx.get_unfolded_dimension() == sp.off[-1], "limits", "unfolded limits or dimension are wrong", sp.sig, got=L, want=want)


def sampling(case, rec, rng):
    import smt.sampling_methods as m
    sp = Space(rng)
    folded = bool(rng.random() < .5)
    ctx = context(sp, rng, folded)
    cls, kw = [(m.LHS, dict(criterion="c", random_state=int(rng.integers(1000)))), (m.Random, {}), (m.FullFactorial, dict(clip=False)), (m.LHS, dict(criterion="ese", random_state=3))][case["k"]]
    if cls is m.LHS and sp.off[-1] < 2:
        kw["criterion"] = "c"
    meth = ctx.build_sampling_method(cls, **kw)
    for n in (int(rng.integers(2, 25)), int(rng.integers(2, 9))):
        np.random.seed(5)
        with quiet():
            x = np.asarray(meth(n))
        sig = (sp.sig, cls.__name__, folded)
        d = dict(types=sp.xtypes, limits=sp.xlimits)
        rec.check("sampling", x.shape == (n, len(sp.kinds) if folded else sp.off[-1]), "sampling:shape:" + cls.__name__, "%s points of shape %s" % (n, x.shape), sig, **d)
        if x.shape[0] != n:
            return
        z = x if folded else None
        if not folded:
            bad = sp.projected(x, x)
            z = np.stack([x[:, sp.off[i]:sp.off[i + 1]].argmax(1) if k == "e" else x[:, sp.off[i]] for i, k in enumerate(sp.kinds)], 1)
            rec.check("sampling", not bad, "sampling:%s:unfolded" % cls.__name__, "sampled points are not valid: " + bad, sig, **d)
        bad = sp.valid_folded(z)
        rec.check("sampling", not bad, "sampling:%s" % cls.__name__, "sampled points are not valid: " + bad, sig, x=z, **d)
        # the continuous design, projected
        np.random.seed(5)
        lim = np.array([b for i, k in enumerate(sp.kinds) for b in ([[0.0, 1.0]] * sp.width[i] if k == "e" else [sp.xlimits[i]])], float)
        with quiet():
            c = np.asarray(cls(xlimits=lim, **kw)(n)) if n == 0 or cls is not m.LHS else None
        if c is not None:
            bad = sp.projected(c, sp.unfold(z))
            rec.check("sampling", not bad, "sampling:%s:project" % cls.__name__, "the design is not the projected continuous design: " + bad, sig, **d)


def surrogate(case, rec, rng):
    from smt.applications.mixed_integer import MixedIntegerSurrogateModel
    M, _ = sm()
    sp = Space(rng, 3)
    for _ in range(50):
        # enough distinct points
        if sp.off[-1] >= 2 and sp.off[-1] <= 7 and "f" in sp.kinds and max(sp.width) > 1:
            break
        sp = Space(rng, 3)
    else:
        raise Inconclusive("no space")
    n = 16 + 3 * sp.off[-1]
    name = ["KRG", "RBF", "QP", "IDW", "LS", "KPLS"][case["k"]]
    kw = {"KRG": dict(theta0=[0.3], theta_bounds=[0.05, 5.0], nugget=1e-8), "KPLS": dict(theta0=[0.3], theta_bounds=[0.05, 5.0], nugget=1e-8), "RBF": dict(d0=2.0, reg=1e-8)}.get(name, {})
    build = lambda: getattr(M, name)(print_global=False, **{k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()})
    X = sp.folded(rng, n)
    # every value of every variable occurs
    for i, k in enumerate(sp.kinds):
        if k != "f":
            vals = np.arange(sp.width[i]) if k == "e" else np.arange(sp.xlimits[i][0], sp.xlimits[i][1] + 1)
            X[:, i] = np.resize(rng.permutation(vals), n)[rng.permutation(n)]
    U = sp.unfold(X)
    w = rng.normal(size=sp.off[-1])
    sc = np.array([b for i, k in enumerate(sp.kinds) for b in ([1.0] * sp.width[i] if k == "e" else [sp.xlimits[i][1] - sp.xlimits[i][0]])])
    Y = np.sin((U / sc) @ w * 2)[:, None] + ((U / sc) @ rng.normal(size=sp.off[-1]))[:, None]
    np.random.seed(4)
    inner = build()
    inner.set_training_values(U.copy(), Y.copy())
    try:
        with quiet():
            inner.train()
    except Exception:
        raise Inconclusive("inner model cannot be trained on this design")
    d = dict(types=sp.xtypes, limits=sp.xlimits, inner=name)
    Q = sp.relaxed(rng, 8)
    V = sp.unfold(sp.folded(rng, 8))
    got = {}
    for folded in (True, False):
        for via in ("class", "context"):
            ctx = context(sp, rng, folded)
            own = build()
            mod = ctx.build_surrogate_model(own) if via == "context" else MixedIntegerSurrogateModel(list(sp.xtypes), given_limits(sp, rng), own, input_in_folded_space=folded)
            xt = (X if folded else U).copy()
            yt = Y.copy()
            if rng.random() < .4:
                mod.set_training_values(xt, yt * 2 - 1)
                mod.update_training_values(yt)
            else:
                mod.set_training_values(xt, yt)
            np.random.seed(4)
            with quiet():
                mod.train()
            rec.check("argument_unchanged", np.array_equal(xt, X if folded else U) and np.array_equal(yt, Y), "argument:training", "training changed the caller's arrays", (sp.sig, "training"))
            asks = [("valid", V, np.stack([V[:, sp.off[i]:sp.off[i + 1]].argmax(1) if k == "e" else V[:, sp.off[i]] for i, k in enumerate(sp.kinds)], 1) if folded else V)]
            if not folded:
                asks.append(("relaxed", Q, Q))
            else:
                # relaxed integers in folded points
                G = sp.folded(rng, 6)
                for i, k in enumerate(sp.kinds):
                    if k == "i":
                        lo, hi = sp.xlimits[i]
                        G[:, i] = np.clip(G[:, i] + rng.uniform(-.45, .45, 6), lo, hi)
                asks.append(("relaxed", sp.unfold(G), G))
            for lab, z, q in asks:
                # the projected point
                p = z.copy()
                for i, k in enumerate(sp.kinds):
                    o = sp.off[i]
                    if k == "i":
                        p[:, o] = np.rint(p[:, o])
                    elif k == "e":
                        j = p[:, o:o + sp.width[i]].argmax(1)
                        p[:, o:o + sp.width[i]] = np.eye(sp.width[i])[j]
                for query in ("predict_values",) + (("predict_variances",) if name in ("KRG", "KPLS") else ()):
                    q0 = q.copy()
                    with quiet():
                        a = np.asarray(getattr(mod, query)(q0))
                        b = np.asarray(getattr(inner, query)(p))
                    tol = 1e-7 * (np.max(np.abs(b)) + np.max(np.abs(Y)) * (query == "predict_values")) + 1e-12
                    sig = (sp.sig, name, folded, via, lab, query)
                    rec.check("surrogate", a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol)), "surrogate:%s:%s:%s" % (query, lab, "folded" if folded else "unfolded"),
                              "the model does not predict what the underlying model predicts at the projected point", sig, got=a, want=b, **d)
                    rec.check("argument_unchanged", np.array_equal(q0, q), "argument:" + query, query + " changed its argument", (sp.sig, query))
                    if lab == "valid":
                        got[(query, folded, via)] = a
    for q in {k[0] for k in got}:
        vs = [v for k, v in got.items() if k[0] == q]
        rec.check("representations", all(v.shape == vs[0].shape and np.max(np.abs(v - vs[0])) <= 1e-7 * np.max(np.abs(Y)) for v in vs), "representations:" + q, "folded and unfolded representation give different predictions", (sp.sig, name, q), **d)


def refuse(case, rec, rng):
    import smt.applications.mixed_integer as mi
    F, I, E = mi.FLOAT, mi.INT, mi.ENUM
    import smt.sampling_methods as m
    M, _ = sm()
    bad = [([F, I], [[0, 1]]), ([F], [[0, 1], [0, 2]]), ([(E, 3)], [["a", "b"]]), ([(E, 2)], [["a", "b", "c"]]), (["float"], [[0, 1]]), ([F], [[0, 1, 2]]), ([I], [[0]]), ([("other", 2)], [["a", "b"]])]
    for k, (t, l) in enumerate(bad):
        for what, f in (("context", lambda: mi.MixedIntegerContext(t, l)), ("surrogate", lambda: mi.MixedIntegerSurrogateModel(t, l, M.RBF(print_global=False))), ("sampling", lambda: mi.MixedIntegerSamplingMethod(t, l, m.Random))):
            err = None
            try:
                with quiet():
                    f()
            except Exception as e:
                err = e
            rec.check("refused", err is not None, "refused:%s:%d" % (what, k), "an inconsistent specification was accepted: %r %r" % (t, l), (what, k))


def levels(case, rec, rng):
    """training data of several levels: the wrapper hands them on under their names and keeps them under them"""
    from smt.applications.mixed_integer import MixedIntegerSurrogateModel, FLOAT, INT, ENUM
    M, A = sm()
    lim = [[0.0, 2.0], [0, 4], ["a", "b"]]
    types = [FLOAT, INT, (ENUM, 2)]
    fold = lambda n: np.stack([rng.uniform(0, 2, n), np.resize(rng.permutation(5), n), np.resize(rng.permutation(2), n)], 1).astype(float)
    unf = lambda x: np.hstack([x[:, :2], np.eye(2)[x[:, 2].astype(int)]])
    X0 = fold(40)
    X1 = X0[rng.permutation(40)[:22]]
    f = lambda x: (np.sin(2 * x[:, :1]) + .3 * x[:, 1:2] + x[:, 2:])
    y0, y1 = f(X0), 1.5 * f(X1) + .2
    build = lambda: A.MFK(print_global=False, theta0=[.3], theta_bounds=[.05, 5.0], nugget=1e-8, corr="squar_exp")
    ref, folded = build(), bool(rng.random() < .5)
    ref.set_training_values(unf(X0), y0, name=0)
    ref.set_training_values(unf(X1), y1)
    own = build()
    mod = MixedIntegerSurrogateModel(types, lim, own, input_in_folded_space=folded)
    g = (lambda x: x.copy()) if folded else unf
    update = rng.random() < .5
    mod.set_training_values(g(X0), y0 * 3 if update else y0, name=0)
    mod.set_training_values(g(X1), y1)
    if update:
        mod.update_training_values(y0, name=0)
    try:
        with quiet():
            ref.train()
    except Exception:
        raise Inconclusive("inner model cannot be trained on this design")
    with quiet():
        mod.train()
    q = fold(8)
    with quiet():
        a, b = mod.predict_values(g(q)), ref.predict_values(unf(q))
    rec.check("surrogate", bool(np.all(np.abs(a - b) <= 1e-6 * np.max(np.abs(y1)))), "levels:values", "a wrapped multi-fidelity model does not predict what the underlying model does", "levels folded=%s update=%s" % (folded, update), got=a, want=b)
    tp = {k: sorted(v) for k, v in mod.training_points.items() if v}
    rec.check("surrogate", tp == {k: sorted(v) for k, v in own.training_points.items() if v}, "levels:names", "the wrapper keeps the training data under other names: %r" % (tp,), "levels names")
