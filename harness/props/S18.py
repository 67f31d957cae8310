"""S18: mixtures of experts. The trainings and predictions of all candidate experts are recorded while a mixture trains; the
mixture's predictions are compared with the combination of its experts by the densities of its clustering."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *
import zoo

MIN = {"probabilities": 30, "smooth": 12, "hard": 12, "variances": 8, "admissible": 30, "best_candidate": 25, "validation_split": 25, "all_points_used": 15, "test_data_apart": 4, "refused": 40, "wrapper": 4, "enabled": 100}
RULE = "distinct (clusters, recombination, heaviside factor, candidates, variances, separate test data, wrapper, dimension)"
ASSUMPTIONS = ["one output", "clusterings whose clusters are too small for a candidate expert are undecided", "candidate experts are observed where they train and predict (SurrogateModel.train, predict_values)"]
CASE_LIMIT = 150
ALL = ["KRG", "KPLS", "KPLSK", "LS", "QP", "RBF", "IDW", "RMTB", "RMTC"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 1800)
    out = []
    for i in range(40 if tier == "quick" else 500):
        out.append(dict(m="mixture", s=int(rng.integers(1 << 30)), k=i))
    for i in range(40 if tier == "quick" else 300):
        out.append(dict(m="select", s=int(rng.integers(1 << 30)), k=i))
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


class Log:
    """what every model trains on and predicts, while inside the with block"""

    def __enter__(self):
        from smt.surrogate_models.surrogate_model import SurrogateModel
        self.cls = SurrogateModel
        self.train0, self.pred0 = SurrogateModel.train, SurrogateModel.predict_values
        self.events = []
        log = self

        def train(s):
            t = s.training_points[None][0]
            log.events.append(["train", s, np.array(t[0]), np.array(t[1]), None])
            e = log.events[-1]
            r = log.train0(s)
            return r

        def predict_values(s, x):
            r = log.pred0(s, x)
            log.events.append(["predict", s, np.array(x, float), np.array(r), None])
            return r
        SurrogateModel.train, SurrogateModel.predict_values = train, predict_values
        return self

    def __exit__(self, *a):
        self.cls.train, self.cls.predict_values = self.train0, self.pred0


def find(moe):
    """experts and clustering of a trained mixture, found by what they are"""
    from smt.surrogate_models.surrogate_model import SurrogateModel
    experts = clus = None
    for k, v in vars(moe).items():
        if isinstance(v, (list, tuple)) and len(v) and all(isinstance(e, SurrogateModel) for e in v):
            experts = list(v)
        if hasattr(v, "means_") and hasattr(v, "weights_"):
            clus = v
    if experts is None or clus is None:
        raise Inconclusive("experts or clustering not found")
    return experts, clus


def probabilities(clus, h, x):
    d = x.shape[1]
    L = []
    for w, m, c in zip(clus.weights_, clus.means_, clus.covariances_):
        c = h * np.atleast_2d(c)[:d, :d]
        z = x - m[:d]
        s, ld = np.linalg.slogdet(c)
        L.append(np.log(w) - 0.5 * (ld + np.einsum("ij,ji->i", z, np.linalg.solve(c, z.T)) + d * np.log(2 * np.pi)))
    L = np.stack(L, 1)
    P = np.exp(L - L.max(1, keepdims=True))
    return P / P.sum(1, keepdims=True)


def several(fs, Q):
    """answers of the experts, and how much rounding alone changes them"""
    E = np.stack([f(Q)[:, 0] for f in fs], 1)
    R = np.stack([np.concatenate([f(Q[i:i + 1])[:, 0] for i in range(len(Q))]) for f in fs], 1)
    Z = np.stack([f(Q * (1 + 3e-15))[:, 0] for f in fs], 1)
    n = np.max(np.abs(E - R), axis=0).max() + np.max(np.abs(E[: -3] - Z[: -3]))
    if n > 1e-3 * np.max(np.abs(E)):
        raise Inconclusive("experts are too ill-conditioned")
    return E, n


def rows(a):
    return {r.tobytes(): i for i, r in enumerate(np.ascontiguousarray(a + 0.0))}


def mixture(case, rec, rng):
    m, a = sm()
    from smt.applications.moe import MOESurrogateModel
    d = int(rng.choice([1, 2, 2, 2, 4]))
    nc = int(rng.choice([1, 2, 2, 3, 2, 4]))
    # separated groups with different behaviour
    cen = (np.arange(nc)[:, None] * 2.5 + rng.uniform(0, .3, (nc, 1))) * np.ones((1, d))
    n = int(rng.integers(24, 34))
    X = np.vstack([c + lhs(rng, n + 4 * i, d) * rng.uniform(.8, 1.6) for i, c in enumerate(cen)])
    fs = [Fun(rng, d, 1, rng.uniform(.5, 2)) for _ in range(nc)]
    grp = np.concatenate([np.full(n + 4 * i, i) for i in range(nc)])
    Y = np.concatenate([fs[g](X[i:i + 1]) + 2 * g for i, g in enumerate(grp)])
    p = rng.permutation(len(X))
    X, Y = X[p], Y[p]
    var = bool(rng.random() < .35)
    pool = ["KRG", "KPLS", "KPLSK"] if var else ["KRG", "KPLS", "LS", "QP", "RBF", "IDW"] + (["RMTB", "RMTC"] if d <= 2 and rng.random() < .2 else [])
    if d == 1:
        pool = [q for q in pool if "PLS" not in q]
    k = min(len(pool), int(rng.integers(1, 5)))
    allow = [str(v) for v in rng.choice(pool, k, replace=False)]
    mode = str(rng.choice(["allow", "allow", "deny"]))
    kw = dict(print_global=False, n_clusters=nc, variances_support=var)
    if mode == "allow":
        kw["allow"] = list(allow)
    else:
        kw["deny"] = [q for q in ALL if q not in allow]
    smooth = bool(rng.random() < .5)
    kw["smooth_recombination"] = smooth
    heavi = smooth and bool(rng.random() < .4)
    kw["heaviside_optimization"] = heavi
    dersup = not var and bool(rng.random() < .2)
    kw["derivatives_support"] = dersup
    test = bool(rng.random() < .25)
    if test:
        i = rng.choice(len(X), 8, replace=False)
        xt_, yt_ = X[i] + 0.02, Y[i]
        kw.update(xtest=xt_.copy(), ytest=yt_.copy())
    if rng.random() < .2:
        kw["ct"] = np.column_stack([Y, np.cos(Y)])
    wrap = bool(rng.random() < .3)
    viaopt = bool(rng.random() < .3)
    if viaopt:
        kw.update(xt=X.copy(), yt=Y.copy())
    s = (MOESurrogateModel if wrap else a.MOE)(**kw)
    if not viaopt:
        s.set_training_values(X.copy(), Y.copy())
    moe = getattr(s, "moe", s)
    det = dict(clusters=nc, smooth=smooth, heaviside=heavi, candidates=allow, mode=mode, variances=var, test=test, wrap=wrap, d=d)
    sig = (nc, smooth, heavi, sorted(allow), mode, var, test, wrap, d)
    seed = int(rng.integers(1000))

    def train(q):
        np.random.seed(seed)
        with quiet():
            q.train()
    log = Log()
    with log:
        try:
            train(s)
        except Exception as e:
            sizes = None
            try:
                _, clus = None, [v for v in vars(moe).values() if hasattr(v, "means_")][0]
                c = kw.get("ct", Y)
                sizes = np.bincount(clus.predict(np.c_[X, c]), minlength=nc)
            except Exception:
                pass
            if "not converged" in str(e) or (sizes is not None and sizes.min() < 14) or (dersup and "empty" in str(e)):
                raise Inconclusive("clusters too small for the experts")
            raise
    experts, clus = find(moe)
    # ---- admissible
    names = []
    for e in experts:
        names.append(type(e).__name__)
    ok = all(q in allow for q in names) and (not var or all(e.supports["variances"] for e in experts)) and (not dersup or all(e.supports["derivatives"] for e in experts)) and len(experts) == nc
    rec.check("admissible", ok, "admissible", "experts %r are not admissible" % names, sig, **det)
    # ---- what was trained on what
    inner = [e for e in log.events if not isinstance(e[1], MOESurrogateModel)]
    index = rows(X)
    groups = {}
    first = {}
    final = {}
    for ev in inner:
        kind, o, x, y, _ = ev
        if kind == "train":
            if id(o) not in first:
                first[id(o)] = ev
                groups.setdefault(x.tobytes(), []).append(o)
            final[id(o)] = ev
    cvals = kw.get("ct", Y)
    label = clus.predict(np.c_[X, cvals])
    yof = lambda x: np.array([Y[index[r.tobytes()], 0] for r in x])
    good_rows = all(r.tobytes() in index for e in inner if e[0] == "train" for r in e[2] + 0.0)
    rec.check("validation_split", good_rows, "rows", "experts are trained on points that are not training points", sig, **det)
    if not good_rows:
        return
    for e in inner:
        if e[0] == "train" and not np.array_equal(e[3].ravel(), yof(e[2] + 0.0)):
            rec.violation("outputs", "an expert is trained with outputs of other points", **det)
            return
    for j, ex in enumerate(experts):
        ev = first[id(ex)]
        cands = groups[ev[2].tobytes()]
        train_rows = {r.tobytes() for r in ev[2] + 0.0}
        scores = {}
        vals = set()
        for o in cands:
            # the first prediction after its first training
            t = [i for i, q in enumerate(inner) if q is first[id(o)]][0]
            nxt = [q for q in inner[t + 1:] if q[1] is o and q[0] == "predict"]
            if not nxt:
                continue
            px = nxt[0][2] + 0.0
            if not all(r.tobytes() in index for r in px):
                continue
            scores[id(o)] = float(np.linalg.norm(nxt[0][3].ravel() - yof(px)))
            vals |= {r.tobytes() for r in px}
        if len(cands) > 1 and len(scores) == len(cands):
            best = min(scores.values())
            rec.check("best_candidate", scores[id(ex)] <= best * (1 + 1e-9) + 1e-12, "best", "the expert of a cluster is not the best of its candidates: %r" % {type(o).__name__: scores[id(o)] for o in cands}, sig, **det)
            rec.check("best_candidate", len({type(o) for o in cands}) == len(cands), "candidates", "candidates repeat", sig)
            want = {q for q in allow if not dersup or getattr(m, q)().supports["derivatives"]}
            rec.check("best_candidate", {type(o).__name__ for o in cands} == want, "all candidates", "candidates tried %r, admissible %r" % ([type(o).__name__ for o in cands], sorted(want)), sig, **det)
        if vals:
            rec.check("validation_split", not (vals & train_rows), "split", "validation points were used to train the candidates", sig, **det)
    if test:
        tr = rows(xt_)
        bad = any(r.tobytes() in tr for e in inner if e[0] == "train" for r in e[2] + 0.0)
        rec.check("test_data_apart", not bad, "test", "separate test data were used for training", sig, **det)
    else:
        used = np.zeros(len(X), int)
        wrong = 0
        for j, ex in enumerate(experts):
            for r in final[id(ex)][2] + 0.0:
                used[index[r.tobytes()]] += 1
                wrong += label[index[r.tobytes()]] != j
        rec.check("all_points_used", bool((used == 1).all()) and wrong == 0, "used", "final experts were trained with %d of %d points (%d in a wrong cluster)" % ((used == 1).sum(), len(X), wrong), sig, **det)
    # ---- predictions
    h = float(getattr(moe, "heaviside_factor", 1.0))
    span = np.ptp(X, axis=0)
    Q = np.vstack([X[rng.permutation(len(X))[:6]] + 0.03, X.min(0) + rng.uniform(0, 1, (8, d)) * span, X.mean(0) + rng.choice([-1, 1], (3, d)) * span * rng.uniform(1, 8, (3, 1))])
    P = probabilities(clus, h, Q)
    with quiet():
        E, ne = several([e.predict_values for e in experts], Q)
        got = s.predict_values(Q.copy())
    fn = getattr(moe, "_proba_cluster", None)
    if fn is not None:
        p = np.asarray(fn(Q))
        rec.check("probabilities", p.shape == P.shape and bool(np.allclose(p.sum(1), 1, atol=1e-9)) and bool((p >= 0).all()) and bool(np.allclose(p, P, atol=1e-6)), "probabilities", "cluster probabilities are wrong or do not sum to one", sig, got=p, want=P, **det)
    if smooth:
        want = (P * E).sum(1)
        ok = np.ones(len(Q), bool)
    else:
        want = E[np.arange(len(Q)), P.argmax(1)]
        ok = (np.sort(P, 1)[:, -1] - np.sort(P, 1)[:, -2] > 1e-6) if nc > 1 else np.ones(len(Q), bool)
    scale = np.max(np.abs(E), axis=1) + 1e-9 + 3e7 * ne
    good = got.shape == (len(Q), 1) and bool(np.all(np.abs(got[ok, 0] - want[ok]) <= 1e-6 * scale[ok]))
    rec.check("smooth" if smooth else "hard", good, "smooth" if smooth else "hard", "the prediction is not the %s of its experts" % ("probability-weighted combination" if smooth else "most probable one"), sig, got=got, want=want, **det)
    if smooth and nc > 1:
        # equal experts: only probabilities that sum to one return their common value
        rec.seen("probability_sum")
    if var:
        with quiet():
            V, nv = several([e.predict_variances for e in experts], Q)
            got = s.predict_variances(Q.copy())
        want = (P ** 2 * V).sum(1) if smooth else V[np.arange(len(Q)), P.argmax(1)]
        vs = np.max(np.abs(V), axis=1) + 1e-12 * np.max(np.abs(V)) + 1e-300
        rec.check("variances", got.shape == (len(Q), 1) and bool(np.all(np.abs(got[ok, 0] - want[ok]) <= 1e-5 * vs[ok] + 1e-9 * np.var(Y) + 30 * nv)), "variances", "variances are not the combination of the experts' variances", sig, got=got, want=want, **det)
    else:
        err = None
        try:
            with quiet():
                s.predict_variances(Q.copy())
        except Exception as e:
            err = e
        rec.check("refused", err is not None, "refused:variances", "variances without variance support were returned", sig)
    # ---- both faces give the same mixture
    if rng.random() < .5:
        o = (a.MOE if wrap else MOESurrogateModel)(**kw)
        if not viaopt:
            o.set_training_values(X.copy(), Y.copy())
        train(o)
        with quiet():
            v, w = o.predict_values(Q.copy()), s.predict_values(Q.copy())
        rec.check("wrapper", v.shape == w.shape and bool(np.all(np.abs(v - w)[:, 0] <= 1e-6 * scale)), "wrapper", "MOE and MOESurrogateModel differ", sig, **det)


def select(case, rec, rng):
    """feature requests, allow and deny lists"""
    m, a = sm()
    from smt.applications.moe import MOESurrogateModel
    sup = {q: getattr(m, q)().supports for q in ALL}
    for t in range(4):
        allow = [str(v) for v in rng.choice(ALL + ["NOPE"], int(rng.integers(0, 5)), replace=False)]
        deny = [str(v) for v in rng.choice(ALL + ["NOPE"], int(rng.integers(0, 7)), replace=False)] if rng.random() < .7 else []
        v, dv = bool(rng.random() < .4), bool(rng.random() < .4)
        want = [q for q in ALL if (not allow or q in allow) and q not in deny and (not v or sup[q]["variances"]) and (not dv or sup[q]["derivatives"])]
        moe = a.MOE(print_global=False, allow=list(allow), deny=list(deny), variances_support=v, derivatives_support=dv, n_clusters=1, smooth_recombination=False)
        det = dict(allow=allow, deny=deny, variances=v, derivatives=dv)
        sig = (sorted(allow), sorted(deny), v, dv)
        try:
            with quiet():
                got = sorted(moe.enabled_experts)
        except ValueError:
            got = []
        rec.check("enabled", got == sorted(want), "enabled", "enabled experts %r, admissible %r" % (got, want), sig, **det)
        if not want:
            x = lhs(rng, 20, 1)
            err = None
            for q in (moe, MOESurrogateModel(print_global=False, allow=list(allow), deny=list(deny), variances_support=v, derivatives_support=dv, n_clusters=1)):
                q.set_training_values(x, np.sin(3 * x))
                try:
                    with quiet():
                        q.train()
                    err = None
                except Exception as e:
                    err = e
                rec.check("refused", err is not None, "refused:selection", "an impossible selection was accepted", sig, **det)
    # later changes of the options count
    moe = a.MOE(print_global=False, n_clusters=1)
    moe.options["allow"] = ["KRG", "LS"]
    moe.options["deny"] = ["KRG"]
    rec.check("enabled", list(moe.enabled_experts) == ["LS"], "enabled:later", "options set later are ignored", "later")
    x = lhs(rng, 25, 2)
    for bad in (dict(n_clusters=9), dict(n_clusters=4)):
        q = a.MOE(print_global=False, allow=["LS"], **bad)
        q.set_training_values(x, x[:, :1])
        err = None
        try:
            with quiet():
                q.train()
        except Exception as e:
            err = e
        rec.check("refused", err is not None, "refused:clusters", "too many clusters were accepted", str(bad))
