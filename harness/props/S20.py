"""S20: network training gradients, Jacobian, mini-batches, normalisation, descent, seeds - watched during real trainings."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"param_gradient": 300, "cost_formula": 40, "jacobian": 100, "batches": 60, "train_batches": 40, "forward": 40, "undone": 40, "no_worse": 15, "same_seed": 15, "data_kept": 6}
RULE = "distinct (architecture, data shape, regularisation, gradient enhancement, batch layout) in which the quantity was compared"
ASSUMPTIONS = ["descent is judged for one batch, small learning rates and at least 25 iterations; the line search accepts a last tiny step, allowed for by 0.1 %",
               "the normalisation is the documented mean and population standard deviation (one for constant columns)"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 2000)
    out = []

    def add(m, **k):
        out.append(dict(m=m, s=int(rng.integers(1 << 30)), **k))
    for r in range(1 if tier == "quick" else 12):
        for k in range(40):
            add("gradient", k=k)
        for k in range(40):
            add("batches", k=k)
        for k in range(30):
            add("training", k=k)
        for k in range(20):
            add("descent", k=k)
        for k in range(16):
            add("seeds", k=k)
        for k in range(8):
            add("fit_quality", k=k)
        for k in range(24):
            add("steps", k=k)
        for k in range(4):
            add("refuse", k=k)
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


def net(P, X):
    """independent forward pass: tanh layers, linear output"""
    L = len(P) // 2
    A = X
    for l in range(1, L + 1):
        A = P["W%d" % l] @ A + P["b%d" % l]
        if l < L:
            A = np.tanh(A)
    return A


def net_jac(P, X):
    """complex-step Jacobian (ny, nx, m)"""
    nx, m = X.shape
    out = []
    for j in range(nx):
        Z = X.astype(complex)
        Z[j] += 1e-30j
        out.append(net(P, Z).imag / 1e-30)
    return np.stack(out, 1)


def cost_ref(P, X, Y, J, lambd, gamma):
    m = X.shape[1]
    lambd, gamma = max(0.0, lambd), min(max(0.0, gamma), 1.0)
    c = 0.5 * np.sum((net(P, X) - Y) ** 2) + 0.5 * lambd * sum(np.sum(np.square(v)) for k, v in P.items() if k[0] == "W")
    if J is not None:
        c = c + 0.5 * gamma * np.sum((net_jac(P, X) - J) ** 2)
    return c / m


def arch(rng):
    return int(rng.choice([1, 2, 3, 4])), int(rng.choice([1, 2, 3])), int(rng.choice([1, 2, 3])), int(rng.choice([1, 2, 5, 9]))


def gradient(case, rec, rng):
    from smt.utils.neural_net.model import Model
    nx, ny, deep, wide = arch(rng)
    m = int(rng.choice([1, 2, 3, 7, 20]))
    np.random.seed(int(rng.integers(1 << 30)))
    M = Model.initialize(nx, ny, deep, wide)
    P = {k: v + 0.3 * rng.normal(size=v.shape) for k, v in M.parameters.items()}
    X, Y = rng.normal(size=(nx, m)), rng.normal(size=(ny, m))
    J = rng.normal(size=(ny, nx, m)) if case["k"] % 5 else None
    lambd = float(rng.choice([0.0, 0.1, 2.0, -0.5]))
    gamma = float(rng.choice([0.0, 0.3, 1.0, 0.7, 1.6])) if J is not None else float(rng.choice([0.0]))
    sig = "nx=%d ny=%d deep=%d wide=%d m=%d lambda=%s gamma=%s %s" % (nx, ny, deep, wide, m, lambd, gamma, "J" if J is not None else "noJ")
    keep = {k: v.copy() for k, v in P.items()}
    c = float(np.squeeze(M.cost(P, M.activations, X, Y, J, lambd, gamma)))
    ref = float(cost_ref(P, X, Y, J, lambd, gamma))
    rec.check("cost_formula", abs(c - ref) <= 1e-10 * (abs(ref) + 1), "cost", "training cost is %r, documented formula gives %r" % (c, ref), sig, situation=sig)
    g = M.grad(P, M.activations, X, Y, J, lambd, gamma)
    if set(g) < set(P):
        rec.violation("gradient:missing", "gradient lacks %s" % sorted(set(P) - set(g)), situation=sig)
        return
    for key in P:
        V = rng.normal(size=P[key].shape)
        if rng.random() < .3:
            V[...] = 0
            V.flat[int(rng.integers(V.size))] = 1.0

        def f(T):
            return np.array([[cost_ref({**P, key: P[key] + t[0] * V}, X, Y, J, lambd, gamma)] for t in T])
        sl = ridders(f, np.zeros((1, 1)), 0, 0.2, ntab=8)
        an = np.array([[float(np.sum(np.asarray(g[key]) * V))]])
        gs = np.sqrt(sum(np.sum(np.square(v)) for v in g.values()))
        tol = 30 * sl.err[0, 0] + 1e-7 * (gs + c)
        if not np.isfinite(tol):
            rec.inconclusive("gradient reference")
            continue
        rec.check("param_gradient", abs(an[0, 0] - sl.est[0, 0]) <= tol, "gradient:%s" % key[0], "gradient with respect to %s along a direction is %r, the cost changes by %r" % (key, float(an[0, 0]), float(sl.est[0, 0])), sig + key, situation=sig)
    rec.check("param_gradient", all(np.array_equal(P[k], keep[k]) for k in P), "gradient:arguments", "computing cost and gradient changed the parameters", sig)
    # Jacobian of the raw network and with scale factors
    M.load_parameters(P)
    mu_x, sd_x, mu_y, sd_y = rng.normal(size=(nx, 1)), rng.uniform(.2, 5, (nx, 1)), rng.normal(size=(ny, 1)), rng.uniform(.2, 5, (ny, 1))
    M._scale_factors = {"x": (mu_x, sd_x), "y": (mu_y, sd_y)}
    got = np.asarray(M.gradient(X))
    ref = net_jac(P, (X - mu_x) / sd_x) * sd_y[:, None, :].reshape(ny, 1, 1) / sd_x.reshape(1, nx, 1)
    rec.check("jacobian", got.shape == ref.shape and np.allclose(got, ref, rtol=1e-9, atol=1e-9 * np.abs(ref).max()), "jacobian", "reported Jacobian is not the slope of the network", sig, situation=sig)
    v = np.asarray(M.evaluate(X))
    refv = net(P, (X - mu_x) / sd_x) * sd_y + mu_y
    rec.check("forward", v.shape == refv.shape and np.allclose(v, refv, rtol=1e-11, atol=1e-11 * np.abs(refv).max()), "forward", "network evaluation differs from its definition", sig)
    f = lambda T: np.stack([M.evaluate((X[:, :1].T + t).T).ravel() for t in T])
    for j in range(nx):
        sl = ridders(lambda T: f([np.eye(nx)[j] * t[0] for t in T]), np.zeros((1, 1)), 0, 0.2 * sd_x[j, 0], ntab=8)
        compare_slope(rec, "jacobian", "jacobian:slope", got[:, j, 0][None, :], sl, sd_x[j, 0], sig + " %d" % j, rtol=1e-6)


def batches(case, rec, rng):
    from smt.utils.neural_net.data import random_mini_batches
    nx, ny = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    m = int(rng.choice([1, 2, 5, 6, 7, 12, 13, 33, 64, 65, 100]))
    size = int(rng.choice([1, 2, 3, 5, 6, 12, 32, 64, 100, 1000]))
    X, Y = rng.normal(size=(nx, m)), rng.normal(size=(ny, m))
    J = rng.normal(size=(ny, nx, m)) if case["k"] % 4 else None
    keep = (X.copy(), Y.copy(), None if J is None else J.copy())
    seed = None if rng.random() < .3 else int(rng.integers(1000))
    B = random_mini_batches(X, Y, J, size, seed)
    sig = "m=%d size=%d %s" % (m, size, "J" if J is not None else "noJ")
    check_batches(rec, "batches", B, keep, size, sig)
    rec.check("batches", np.array_equal(X, keep[0]) and np.array_equal(Y, keep[1]) and (J is None or np.array_equal(J, keep[2])), "batches:arguments", "making batches changed the data", sig)
    if seed is not None:
        B2 = random_mini_batches(X, Y, J, size, seed)
        rec.check("batches", len(B) == len(B2) and all(np.array_equal(a[0], b[0]) for a, b in zip(B, B2)), "batches:seed", "the same seed gives other batches", sig)


def check_batches(rec, what, B, data, size, sig):
    X, Y, J = data
    m = X.shape[1]
    seen = np.zeros(m, int)
    msg = None
    for b in B:
        x, y, j = b
        k = x.shape[1]
        if k == 0 or k > max(1, min(size, m)):
            msg = "a batch holds %d examples (size %d)" % (k, size)
            break
        if y.shape[1] != k or (J is not None and (j is None or j.shape[2] != k)):
            msg = "inputs, outputs and partials of a batch differ in number"
            break
        for c in range(k):
            i = int(np.argmin(np.abs(X - x[:, c:c + 1]).sum(0)))
            seen[i] += 1
            if not (np.allclose(X[:, i], x[:, c], rtol=1e-9, atol=1e-12) and np.allclose(Y[:, i], y[:, c], rtol=1e-9, atol=1e-12) and (J is None or np.allclose(J[:, :, i], j[:, :, c], rtol=1e-9, atol=1e-12))):
                msg = "an example's inputs, outputs and partials do not belong together"
                break
        if msg:
            break
    if msg is None and not np.all(seen == 1):
        msg = "examples appear %s times" % np.unique(seen).tolist()
    rec.check(what, msg is None, what, str(msg), sig, situation=sig)


def genn_data(rng, m, nx, ny):
    d = Data(rng, m, nx, ny, rough=1.0)
    return d


def load(s, d, derivs):
    s.set_training_values(d.x, d.y)
    if derivs:
        for k in range(d.d):
            s.set_training_derivatives(d.x, d.deriv(d.x, k), k)


def norm(d, derivs):
    mx, sx, my, sy = d.x.mean(0), d.x.std(0), d.y.mean(0), d.y.std(0)
    sx, sy = np.where(np.ptp(d.x, axis=0) == 0, 1, sx), np.where(np.ptp(d.y, axis=0) == 0, 1, sy)
    J = None
    if derivs:
        J = np.stack([d.deriv(d.x, k) * sx[k] / sy for k in range(d.d)], 1).transpose(2, 1, 0)
    return (((d.x - mx) / sx).T, ((d.y - my) / sy).T, J), (mx, sx, my, sy)


class Watch:
    """records the batches the network is trained on, with the cost the trainer computes"""

    def __init__(self):
        from smt.utils.neural_net.model import Model
        self.M, self.calls = Model, []

    def __enter__(self):
        self.cost, self.grad = self.M.cost, self.M.grad
        w = self

        def grad(self, parameters, activations, x, y_true=None, dy_true=None, lambd=0.0, gamma=0.0):
            g = w.grad(self, parameters, activations, x, y_true, dy_true, lambd, gamma)
            w.calls.append((x, y_true, dy_true, lambd, gamma, {k: np.array(v) for k, v in parameters.items()}, {k: np.array(v) for k, v in g.items()}))
            return g
        self.M.grad = grad
        return self

    def __exit__(self, *a):
        self.M.grad = self.grad


def training(case, rec, rng):
    nx, ny = int(rng.integers(1, 4)), int(rng.choice([1, 1, 2, 3]))
    if rng.random() < .1:
        nx = 5
    m = int(rng.choice([5, 7, 12, 13, 20]))
    derivs = case["k"] % 4 != 0
    d = genn_data(rng, m, nx, ny)
    if case["k"] % 7 == 3 and nx > 1:
        d.x[:, 0] = d.x[0, 0]
        d.y = d.value(d.x)
    size = int(rng.choice([1, 4, 6, 64]))
    o = dict(num_iterations=3, num_epochs=2, deep=int(rng.integers(1, 4)), wide=int(rng.integers(1, 6)), mini_batch_size=size, alpha=0.1,
             lambd=float(rng.choice([0.0, 0.1])), gamma=float(rng.choice([0.0, 0.4, 1.0])), is_print=False, seed=int(rng.integers(1000)) if rng.random() < .7 else None)
    if o["seed"] is None:
        del o["seed"]
    sig = "nx=%d ny=%d m=%d size=%d deep=%d %s const=%s" % (nx, ny, m, size, o["deep"], "J" if derivs else "noJ", case["k"] % 7 == 3)
    s = make("GENN", nx, d, **o)
    load(s, d, derivs)
    with Watch() as w, quiet():
        s.train()
    (Xn, Yn, Jn), (mx, sx, my, sy) = norm(d, derivs)
    groups = []
    for c in w.calls:
        if not groups or groups[-1][0] is not c[0] and not np.array_equal(groups[-1][0], c[0]):
            groups.append(c)
    nb = -(-m // min(size, m))
    # equal batches in a row (end of one epoch, start of the next) merge: only with one batch per epoch, or by chance when seeds repeat
    if nb == 1:
        epochs = [[g] for g in groups]
    else:
        epochs = [groups[i:i + nb] for i in range(0, len(groups), nb)] if len(groups) % nb == 0 else []
    if not epochs:
        rec.inconclusive("batches merged")
    for e in epochs:
        check_batches(rec, "train_batches", [(c[0], c[1], c[2]) for c in e], (Xn, Yn, Jn if (derivs and e[0][2] is not None) else None), size, sig)
        if derivs and o["gamma"] > 0:
            rec.check("train_batches", e[0][2] is not None and e[0][4] == o["gamma"], "train:partials", "training with gradient enhancement does not use the given partials", sig)
    for c in [w.calls[i] for i in sorted(set(rng.integers(0, len(w.calls), 2)))]:
        x, y, dy, lam, gam, P, g = c
        key = str(rng.choice(sorted(P)))
        V = rng.normal(size=P[key].shape)
        sl = ridders(lambda T: np.array([[cost_ref({**P, key: P[key] + t[0] * V}, x, y, dy, lam, gam)] for t in T]), np.zeros((1, 1)), 0, 0.1, ntab=8)
        gs = np.sqrt(sum(np.sum(np.square(v)) for v in g.values()))
        tol = 30 * sl.err[0, 0] + 1e-7 * (gs + cost_ref(P, x, y, dy, lam, gam))
        if np.isfinite(tol):
            rec.check("param_gradient", abs(np.sum(g[key] * V) - sl.est[0, 0]) <= tol, "gradient:training:%s" % key[0], "gradient used in training is not the slope of the cost", sig + key, situation=sig)
    # normalisation: what the trained network predicts, from its parameters alone
    P = s.model.parameters
    Q = d.points(rng, 6)
    ref = net(P, ((Q - mx) / sx).T).T * sy + my
    got = s.predict_values(Q)
    rec.check("forward", np.allclose(got, ref, rtol=1e-9, atol=1e-9 * (np.abs(ref).max() + np.abs(my).max())), "forward:trained", "the prediction is not the trained network with the normalisation undone", sig, situation=sig)
    X, Y, J = s.model.training_data
    rec.check("undone", np.allclose(X.T, d.x, rtol=1e-9, atol=1e-9 * np.abs(d.x).max()) and np.allclose(Y.T, d.y, rtol=1e-9, atol=1e-9 * np.abs(d.y).max()), "undone:values", "normalised training data do not give the training data back", sig)
    if derivs and J is not None:
        ref = np.stack([d.deriv(d.x, k) for k in range(nx)], 1).transpose(2, 1, 0)
        rec.check("undone", np.shape(J) == ref.shape and np.allclose(J, ref, rtol=1e-9, atol=1e-9 * np.abs(ref).max()), "undone:partials", "normalised partials do not give the partials back", sig)
    for k in range(nx):
        dref = net_jac(P, ((Q - mx) / sx).T)[:, k, :].T * sy / sx[k]
        rec.check("jacobian", np.allclose(s.predict_derivatives(Q, k), dref, rtol=1e-8, atol=1e-8 * np.abs(dref).max()), "jacobian:trained", "predicted derivative is not the Jacobian of the trained network", sig)


def descent(case, rec, rng):
    nx, ny = int(rng.integers(1, 3)), int(rng.choice([1, 2]))
    m = int(rng.choice([6, 12, 20]))
    derivs = case["k"] % 3 != 0
    d = genn_data(rng, m, nx, ny)
    o = dict(num_iterations=40, num_epochs=1, deep=int(rng.integers(1, 3)), wide=int(rng.choice([2, 6])), mini_batch_size=64, alpha=float(rng.choice([0.02, 0.05, 0.1])),
             lambd=float(rng.choice([0.0, 0.1])), gamma=float(rng.choice([0.0, 0.4, 1.0])), is_print=False, seed=int(rng.integers(1000)))
    s = make("GENN", nx, d, **o)
    load(s, d, derivs)
    with Watch() as w, quiet():
        s.train()
    x, y, dy, lam, gam, P0, g = w.calls[0]
    gam = o["gamma"] if derivs else 0.0
    (Xn, Yn, Jn), _ = norm(d, derivs)
    c0 = cost_ref(P0, Xn, Yn, Jn, o["lambd"], gam)
    c1 = cost_ref(s.model.parameters, Xn, Yn, Jn, o["lambd"], gam)
    rec.check("no_worse", c1 <= c0 * 1.001 + 1e-6, "descent", "training ends with cost %r, it started with %r" % (float(c1), float(c0)), "nx=%d ny=%d m=%d %s" % (nx, ny, m, {k: o[k] for k in ("alpha", "lambd", "gamma", "deep")}), drop=float(c1 / c0))


def seeds(case, rec, rng):
    nx, ny = int(rng.integers(1, 3)), int(rng.choice([1, 2]))
    d = genn_data(rng, int(rng.choice([6, 13])), nx, ny)
    sd = int(rng.integers(0, 1000)) if case["k"] % 4 else 0
    o = dict(num_iterations=4, num_epochs=2, deep=2, wide=4, mini_batch_size=int(rng.choice([4, 64])), is_print=False, seed=sd)
    Q = d.points(rng, 5)
    R = []
    for g in (1, 2, 3):
        np.random.seed(g)
        np.random.rand(g * 7)
        s = make("GENN", nx, d, **o)
        load(s, d, True)
        with quiet():
            s.train()
            if g == 3:
                s.train()
        R.append(s.predict_values(Q))
    rec.check("same_seed", np.array_equal(R[0], R[1]), "seed:fresh", "two trainings with the same seed give different networks", "%s" % sorted(o.items()))
    rec.check("same_seed", np.array_equal(R[0], R[2]), "seed:retrained", "training again with the same seed gives a different network", "%s" % sorted(o.items()))
    s = make("GENN", nx, d, **dict(o, seed=sd + 1))
    load(s, d, True)
    with quiet():
        s.train()
    rec.check("same_seed", not np.array_equal(R[0], s.predict_values(Q)), "seed:ignored", "another seed gives the same network", "%s" % sorted(o.items()))


def fit_quality(case, rec, rng):
    """the diagnostic helpers leave the model as it was; load_smt_data stores what it is given"""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from smt.surrogate_models.genn import load_smt_data
    nx = int(rng.integers(1, 4))
    m = int(rng.choice([6, 11]))
    d = genn_data(rng, m, nx, 1)
    o = dict(num_iterations=3, num_epochs=2, deep=1, wide=3, is_print=False, seed=3)
    s = make("GENN", nx, d, **o)
    dy = np.hstack([d.deriv(d.x, k) for k in range(nx)])
    load_smt_data(s, d.x if nx > 1 else d.x.ravel(), d.y.ravel(), dy if nx > 1 else dy.ravel())
    t = make("GENN", nx, d, **o)
    load(t, d, True)
    if not all(k in s.training_points.get(None, {}) for k in range(nx + 1)):
        rec.violation("load_smt_data", "load_smt_data did not load all data")
        return
    many = genn_data(rng, m, nx, int(rng.integers(2, 4)))
    u = make("GENN", nx, many, **o)
    load_smt_data(u, many.x, many.y)
    kept = u.training_points[None][0]
    rec.check("data_kept", np.array_equal(kept[0], many.x) and np.array_equal(kept[1], many.y), "load_smt_data:outputs", "several outputs loaded with load_smt_data differ from what was given", "nx=%d ny=%d" % (nx, many.ny))
    for k in range(nx + 1):
        rec.check("data_kept", np.array_equal(s.training_points[None][k][0], t.training_points[None][k][0]) and np.array_equal(s.training_points[None][k][1], t.training_points[None][k][1]), "load_smt_data", "data loaded with load_smt_data differ from what was given", "nx=%d part %d" % (nx, k))
    with quiet():
        s.train()
    Q = d.points(rng, 4)
    before = s.predict_values(Q)
    V = d.points(rng, 5)
    with quiet():
        s.goodness_of_fit(V, d.value(V), np.hstack([d.deriv(V, k) for k in range(nx)]))
    plt.close("all")
    good = all(np.array_equal(s.training_points[None][k][0], t.training_points[None][k][0]) and np.array_equal(s.training_points[None][k][1], t.training_points[None][k][1]) for k in range(nx + 1))
    rec.check("data_kept", good, "goodness_of_fit:data", "assessing the fit replaced the training data", "nx=%d" % nx)
    rec.check("data_kept", np.array_equal(before, s.predict_values(Q)), "goodness_of_fit:model", "assessing the fit changed the predictions", "nx=%d" % nx)


def steps(case, rec, rng):
    """the optimiser on its own: moments as requested, steps along the given gradient, a record of what it visited"""
    from smt.utils.neural_net import optimizer as o
    shapes = {"W1": (3, 2), "b1": (3, 1), "W2": (1, 3)}
    H = {k: rng.uniform(.5, 2, s) for k, s in shapes.items()}
    c = {k: rng.normal(size=s) for k, s in shapes.items()}
    cost = lambda P: np.array([[sum(float(np.sum(H[k] * (P[k] - c[k]) ** 2)) for k in shapes) / 2 + 1.0]])
    grad = lambda P: {k: H[k] * (P[k] - c[k]) for k in shapes}
    P0 = {k: rng.normal(size=s) for k, s in shapes.items()}
    keep = {k: v.copy() for k, v in P0.items()}
    lr = float(rng.choice([0.01, 0.1]))
    b1, b2 = [(0.0, 0.0), (0.9, 0.99), (0.0, 0.9), (0.5, 0.0)][case["k"] % 4]
    kind = "GD" if case["k"] % 3 == 0 else "Adam"
    given = rng.random() < .7
    n = 6

    def run(b1, b2):
        opt = getattr(o, kind).initialize(initial_guess={k: v.copy() for k, v in P0.items()}, cost_function=cost, grad_function=grad if given else None, learning_rate=lr, beta1=b1, beta2=b2)
        best = opt.optimize(max_iter=n, is_print=False)
        return opt, best
    opt, best = run(b1, b2)
    sig = "%s lr=%g b1=%g b2=%g gradient=%s" % (kind, lr, b1, b2, given)
    hist, costs = opt.design_history, [float(np.ravel(v)[0]) for v in opt.cost_history]
    rec.check("optimizer", len(hist) == len(costs) == n + 1, "steps:record", "%d designs and %d costs were recorded for %d steps" % (len(hist), len(costs), n), sig)
    rec.check("optimizer", all(abs(float(cost(p)[0, 0]) - v) <= 1e-10 * v for p, v in zip(hist, costs)), "steps:cost", "a recorded cost is not the cost of the recorded design", sig)
    rec.check("optimizer", all(np.array_equal(hist[0][k], keep[k]) for k in shapes) and all(np.array_equal(hist[-1][k], best[k]) for k in shapes), "steps:ends", "the record does not go from the initial to the final design", sig)
    tol = 1e-6 if given else 1e-4
    for p, q in zip(hist[:-1], hist[1:]):
        g = grad(p)
        move = np.concatenate([(q[k] - p[k]).ravel() for k in shapes])
        gg = np.concatenate([g[k].ravel() for k in shapes])
        if kind == "GD":
            a = -move @ gg / (gg @ gg)
            rec.check("optimizer", 0 < a <= lr and np.max(np.abs(move + a * gg)) <= tol * np.max(np.abs(move)), "steps:GD", "a step of gradient descent is not along the gradient", sig)
        elif (b1, b2) == (0.0, 0.0):
            big = np.abs(gg) > 1e-3
            a = np.median(np.abs(move))
            rec.check("optimizer", 0 < a <= lr and np.allclose(move[big], -a * np.sign(gg[big]), rtol=1e-3), "steps:no moments", "without moments each parameter moves by the same amount against the sign of its gradient; moved %s" % move, sig)
        elif b1 == 0.0:
            big = np.abs(gg) > 1e-3
            rec.check("optimizer", bool(np.all(np.sign(move[big]) == -np.sign(gg[big]))), "steps:no momentum", "without momentum a parameter moved along its gradient", sig)
    if kind == "Adam":
        other, _ = run(0.2, 0.5)
        rec.check("optimizer", not all(np.allclose(hist[-1][k], other.design_history[-1][k], rtol=1e-6) for k in shapes), "steps:ignored", "other moments give the same designs", sig)
    rec.check("optimizer", all(np.array_equal(P0[k], keep[k]) for k in shapes), "steps:guess", "the initial guess was changed", sig)


def refuse(case, rec, rng):
    nx = int(rng.integers(1, 3))
    d = genn_data(rng, 8, nx, 1)
    how = ["other points", "reordered", "shifted", "fewer"][case["k"]]
    s = make("GENN", nx, d, num_iterations=2, num_epochs=1, deep=1, wide=3, is_print=False, seed=1)
    s.set_training_values(d.x, d.y)
    for k in range(nx):
        x, g = d.x, d.deriv(d.x, k)
        if k == nx - 1:
            x = {"other points": d.points(rng, 8), "reordered": d.x[::-1], "shifted": d.x + .1 * np.ptp(d.x, axis=0), "fewer": d.x[:-1]}[how]
            g = g[:len(x)]
        s.set_training_derivatives(x, g, k)
    try:
        with quiet():
            s.train()
        ok = False
    except Exception:
        ok = True
    rec.check("refused", ok, "refuse:" + how, "derivatives at other points than the values were accepted (%s)" % how, "%s nx=%d" % (how, nx))
