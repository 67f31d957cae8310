"""S21: regularised tensor-product splines. The trained function is recovered from predictions only (coefficients in an
independently written basis), its energy is compared with an independent dense minimisation, and smoothness and extrapolation
are watched at the element boundaries."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"space": 100, "energy": 45, "no_worse_than_start": 40, "values": 25, "outputs_independent": 15, "solver_choice": 20, "constants": 8, "smooth": 60, "extrapolation": 40, "clamped": 40, "settings": 12}
RULE = "distinct (model, dimension, orders or elements, approximation order, solver, line search, derivative data, extrapolation, weights)"
ASSUMPTIONS = ["energy functional as documented: half energy_weight times the squared second derivatives at the centroids of the halved elements (scaled by volume and smoothness), half regularization_weight times the squared coefficients, half the p-th powers of the misfits (grad_weight/nx for derivative data)",
               "the nonlinear problem is judged for optimality when nonlinear_maxiter is large; with few iterations only descent is required",
               "solvers without a convergence claim (ilu, gs, jacobi, mg) are required to descend only"]
CASE_LIMIT = 120
EXACT = ["dense-lu", "dense-chol", "lu", "krylov-lu", "krylov-dense"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 2100)
    n = 1 if tier == "quick" else 15
    out = []
    for name in ("RMTB", "RMTC"):
        for i in range(110 * n):
            out.append(dict(m="spline", model=name, s=int(rng.integers(1 << 30)), k=i))
        for i in range(12 * n):
            out.append(dict(m="constants", model=name, s=int(rng.integers(1 << 30)), k=i))
            out.append(dict(m="same", model=name, s=int(rng.integers(1 << 30)), k=i))
    rng.shuffle(out)
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


# ---------------------------------------------------------------- independent bases, in t in [0,1]


def bspline(t, order, ncp, nu):
    """values (nu-th derivative) of all ncp B-splines on the uniform knots"""
    t = np.clip(t, 1e-15, 1 - 1e-15)
    kn = (np.arange(order + ncp) - order + 1.0) / (ncp - order + 1)

    def B(j, k, nu):
        if nu:
            if k == 1:
                return np.zeros(len(t))
            return (k - 1) * (B(j, k - 1, nu - 1) / (kn[j + k - 1] - kn[j]) - B(j + 1, k - 1, nu - 1) / (kn[j + k] - kn[j + 1]))
        if k == 1:
            return ((kn[j] <= t) & (t < kn[j + 1])).astype(float)
        return (t - kn[j]) / (kn[j + k - 1] - kn[j]) * B(j, k - 1, 0) + (kn[j + k] - t) / (kn[j + k] - kn[j + 1]) * B(j + 1, k - 1, 0)
    return np.stack([B(j, order, nu) for j in range(ncp)], 1)


def hermite(t, ne, nu):
    """values of the 2(ne+1) cubic Hermite functions: nodal values, then nodal derivatives with respect to the local coordinate in [-1,1]"""
    t = np.clip(t, 0.0, 1.0)
    e = np.clip(np.ceil(t * ne).astype(int) - 1, 0, ne - 1)
    s = t * ne - e
    P = {0: [1 - 3 * s ** 2 + 2 * s ** 3, 2 * (s ** 3 - 2 * s ** 2 + s), 3 * s ** 2 - 2 * s ** 3, 2 * (s ** 3 - s ** 2)],
         1: [-6 * s + 6 * s ** 2, 2 * (3 * s ** 2 - 4 * s + 1), 6 * s - 6 * s ** 2, 2 * (3 * s ** 2 - 2 * s)],
         2: [-6 + 12 * s, 2 * (6 * s - 4), 6 - 12 * s, 2 * (6 * s - 2)]}[nu]
    out = np.zeros((len(t), 2 * (ne + 1)))
    i = np.arange(len(t))
    out[i, e], out[i, ne + 1 + e], out[i, e + 1], out[i, ne + 2 + e] = [p * float(ne) ** nu for p in P]
    return out


class Space:
    def __init__(self, name, xlimits, size, order=None):
        self.name, self.lim, self.size, self.order = name, xlimits, size, order
        self.d = len(xlimits)
        self.w = xlimits[:, 1] - xlimits[:, 0]
        self.elem = np.array([n - k + 1 for n, k in zip(size, order)]) if name == "RMTB" else np.array(size)

    def t(self, x):
        return (x - self.lim[:, 0]) / self.w

    def jac(self, x, nu=None):
        """row i: all basis functions (derivative orders nu per input) at x_i"""
        nu = nu if nu is not None else [0] * self.d
        t = self.t(x)
        J = np.ones((len(x), 1))
        for k in range(self.d):
            b = bspline(t[:, k], self.order[k], self.size[k], nu[k]) if self.name == "RMTB" else hermite(t[:, k], self.size[k], nu[k])
            b = b / self.w[k] ** nu[k]
            J = (J[:, :, None] * b[:, None, :]).reshape(len(x), -1)
        return J

    def unit(self, k, v=1):
        nu = [0] * self.d
        nu[k] = v
        return nu

    def grid(self, per):
        g = np.meshgrid(*[(np.arange(per * e) + 0.5) / (per * e) for e in self.elem], indexing="ij")
        return self.lim[:, 0] + np.stack([q.ravel() for q in g], 1) * self.w

    def energy(self, smooth):
        x = self.grid(2)
        n = len(x)
        H = 0
        for k in range(self.d):
            J = self.jac(x, self.unit(k, 2))
            H = H + smooth[k] / n * J.T @ J
        return H

    def extrapolated(self, x, w, extrapolate):
        b = np.clip(x, self.lim[:, 0], self.lim[:, 1])
        y = self.jac(b) @ w
        if extrapolate:
            for k in range(self.d):
                y = y + (x - b)[:, k:k + 1] * (self.jac(b, self.unit(k)) @ w)
        return y


class Problem:
    """the documented functional"""

    def __init__(self, H, terms, p):
        self.H, self.terms, self.p = H, terms, p

    def f(self, w, p=None):
        p = p or self.p
        return 0.5 * w @ self.H @ w + sum(0.5 * c * np.sum((J @ w - y) ** p) for J, y, c in self.terms)

    def solve(self, p=None, w=None):
        p = p or self.p
        n = len(self.H)
        if p == 2:
            A = self.H + sum(c * J.T @ J for J, y, c in self.terms)
            return np.linalg.solve(A, sum(c * J.T @ y for J, y, c in self.terms))
        w = self.solve(2) if w is None else w
        f = self.f(w)
        for it in range(400):
            g, A = self.H @ w, self.H.copy()
            for J, y, c in self.terms:
                r = J @ w - y
                g = g + 0.5 * c * p * J.T @ r ** (p - 1)
                A = A + 0.5 * c * p * (p - 1) * (J.T * r ** (p - 2)) @ J
            try:
                s = -np.linalg.solve(A, g)
            except np.linalg.LinAlgError:
                return w
            a = 1.0
            while a > 1e-6:
                f1 = self.f(w + a * s)
                if f1 < f:
                    break
                a /= 2
            if a <= 1e-6:
                return w
            w = w + a * s
            if f - f1 < 1e-15 * f:
                return w
            f = f1
        return w


def configuration(rng, name, d, light=False):
    o = {}
    if name == "RMTB":
        order = [int(rng.choice([3, 4, 3, 2, 5])) for _ in range(d)]
        top = {1: 14, 2: 9, 3: 6}[d]
        size = [int(rng.integers(k, max(top, k + 2) + 1)) for k in order]
        o["order"], o["num_ctrl_pts"] = (order[0], size[0]) if d == 1 and rng.random() < .5 else (list(order), list(size))
    else:
        order = None
        size = [int(rng.integers(1, {1: 9, 2: 5, 3: 3}[d])) for _ in range(d)]
        o["num_elements"] = size[0] if d == 1 else list(size)
    o["approx_order"] = int(rng.choice([2, 2, 4, 4, 6]))
    o["nonlinear_maxiter"] = int(rng.choice([1, 10, 80])) if o["approx_order"] > 2 else int(rng.choice([1, 10]))
    o["energy_weight"] = float(rng.choice([1e-4, 1e-2, 1e-6]))
    o["regularization_weight"] = float(rng.choice([1e-14, 1e-10, 1e-8, 1e-4]))
    o["min_energy"] = bool(rng.random() < .85)
    o["grad_weight"] = float(rng.choice([0.5, 1.0, 0.1]))
    o["smoothness"] = float(rng.choice([1.0, 0.2])) if rng.random() < .5 else [float(v) for v in rng.uniform(.1, 3, d)]
    o["extrapolate"] = bool(rng.random() < .5)
    o["line_search"] = str(rng.choice(["backtracking", "backtracking", "bracketed", "quadratic", "cubic"]))
    return o, order, size


def data(rng, d, ny, derivs):
    n = int(rng.integers(6, {1: 25, 2: 45, 3: 50}[d]))
    dat = Data(rng, n, d, ny)
    X = dat.x.copy()
    for i in range(min(3, n - 3)):                       # points on the boundary
        k = int(rng.integers(d))
        X[i, k] = dat.xlimits[k, int(rng.integers(2))]
    # outputs of moderate size: the p-th powers of the misfits are compared with the energy
    y = dat.f(2 * dat.to_u(X) - 1) * float(rng.choice([1.0, 0.1, 5.0]))
    D = {}
    if derivs:
        for k in range(d):
            if rng.random() < .8:
                D[k] = dat.f.grad(2 * dat.to_u(X) - 1, k) * 2 / dat.width(k) * 1.1
    return dat, X, y, D


class GaveUp(Inconclusive):
    """a linear solver refused an ill-conditioned system"""


def build(name, dat, X, y, D, o, **over):
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in dict(o, **over).items()}
    s = make(name, dat.d, dat, derivative_solver="lu", **kw)
    s.set_training_values(X.copy(), y.copy())
    for k in D:
        s.set_training_derivatives(X.copy(), D[k].copy(), k)
    try:
        with quiet():
            s.train()
    except np.linalg.LinAlgError:
        raise GaveUp
    except RuntimeError as e:
        if "singular" in str(e):
            raise GaveUp
        raise
    return s


def problem(sp, o, X, y, D):
    d = sp.d
    smooth = np.ones(d) * np.array(o["smoothness"])
    n = sp.jac(X[:1]).shape[1]
    H = o["regularization_weight"] * np.eye(n)
    if o["min_energy"]:
        H = H + o["energy_weight"] * sp.energy(smooth)
    J0 = sp.jac(X)
    JD = {k: sp.jac(X, sp.unit(k)) for k in D}
    return lambda j: Problem(H, [(J0, y[:, j], 1.0)] + [(JD[k], D[k][:, j], o["grad_weight"] / d) for k in D], o["approx_order"])


def spline(case, rec, rng):
    name = case["model"]
    d = int(rng.choice([1, 1, 2, 2, 3]))
    ny = int(rng.choice([1, 1, 2]))
    o, order, size = configuration(rng, name, d)
    o["solver"] = str(rng.choice(EXACT + ["krylov", "krylov-mg", "gs", "jacobi", "mg", "ilu"]))
    dat, X, y, D = data(rng, d, ny, rng.random() < .4)
    det = dict(model=name, d=d, options=o, n=len(X), derivatives=sorted(D), xlimits=dat.xlimits)
    sig = (name, d, tuple(order or ()), tuple(size), o["approx_order"], o["solver"], o["line_search"], len(D), o["extrapolate"])
    try:
        s = build(name, dat, X, y, D, o)
    except GaveUp:
        raise Inconclusive("the chosen solver gave up")
    sp = Space(name, dat.xlimits, size, order)
    pro = problem(sp, o, X, y, D)
    per = 5 if name == "RMTB" and max(order) > 4 else 4
    if d == 3 and len(sp.grid(per)) > 4000:
        per = 3 if name == "RMTB" and max(order) < 4 else per
    G = sp.grid(per)
    with quiet():
        yG = s.predict_values(G)
    exact = o["solver"] in EXACT
    if not exact and not np.isfinite(yG).all():
        raise Inconclusive("a solver without a convergence claim diverged")
    J = sp.jac(G)
    W, _, rank, sv = np.linalg.lstsq(J, yG, rcond=None)
    if rank < J.shape[1] or sv[0] > 1e7 * sv[-1]:
        raise Inconclusive("coefficients not determined by the sampled predictions")
    sc = np.max(np.abs(yG)) + np.max(np.abs(y))
    loss = 1e-15 * (1 + np.max(np.abs(dat.xlimits) / sp.w[:, None])) * max(sp.elem) * 100
    rec.check("space", bool(np.isfinite(yG).all() and np.max(np.abs(J @ W - yG)) <= (1e-10 + loss) * (sc + np.max(np.abs(W)))), "space:" + name,
              "the predictions are not a spline of the stated order and elements (distance %.1e)" % np.max(np.abs(J @ W - yG)), sig, **det)
    x = np.vstack([dat.points(rng, 12, 0.0), X[:4]])
    far = dat.to_x(rng.uniform(-.6, 1.6, (14, d)))
    with quiet():
        yx, yf = s.predict_values(x.copy()), s.predict_values(far.copy())
    amp = sv[0] / sv[-1]
    wt = (1e-10 + loss) * (sc + np.max(np.abs(W)))
    rec.check("space", bool(np.max(np.abs(sp.jac(x) @ W - yx)) <= wt * max(amp, 10)), "space:" + name, "the predictions are not a spline of the stated order and elements", sig, **det)
    # ---- outside
    want = sp.extrapolated(far, W, o["extrapolate"])
    smax = sum(np.max(np.abs(far - np.clip(far, dat.xlimits[:, 0], dat.xlimits[:, 1])), 0) / sp.w * sp.elem * 10) + 1 if o["extrapolate"] else 1
    rec.check("extrapolation" if o["extrapolate"] else "clamped", bool(np.isfinite(yf).all() and np.max(np.abs(yf - want)) <= wt * max(amp, 10) * smax * 10), "outside:%s:%s" % (name, o["extrapolate"]),
              "predictions outside the domain are not the documented extrapolation", sig, got=yf, want=want, **det)
    # ---- energy
    for j in range(ny):
        P = pro(j)
        wm = W[:, j]
        with np.errstate(all="ignore"):
            try:
                w2 = P.solve(2)
                wo = P.solve()
            except np.linalg.LinAlgError:
                rec.inconclusive("energy:singular")
                continue
            f0, fm, f2, fo = P.f(np.zeros(len(wm))), P.f(wm), P.f(w2), P.f(wo)
            q2 = P.f(wm, 2), P.f(w2, 2)
        # effect of the rounding of the recovered coefficients on the energy
        noise = 1e-7 * fo + 1e-9 * f0 + 1e3 * wt ** 2 * np.trace(P.H) + 10 * wt * np.sqrt(2 * max(fo, 1e-300) * np.linalg.norm(P.H, 2))
        if not np.isfinite([f0, fm, f2, fo]).all():
            if o["solver"] in ("gs", "jacobi"):     # stationary iterations may diverge
                rec.inconclusive("energy:stationary iterations")
                continue
            rec.violation("energy:finite", "the energy of the trained spline is not finite", **det)
            continue
        if exact and o["approx_order"] > 2:
            rec.check("no_worse_than_start", fm <= max(f2, fo) * (1 + 1e-6) + noise, "energy:descent:" + name,
                      "the trained spline has a higher energy (%.6e) than the starting point (%.6e)" % (fm, f2), sig, optimum=float(fo), **det)
        A = P.H + sum(c * Jt.T @ Jt for Jt, _, c in P.terms)
        cond = np.linalg.cond(A)
        strict = exact or (o["solver"] in ("krylov", "krylov-mg") and cond < 1e4 and len(wm) < 60 and o["nonlinear_maxiter"] >= 10)
        if not strict or (o["approx_order"] > 2 and o["nonlinear_maxiter"] < 60):
            continue
        if fo > f2 * (1 + 1e-6) + noise:
            rec.inconclusive("energy:reference not converged")
            continue
        rec.check("energy", fm <= fo + noise + (1e-5 * (f0 + f2)), "energy:%s:p%d" % (name, o["approx_order"]), "the trained spline does not minimise the energy: %.9e, attainable %.9e (zero spline %.3e)" % (fm, fo, f0), sig, solver=o["solver"], **det)
        if o["approx_order"] == 2:
            # how far predictions can be off by rounding: solve with wobbling matrices
            r0 = sp.jac(x)
            b = sum(c * Jt.T @ yt for Jt, yt, c in P.terms)
            ref = r0 @ np.linalg.solve(A, b)
            wob = 0
            for _ in range(4):
                E = rng.standard_normal(A.shape)
                try:
                    wob = np.maximum(wob, np.abs(r0 @ np.linalg.solve(A + 1e-15 * np.max(np.abs(A)) * (E + E.T), b) - ref))
                except np.linalg.LinAlgError:
                    wob = np.inf
            lim = 100 * wob + 1e-8 * sc + wt * max(amp, 10)
            dec = lim < 1e-2 * sc
            if np.any(dec):
                rec.check("values", bool(np.all(np.abs(yx[:, j] - ref)[dec] <= lim[dec])), "values:" + name, "predictions differ from those of the minimiser by up to %.2e" % np.max(np.abs(yx[:, j] - ref)[dec]), sig, decided=int(dec.sum()), **det)
            else:
                rec.inconclusive("values:too ill-conditioned")
    # ---- smoothness across element boundaries
    with quiet():
        for k in range(d):
            if sp.elem[k] < 2:
                continue
            e = int(rng.integers(1, sp.elem[k]))
            b = dat.xlimits[k, 0] + sp.w[k] * e / sp.elem[k]
            z = dat.points(rng, 3, 0.05)
            js = {}
            for h in (1e-3, 1e-5):
                L, R, M = z.copy(), z.copy(), z.copy()
                L[:, k], R[:, k], M[:, k] = b - h * sp.w[k], b + h * sp.w[k], b
                Q = np.vstack([L, R, M])
                v = s.predict_values(Q).reshape(3, 3, ny)
                g = [s.predict_derivatives(Q, kk).reshape(3, 3, ny) * sp.w[kk] for kk in range(d)]
                js[h] = [np.max(np.ptp(v, axis=0))] + [np.max(np.ptp(q, axis=0)) for q in g]
            big = np.max(np.abs(W)) * np.prod(sp.elem.astype(float) ** 0)
            rest = 1e-8 * (big + sc) * np.max(sp.elem) + wt * 1e3
            cont = name == "RMTC" or order[k] >= 2
            if cont:
                rec.check("smooth", js[1e-5][0] <= 0.05 * js[1e-3][0] + rest, "smooth:values:" + name, "predictions jump at an element boundary", sig + (k,), jumps=js, **det)
            for kk in range(d):
                if name == "RMTC" or (order[k] >= 3 if kk == k else order[k] >= 2):
                    rec.check("smooth", js[1e-5][1 + kk] <= 0.05 * js[1e-3][1 + kk] + rest, "smooth:derivatives:" + name, "first derivatives jump at an element boundary", sig + (k, kk), jumps=js, **det)


def constants(case, rec, rng):
    name = case["model"]
    d = int(rng.choice([1, 2, 3]))
    o, order, size = configuration(rng, name, d)
    o["solver"] = str(rng.choice(EXACT))
    o["regularization_weight"] = float(rng.choice([1e-14, 1e-12]))
    o["min_energy"] = True
    dat, X, y, D = data(rng, d, 2, False)
    c = np.array([float(rng.choice([1.0, -2.5, 0.3])), 0.0])
    allzero = rng.random() < .15      # the starting point of the solver is the solution
    c = 0 * c if allzero else c
    y = np.zeros_like(y) + c
    with_d = {k: np.zeros_like(y) for k in range(d)} if rng.random() < .4 else {}
    linear = not allzero and rng.random() < .5 and len(X) > 3 * d + 4 and (name == "RMTC" or min(order) >= 2)
    g = rng.normal(size=d) * .5 if linear else np.zeros(d)
    y[:, 0] += dat.to_u(X) @ g
    for k in with_d:
        with_d[k][:, 0] = g[k] / dat.width(k)
    s = build(name, dat, X, y, with_d, o)
    x = np.vstack([dat.points(rng, 10, 0.0), dat.to_x(rng.uniform(-.4, 1.4, (5, d)))])
    with quiet():
        v = s.predict_values(x)
    u = np.clip(dat.to_u(x), 0, 1) if not o["extrapolate"] else dat.to_u(x)
    want = np.stack([c[0] + u @ g, np.zeros(len(x))], 1)
    # what regularization may take: reg * |w|^2 against the energy weight
    A = None
    sp = Space(name, dat.xlimits, size, order)
    P = problem(sp, o, X, y, with_d)(0)
    A = P.H + sum(cc * J.T @ J for J, _, cc in P.terms)
    lim = (1e-13 if o["solver"].startswith("krylov") else 1e-15) * np.linalg.cond(A) + 1e-6
    sig = (name, d, tuple(order or ()), tuple(size), bool(linear), o["solver"], o["approx_order"])
    if o["approx_order"] > 2:  # p r**(p - 1) balances reg * |w|
        lim += (10 * o["regularization_weight"]) ** (1 / (o["approx_order"] - 1))
    if lim > 1e-3:
        rec.inconclusive("constants:too ill-conditioned")
        return
    # the regularization pulls towards zero, most of all where neither the data nor the energy hold on: what it does to the minimiser
    for j in range(2):
        Pj = problem(sp, o, X, y, with_d)(j)
        for w in [Pj.solve(2)] + ([Pj.solve()] if o["approx_order"] > 2 else []):
            lim = max(lim, 3 * np.max(np.abs(sp.extrapolated(x, w[:, None], o["extrapolate"])[:, 0] - want[:, j])))
    if lim > 0.05:
        rec.inconclusive("constants:too much regularization")
        return
    rec.check("constants", bool(np.max(np.abs(v - want)) <= lim * 3), "constants:" + name, "a %s output is not reproduced (error %.2e)" % ("linear" if linear else "constant", np.max(np.abs(v - want))), sig, options=o, d=d, got=v, want=want, xlimits=dat.xlimits, derivatives=sorted(with_d))


def same(case, rec, rng):
    """settings that must not change the result"""
    name = case["model"]
    d = int(rng.choice([1, 2]))
    o, order, size = configuration(rng, name, d)
    o["approx_order"] = 2
    o["energy_weight"], o["regularization_weight"], o["min_energy"] = float(rng.choice([1e-2, 1e-3])), float(rng.choice([1e-4, 1e-5])), True
    o["solver"] = "lu"
    dat, X, y, D = data(rng, d, 2, rng.random() < .5)
    s = build(name, dat, X, y, D, o)
    x = np.vstack([dat.points(rng, 10, 0.0), dat.to_x(rng.uniform(-.4, 1.4, (5, d)))])
    with quiet():
        v = s.predict_values(x)
    sc = np.max(np.abs(v)) + np.max(np.abs(y))
    sp = Space(name, dat.xlimits, size, order)
    P = problem(sp, o, X, y, D)(0)
    A = P.H + sum(c * J.T @ J for J, _, c in P.terms)
    cond = np.linalg.cond(A)
    if cond > 1e9:
        raise Inconclusive("too ill-conditioned")
    sig = (name, d, tuple(order or ()), tuple(size), o["line_search"])
    others = EXACT + (["krylov", "krylov-mg"] if cond < 1e4 and len(A) < 60 else [])
    for sol in others:
        if sol == o["solver"]:
            continue
        with quiet():
            a = build(name, dat, X, y, D, o, solver=sol, nonlinear_maxiter=10).predict_values(x)
        rec.check("solver_choice", bool(np.max(np.abs(a - v)) <= (1e-6 + 1e-13 * cond) * sc), "solver:" + sol, "the result depends on the solver: %s differs from lu by %.2e" % (sol, np.max(np.abs(a - v))), sig + (sol,), options=o, d=d, cond=float(cond))
    for what, over in (("line_search", dict(line_search="null")), ("line_search", dict(line_search="cubic")), ("max_print_depth", dict(max_print_depth=0)), ("iterations", dict(nonlinear_maxiter=7))):
        with quiet():
            a = build(name, dat, X, y, D, o, **over).predict_values(x)
        rec.check("settings", bool(np.max(np.abs(a - v)) <= (1e-9 + 1e-14 * cond) * sc), "settings:" + what, "the result depends on %s" % over, sig + (what,), options=o, d=d)
    for j in range(2):
        with quiet():
            a = build(name, dat, X, y[:, j:j + 1], {k: D[k][:, j:j + 1] for k in D}, o).predict_values(x)
        rec.check("outputs_independent", bool(np.max(np.abs(a[:, 0] - v[:, j])) <= (1e-9 + 1e-14 * cond) * sc), "outputs", "an output trained together with another one differs from the output trained alone", sig, options=o, d=d, output=j)
