"""Shared workload generators and oracles. Nothing here looks at how the code under test is written; it calls the public API."""
import numpy as np
from core import Inconclusive, quiet

# ---------------------------------------------------------------- numerical differentiation with an error estimate


class Slope:
    """numeric slope: est, err (error estimate), noise (measured rounding noise of f), scale (max |f|); err=inf where f has a kink"""


def ridders(f, x, kx, h0, ntab=9, con=1.7):
    """Two extrapolations from different starting steps, which have to agree (guards against false convergence at a hidden kink)."""
    a = ridders1(f, x, kx, h0, ntab, con)
    b = ridders1(f, x, kx, np.asarray(h0) / 6.3, ntab, con)
    r = Slope()
    gap = np.abs(a.est - b.est)
    m = a.err <= b.err
    r.est = np.where(m, a.est, b.est)
    r.err = np.where(np.isfinite(a.err) & np.isfinite(b.err), np.minimum(a.err, b.err) + gap, np.inf)
    r.noise, r.scale = np.maximum(a.noise, b.noise), np.maximum(a.scale, b.scale)
    return r


def ridders1(f, x, kx, h0, ntab=9, con=1.7):
    """Numeric d f / d x_kx at the rows of x, for a row-wise f: (n,nx)->(n,ny), with an honest error estimate:
    the rounding noise of f is measured by evaluating it at points that differ in the last digits only, and kinks are
    recognised by second differences that do not shrink with the step."""
    x = np.asarray(x, float)
    n = x.shape[0]
    hs = np.asarray(h0 if np.ndim(h0) else np.full(n, h0), float)
    pts, H = [], []
    h = hs.copy()
    for i in range(ntab):
        for s in (1, -1):
            p = x.copy()
            p[:, kx] += s * h
            pts.append(p)
        H.append((pts[-2][:, kx] - pts[-1][:, kx]))
        h = h / con
    NP = 6
    tiny = np.maximum(hs * 1e-12, 4 * np.spacing(np.abs(x[:, kx])))
    for q in range(NP):
        p = x.copy()
        p[:, kx] += (q - NP / 2 + 0.5) * tiny
        pts.append(p)
    pts.append(x.copy())
    F = np.asarray(f(np.vstack(pts)), float).reshape(2 * ntab + NP + 1, n, -1)
    P, F0, F = F[2 * ntab:-1], F[-1], F[:2 * ntab]
    base = np.max(np.abs(F), axis=0)
    D = [(F[2 * i] - F[2 * i + 1]) / H[i][:, None] for i in range(ntab)]
    noise = np.max(np.abs(P - P.mean(0)), axis=0) - np.abs(D[ntab // 2]) * (NP * tiny)[:, None]
    noise = np.maximum(noise, 2.3e-16 * base)
    est = np.array(D[0])
    err = np.full(est.shape, np.inf)
    a = {(0, i): D[i] for i in range(ntab)}
    for i in range(1, ntab):
        fac = con * con
        for j in range(1, i + 1):
            a[(j, i)] = (a[(j - 1, i)] * fac - a[(j - 1, i - 1)]) / (fac - 1.0)
            fac *= con * con
            e = np.maximum(np.abs(a[(j, i)] - a[(j - 1, i)]), np.abs(a[(j, i)] - a[(j - 1, i - 1)]))
            e = e + 3 * noise / np.abs(H[i][:, None])
            m = e < err
            est = np.where(m, a[(j, i)], est)
            err = np.where(m, e, err)
    k0, k1 = ntab // 2, ntab - 1
    s0 = np.abs(F[2 * k0] - 2 * F0 + F[2 * k0 + 1]) / H[k0][:, None]
    s1 = np.abs(F[2 * k1] - 2 * F0 + F[2 * k1 + 1]) / H[k1][:, None]
    kink = (s1 > 0.45 * s0) & (s1 > 20 * noise / H[k1][:, None]) & (s1 > 1e-6 * np.abs(est))
    r = Slope()
    r.est, r.err, r.noise, r.scale = est, np.where(kink, np.inf, err), noise, base
    return r


def compare_slope(rec, what, key, analytic, sl, xs, sig, rtol=1e-4, K=30.0, **detail):
    """Three-valued comparison of an analytic derivative with a numeric one. xs: length scale of x."""
    analytic = np.asarray(analytic, float)
    est, err = sl.est, sl.err
    if analytic.shape != est.shape:
        rec.seen(what)
        rec.violation(key + ":shape", "derivative has shape %s instead of %s" % (analytic.shape, est.shape), **detail)
        return
    good = np.isfinite(est) & np.isfinite(err)
    if not good.any():
        rec.inconclusive(what + ":no finite reference")
        return
    dsc = np.max(np.abs(np.where(good, est, 0.0))) + 1e-3 * np.max(np.where(good, sl.scale, 0)) / xs
    tol = K * err + rtol * dsc + 300 * sl.noise / xs
    dec = good & (tol <= 0.03 * dsc)
    if not dec.any():
        rec.inconclusive(what + ":reference too rough")
        return
    bad = dec & ~(np.abs(analytic - est) <= tol)
    rec.ok(what, sig, n=int(dec.sum()))
    if bad.any():
        i = np.argwhere(bad)[0]
        rec.violation(key, "derivative differs from the actual slope: reported %r, actual %r (+-%.1e)" % (
            float(analytic[tuple(i)]), float(est[tuple(i)]), float(err[tuple(i)])), index=i, n_bad=int(bad.sum()), n=int(dec.sum()), **detail)


# ---------------------------------------------------------------- data sets


def lhs(rng, n, d):
    """plain stratified points (own generator, not the one under test)"""
    return np.stack([(rng.permutation(n) + rng.uniform(0.05, 0.95, n)) / n for _ in range(d)], 1)


class Fun:
    """A smooth random test function on R^d with analytic gradient; ny outputs."""

    def __init__(self, rng, d, ny, rough=1.0):
        self.d, self.ny = d, ny
        k = 3
        self.w = rng.normal(size=(ny, k, d)) * rough
        self.c = rng.uniform(0, 6, size=(ny, k))
        self.a = rng.uniform(0.5, 1.5, size=(ny, k)) * rng.choice([-1, 1], size=(ny, k))
        self.lin = rng.normal(size=(ny, d)) * 0.5
        self.b = rng.normal(size=ny)

    def __call__(self, u):
        z = np.einsum("jkd,nd->njk", self.w, u) + self.c
        return (np.sin(z) * self.a).sum(2) + u @ self.lin.T + self.b

    def grad(self, u, kx):
        z = np.einsum("jkd,nd->njk", self.w, u) + self.c
        return (np.cos(z) * self.a * self.w[:, :, kx]).sum(2) + self.lin[:, kx]


class Data:
    """Training data for a random smooth function in a box with arbitrary location and scale."""

    def __init__(self, rng, n, d, ny=1, rough=1.2, plain=False, scale_y=True):
        self.n, self.d, self.ny = n, d, ny
        if plain:
            lo = np.zeros(d)
            wd = np.ones(d)
        else:
            lo = rng.choice([0.0, -1.0, 2.5, -30.0, 100.0], size=d)
            wd = rng.choice([1.0, 2.0, 0.1, 15.0, 40.0], size=d)
        self.xlimits = np.stack([lo, lo + wd], 1)
        self.f = Fun(rng, d, ny, rough)
        self.ysc = float(rng.choice([1.0, 1e-2, 50.0])) if (scale_y and not plain) else 1.0
        self.yof = float(rng.choice([0.0, 10.0, -3.0])) * self.ysc if (scale_y and not plain) else 0.0
        self.x = self.to_x(lhs(rng, n, d))
        self.y = self.value(self.x)

    def to_x(self, u):
        return self.xlimits[:, 0] + u * (self.xlimits[:, 1] - self.xlimits[:, 0])

    def to_u(self, x):
        return (x - self.xlimits[:, 0]) / (self.xlimits[:, 1] - self.xlimits[:, 0])

    def value(self, x):
        return self.ysc * self.f(2 * self.to_u(x) - 1) + self.yof

    def deriv(self, x, kx):
        return self.ysc * self.f.grad(2 * self.to_u(x) - 1, kx) * 2 / (self.xlimits[kx, 1] - self.xlimits[kx, 0])

    def points(self, rng, n, margin=0.04):
        return self.to_x(rng.uniform(margin, 1 - margin, size=(n, self.d)))

    def width(self, kx):
        return self.xlimits[kx, 1] - self.xlimits[kx, 0]


# ---------------------------------------------------------------- models


def sm():
    import smt.surrogate_models as m
    import smt.applications as a
    return m, a


OFF = dict(print_global=False)


def make(name, d, data=None, **opt):
    """Build an untrained surrogate by its public name."""
    m, a = sm()
    kw = dict(OFF)
    kw.update(opt)
    if name in ("RMTB", "RMTC"):
        kw.setdefault("xlimits", data.xlimits)
    if name == "GEKPLS":
        kw.setdefault("xlimits", data.xlimits)
    if name in ("MFK", "MFKPLS", "MFKPLSK"):
        return getattr(a, name)(**kw)
    if name == "VFM":
        return a.VFM(**kw)
    return getattr(m, name)(**kw)


def fit(s, data, derivs=False):
    s.set_training_values(data.x, data.y)
    if derivs:
        for k in range(data.d):
            s.set_training_derivatives(data.x, data.deriv(data.x, k), k)
    with quiet():
        s.train()
    return s


def kriging_opts(rng, name, d, poly=None, corr=None):
    """A random supported option set of a kriging-family model."""
    o = {}
    o["poly"] = poly or str(rng.choice(["constant", "linear", "quadratic"]))
    if name == "KPLSK":
        o["corr"] = "squar_exp"
    elif name in ("KPLS", "GEKPLS"):
        o["corr"] = corr or str(rng.choice(["squar_exp", "abs_exp"]))
    else:
        o["corr"] = corr or str(rng.choice(["squar_exp", "abs_exp", "matern52", "matern32"]))
    if name in ("KPLS", "KPLSK", "GEKPLS"):
        o["n_comp"] = int(rng.integers(1, d + 1)) if name != "GEKPLS" else int(rng.integers(1, min(d, 2) + 1))
    return o


def relmax(a, b):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    return float(np.max(np.abs(a - b)) / (np.max(np.abs(b)) + 1e-300))


# ---------------------------------------------------------------- kriging reference (written from the formulas of the documentation)


def kernel(corr, theta, A, B, pls=None):
    """correlation matrix between the rows of A and B (standardised inputs); pls: (d, n_comp) coefficients or None"""
    D = A[:, None, :] - B[None, :, :]
    theta = np.asarray(theta, float).ravel()
    if pls is not None:
        if corr == "squar_exp":
            D = np.einsum("ijk,kc->ijc", D ** 2, pls ** 2)
        else:
            D = np.einsum("ijk,kc->ijc", np.abs(D), np.abs(pls))
        return np.exp(-(D * theta).sum(-1))
    if corr == "squar_exp":
        return np.exp(-(D ** 2 * theta).sum(-1))
    D = np.abs(D) * theta
    if corr == "abs_exp":
        return np.exp(-D.sum(-1))
    if corr == "matern32":
        s = np.sqrt(3.0) * D
        return ((1 + s) * np.exp(-s)).prod(-1)
    if corr == "matern52":
        s = np.sqrt(5.0) * D
        return ((1 + s + s ** 2 / 3.0) * np.exp(-s)).prod(-1)
    raise ValueError(corr)


def trend(poly, Z):
    n, d = Z.shape
    if poly == "constant":
        return np.ones((n, 1))
    cols = [np.ones(n)] + [Z[:, i] for i in range(d)]
    if poly == "quadratic":
        cols += [Z[:, i] * Z[:, j] for i in range(d) for j in range(i, d)]
    return np.stack(cols, 1)


class GLS:
    """Universal kriging solved through the saddle-point system (no Cholesky, no triangular solves)."""

    def __init__(self, Z, Yn, R, F, noisediag):
        n, p = F.shape
        self.n, self.p = n, p
        self.R = R + np.diag(noisediag)
        self.F = F
        K = np.zeros((n + p, n + p))
        K[:n, :n] = self.R
        K[:n, n:] = F
        K[n:, :n] = F.T
        self.K = K
        self.cond = np.linalg.cond(K)
        rhs = np.vstack([Yn, np.zeros((p, Yn.shape[1]))])
        s = np.linalg.solve(K, rhs)
        self.gamma, self.beta = s[:n], s[n:]
        self.rss = np.einsum("ij,ij->j", Yn - F @ self.beta, self.gamma)

    def mean(self, r, f):
        return r @ self.gamma + f @ self.beta

    def mse(self, r, f):
        v = np.hstack([r, f])
        return 1.0 - np.einsum("ij,ji->i", v, np.linalg.solve(self.K, v.T))

    def loglik(self, m=None):
        """reduced likelihood in the documented (base 10) form; m: degrees of freedom of sigma2"""
        m = m or self.n
        s2 = self.rss / m
        sign, ld = np.linalg.slogdet(self.R)
        return -m * np.log10(s2.sum()) - ld / np.log(10.0)


def standard(X, Y):
    xo, xs = X.mean(0), X.std(0, ddof=1)
    xs = np.where(xs == 0, 1.0, xs)
    ym, ys = Y.mean(0), Y.std(0, ddof=1)
    ys = np.where(ys == 0, 1.0, ys)
    return (X - xo) / xs, (Y - ym) / ys, xo, xs, ym, ys
