"""S26: the marginal Gaussian process against its closed form, with every derivative taken by complex steps in an independent solver."""
import numpy as np
from core import quiet, case_rng, Inconclusive
from lib import *

MIN = {"mean": 60, "variance": 50, "marginal_variance": 300, "nonnegative": 60, "reduced": 300, "round_trip": 60, "same_projection": 20, "embedding": 60, "wrong_dimension": 60}
RULE = "distinct (inputs, components, trend, prior, nugget, noise, rough bucket of conditioning)"
ASSUMPTIONS = ["the hyperparameters (optimal_theta) are read from the model, everything else is recomputed from the data",
               "the covariance of the hyperparameters is the inverse of minus the second derivatives of the criterion that training maximises (base-10 likelihood plus log prior), as in the code's documentation",
               "undecided when the correlation system or the covariance of the hyperparameters is too ill-conditioned for the oracle"]
CASE_LIMIT = 120


def cases(tier, seed):
    rng = np.random.default_rng(seed + 2600)
    return [dict(s=int(rng.integers(1 << 30)), k=i) for i in range(160 if tier == "quick" else 3000)]


class Ref:
    """universal kriging with a squared exponential kernel on linearly projected inputs, solved through the saddle-point system
    K = [[R, F], [F', 0]]; all derivatives follow from d K^-1 = -K^-1 dK K^-1. wobble: relative size of random errors put into
    the correlations and their derivatives, to measure what rounding can do to the results"""

    def __init__(self, Z, Yn, poly, noise, d, nc):
        self.Z, self.Y, self.poly, self.noise, self.d, self.nc = Z, Yn, poly, noise, d, nc
        self.F = trend(poly, Z)

    def at(self, theta, Zq, m, v, wobble=0.0, rng=None):
        Z, F, n, d, nc = self.Z, self.F, len(self.Z), self.d, self.nc
        p, nt = F.shape[1], len(theta)
        A = np.reshape(theta, (nc, d)).T

        def err(M):
            if not wobble:
                return M
            E = rng.standard_normal(M.shape)
            if M.shape[0] == M.shape[1]:
                E = E + E.T
            return M + wobble * E * np.max(np.abs(M))

        def k(a, b):
            D = a[:, None, :] - b[None, :, :]
            H = D @ A
            r = np.exp(-0.5 * (H * H).sum(-1))
            dr = [-D[..., i % d] * H[..., i // d] * r for i in range(nt)]
            return r, dr, D, H
        R0, dR, D, H = k(Z, Z)
        R0 = err(R0)
        dR = [err(q) for q in dR]
        R = R0 + self.noise * np.eye(n)
        K = np.zeros((n + p, n + p))
        K[:n, :n], K[:n, n:], K[n:, :n] = R, F, F.T
        out = dict(cond=np.linalg.cond(K))
        I = np.linalg.inv(K)
        s = np.linalg.solve(K, np.vstack([self.Y, np.zeros((p, 1))]))
        y = self.Y[:, 0]
        gam = s[:n, 0]
        out["s2"] = s2 = (y - F @ s[n:, 0]) @ gam / n
        r, dr, _, _ = k(Zq, Z)
        r = err(r)
        w = np.hstack([r, trend(self.poly, Zq)])
        out["mean"] = w @ s[:, 0]
        W = np.linalg.solve(K, w.T).T
        q = 1.0 - (w * W).sum(1)
        out["var"] = s2 * q
        P = I[:n, :n]
        ds2 = np.array([-gam @ dR[i] @ gam / n for i in range(nt)])
        out["dm"] = np.array([dr[i] @ gam - W[:, :n] @ (dR[i] @ gam) for i in range(nt)])
        out["dv"] = np.array([ds2[i] * q + s2 * (-2 * (dr[i] * W[:, :n]).sum(1) + np.einsum("qi,ij,qj->q", W[:, :n], dR[i], W[:, :n])) for i in range(nt)])
        Ri = np.linalg.inv(R)
        RdR = [np.linalg.solve(R, q_) for q_ in dR]
        prec = np.zeros((nt, nt))
        for i in range(nt):
            for j in range(i, nt):
                d2 = H[..., i // d] * H[..., j // d] * D[..., i % d] * D[..., j % d] * R0
                if i // d == j // d:
                    d2 = d2 - D[..., i % d] * D[..., j % d] * R0
                s2ij = (2 * gam @ dR[i] @ P @ dR[j] @ gam - gam @ d2 @ gam) / n
                ld = np.sum(Ri * d2) - np.sum(RdR[i] * RdR[j].T)
                h = (-n * (s2ij / s2 - ds2[i] * ds2[j] / s2 ** 2) - ld) / np.log(10.0) - (2.0 / v if i == j else 0.0)
                prec[i, j] = prec[j, i] = -h
        out["prec"] = prec
        S = np.linalg.inv(prec)
        out["qa"] = np.einsum("in,ij,jn->n", out["dm"], S, out["dm"])
        out["qb"] = np.einsum("in,ij,jn->n", out["dv"], S, out["dv"])
        V = out["var"]
        with np.errstate(all="ignore"):
            out["raw"] = np.where(V > 0, 4 / 3 * V + out["qa"] + out["qb"] / (3 * V), 0.0)
        return out


def roughness(prec, wob):
    """largest relative effect of rounding on the precision of the hyperparameters, over all directions"""
    try:
        L = np.linalg.cholesky(prec)
    except np.linalg.LinAlgError:
        return np.inf
    W = np.linalg.inv(L)
    return max(np.linalg.norm(W @ (o["prec"] - prec) @ W.T, 2) for o in wob)


def run_case(case, rec):
    rng = case_rng(case)
    m, _ = sm()
    d = int(rng.choice([2, 3, 4, 5]))
    nc = int(rng.integers(1, min(d, 3)))
    poly = str(rng.choice(["constant", "constant", "linear", "quadratic"]))
    size = {"constant": 1, "linear": d + 1, "quadratic": (d + 1) * (d + 2) // 2}[poly]
    n = size + int(rng.integers(8, 25))
    dat = Data(rng, n, d, 1)
    if rng.random() < .6:                       # a function of a few directions
        W = np.linalg.qr(rng.normal(size=(d, nc)))[0]
        f = Fun(rng, nc, 1, 1.5)
        dat.y = dat.ysc * f((2 * dat.to_u(dat.x) - 1) @ W) + dat.yof
    o = dict(n_comp=nc, poly=poly, theta0=[float(rng.choice([0.2, 0.7, -0.4]))])
    if rng.random() < .4:
        o["theta0"] = np.array(rng.normal(size=d * nc))
    pm, pv = 0.0, 1.25
    if rng.random() < .4:
        pm, pv = float(rng.choice([0.0, 0.3])), float(rng.choice([0.5, 3.0]))
        o["prior"] = dict(mean=[pm], var=pv)
    nug = 100 * np.finfo(float).eps
    if rng.random() < .8:
        nug = o["nugget"] = float(rng.choice([1e-9, 1e-7, 1e-5]))
    nz = 0.0
    if rng.random() < .2:
        nz = float(rng.choice([1e-4, 1e-2]))
        o["noise0"] = [nz]
    s = m.MGP(print_global=False, **{k: (v.copy() if hasattr(v, "copy") else v) for k, v in o.items()})
    s.set_training_values(dat.x.copy(), dat.y.copy())
    np.random.seed(int(rng.integers(1000)))
    try:
        with quiet():
            s.train()
    except Exception as e:
        if any(t in str(e) for t in ("ill conditioned", "undetermined", "attempts to train", "positive definite")):
            raise Inconclusive("training refused: %s" % str(e)[:50])
        raise
    theta = np.asarray(s.optimal_theta, float).ravel()
    det = dict(d=d, n_comp=nc, n=n, options=o, theta=theta)
    sig = (d, nc, poly, (pm, pv), nug, nz)
    if theta.size != d * nc:
        rec.seen("mean")
        rec.violation("theta:size", "%d hyperparameters for %d inputs and %d components" % (theta.size, d, nc), **det)
        return
    q = dat.points(rng, 7, 0.02)
    if rng.random() < .5:
        q[0] = dat.x[0]
    with quiet():
        mean = np.asarray(s.predict_values(q.copy()))
        V, mse = s.predict_variances(q.copy(), both=True)
        V1 = s.predict_variances(q.copy())
    rec.check("nonnegative", mean.size == 7 and np.size(V) == 7 and np.size(mse) == 7 and bool(np.isfinite(mean).all() and np.isfinite(V).all() and (V >= 0).all() and np.isfinite(mse).all() and (mse >= 0).all()),
              "finite", "predictions or variances are negative or not finite", sig, V=V, mse=mse, mean=mean, **det)
    rec.check("nonnegative", bool(np.array_equal(np.ravel(V), np.ravel(V1))), "both", "the variance depends on whether both are asked for", sig, **det)
    mean, V, mse = mean.ravel(), np.ravel(V), np.ravel(mse)
    Z, Yn, xo, xs, ym, ys = standard(dat.x, dat.y)
    ym, ys = float(ym[0]), float(ys[0])
    ref = Ref(Z, Yn, poly, nug + nz, d, nc)
    Zq = (q - xo) / xs
    o0 = ref.at(theta, Zq, pm, pv)
    cond = o0["cond"]
    if not cond < 1e12:
        rec.inconclusive("correlation system too ill-conditioned")
        return
    tol = 1e-8 + 1e-15 * cond
    sc = np.max(np.abs(mean - ym)) + np.ptp(dat.y)
    want = o0["mean"] * ys + ym
    rec.check("mean", bool(np.all(np.abs(mean - want) <= tol * 10 * sc)), "mean", "the prediction is not that of the closed form", sig, got=mean, want=want, **det)
    v0 = np.maximum(o0["var"], 0)
    s2 = float(o0["s2"])
    rec.check("variance", bool(np.all(np.abs(mse - v0 * ys ** 2) <= 30 * tol * (s2 + v0.max()) * ys ** 2)), "variance", "the variance for fixed hyperparameters is not that of the closed form", sig, got=mse, want=v0 * ys ** 2, **det)
    # ---- the marginal variance
    wob = [ref.at(theta, Zq, pm, pv, 2e-15, rng) for _ in range(5)]
    rough = roughness(o0["prec"], wob)
    spread = lambda key: np.max([np.abs(o_[key] - o0[key]) for o_ in wob], axis=0)
    full = np.maximum(o0["raw"], 0.0)
    rel = 1e-6 + 1e-11 * np.linalg.cond(o0["prec"])        # each entry of the precision has its own rounding
    mlim = 30 * spread("raw") + 1e-6 * np.abs(o0["var"]) + rel * (np.abs(o0["qa"]) + np.abs(o0["qb"]) / np.maximum(3 * o0["var"], 1e-300))
    for i in range(7):
        if rough > 1e-2 or o0["var"][i] < 30 * spread("var")[i] or mlim[i] > 0.05 * full[i]:
            rec.inconclusive("marginal variance:reference too rough")
            continue
        rec.check("marginal_variance", abs(V[i] - full[i] * ys ** 2) <= mlim[i] * ys ** 2, "marginal_variance", "the marginal variance is not that of the closed form: %.6e instead of %.6e (+-%.1e)" % (V[i], full[i] * ys ** 2, mlim[i] * ys ** 2), sig,
                  index=int(i), mse=float(mse[i]), parts=[float(o0[k_][i]) for k_ in ("var", "qa", "qb")], cond=cond, **det)
    # ---- reduced space
    E = s.embedding
    A = theta.reshape(nc, d).T
    B = A / xs[:, None]
    C = B / np.linalg.norm(B)
    rec.check("embedding", np.shape(E["C"]) == C.shape and bool(np.allclose(E["C"], C, rtol=1e-9, atol=1e-11)), "embedding", "the embedding is not the normalised projection found by training", sig, got=E["C"], want=C, **det)
    sv = np.linalg.svd(C, compute_uv=False)
    u = s.get_u_from_x(q.copy())
    rec.check("embedding", u.shape == (7, nc) and bool(np.allclose(u, q @ C, rtol=1e-9, atol=1e-9 * np.max(np.abs(q)))), "embedding:u", "reduced points are not the projections of the points", sig, **det)
    kC = sv[0] / sv[-1] if sv[-1] > 0 else np.inf
    for bad in ([k for k in (nc - 1, nc + 1, d + 1) if k > 0 and k != d and k != nc]):
        for meth in (s.predict_values, s.predict_variances):
            try:
                with quiet():
                    r = meth(np.full((3, bad), 0.5))
            except Exception:
                rec.ok("wrong_dimension", (d, nc, bad))
                continue
            rec.check("wrong_dimension", False, "wrong_dimension", "points with %d inputs were accepted by a model with %d inputs and %d components" % (bad, d, nc), (d, nc, bad), result=r, **det)
    if kC > 1e6:
        rec.inconclusive("embedding is degenerate")
        return
    us = np.vstack([u, u[:3] + 0.1 * np.ptp(dat.x @ C, axis=0) * rng.standard_normal((3, nc))])
    xb = s.get_x_from_u(us.copy())
    rec.check("round_trip", xb.shape == (10, d) and bool(np.allclose(s.get_u_from_x(xb), us, rtol=1e-9 * kC, atol=1e-11 * kC * np.max(np.abs(us)))), "round_trip", "projecting a reduced point to the full space and back changes it", sig, **det)
    with quiet():
        mu_, (Vu, mu2) = np.ravel(s.predict_values(us.copy())), s.predict_variances(us.copy(), both=True)
        mx_, (Vx, mx2) = np.ravel(s.predict_values(xb.copy())), s.predict_variances(xb.copy(), both=True)
    # rounding of the projected coordinates, in standardised units
    eps = 1e-15 * kC * (np.max(np.abs(us)) * np.linalg.norm(B) + 10) * cond
    t2 = 100 * tol + 30 * eps
    scx = max(np.max(np.abs(mx_ - ym)), sc)
    if t2 < 1e-3:
        rec.check("reduced", bool(np.all(np.abs(mu_ - mx_) <= t2 * scx)), "reduced:mean", "predictions in the reduced space differ from those at the same points in the full space", sig, got=mu_, want=mx_, **det)
        rec.check("reduced", bool(np.all(np.abs(mu2 - mx2) <= t2 * (s2 * ys ** 2 + np.max(mx2)))), "reduced:variance", "variances in the reduced space differ from those at the same points in the full space", sig, got=mu2, want=mx2, **det)
        Zb = (xb - xo) / xs
        ob = ref.at(theta, Zb, pm, pv)
        wb = [ref.at(theta, Zb, pm, pv, 2e-15 + eps / cond, rng) for _ in range(5)]
        lim = 30 * np.max([np.abs(o_["raw"] - ob["raw"]) for o_ in wb], axis=0) + 1e-6 * (np.abs(ob["var"]) + np.abs(ob["qa"]) + np.abs(ob["qb"]) / np.maximum(3 * ob["var"], 1e-300))
        lim = lim * ys ** 2
        for i in range(10):
            if mx2[i] > 100 * t2 * s2 * ys ** 2 and lim[i] < 0.05 * Vx[i]:
                rec.check("reduced", abs(Vu[i] - Vx[i]) <= 2 * lim[i], "reduced:marginal", "marginal variances in the reduced space differ from those at the same points in the full space", sig, got=Vu, want=Vx, **det)
    else:
        rec.inconclusive("reduced space:rounding")
    if poly == "constant" and nc < d:
        # move along the null space of the projection
        N = np.linalg.svd(C.T)[2][nc:]
        far = q + (rng.standard_normal((7, len(N))) @ N) * np.min(xs)
        with quiet():
            mf, vf = np.ravel(s.predict_values(far.copy())), s.predict_variances(far.copy(), both=True)[1]
        rec.check("same_projection", bool(np.all(np.abs(mf - mean) <= (t2 + 1e-9) * sc)), "same_projection:mean", "points with the same projection get different predictions", sig, got=mf, want=mean, **det)
        rec.check("same_projection", bool(np.all(np.abs(vf - mse) <= (t2 + 1e-9) * s2 * ys ** 2)), "same_projection:variance", "points with the same projection get different variances", sig, got=vf, want=mse, **det)
