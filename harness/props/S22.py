"""S22: contracts of the linear solvers and the line searches."""
import numpy as np
from core import quiet, case_rng, Inconclusive, CaseTimeout
from lib import *

MIN = {"solves": 300, "inputs_kept": 300, "decrease": 300, "curvature": 60, "terminates": 300, "converging": 20}
RULE = "distinct (solver, matrix kind, size, storage of right-hand side and solution) and (line search, function, start, direction, initial step)"
ASSUMPTIONS = ["iterative solvers are judged on systems well inside their iteration limit", "the curvature condition is judged only where an exact search finds a step satisfying it well above rounding"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 2200)
    out = []

    def add(m, **k):
        out.append(dict(m=m, s=int(rng.integers(1 << 30)), **k))
    for r in range(2 if tier == "quick" else 25):
        for name in ("dense-lu", "dense-chol", "lu", "ilu", "krylov", "krylov-lu", "krylov-mg", "krylov-dense", "gs", "jacobi", "mg"):
            for k in range(6):
                add("linear", name=name)
        for name in ("cg", "bicgstab", "gmres"):
            for pc in (None, "lu", "jacobi", "ilu"):
                if name == "cg" and pc in ("ilu", "jacobi"):
                    continue
                add("krylov", solver=name, pc=pc)
        for k in range(6):
            add("multigrid")
        for k in range(3):
            add("clone")
        for ls in ("backtracking", "bracketed", "quadratic", "cubic", "null"):
            for f in FUNS:
                for k in range(2):
                    add("search", ls=ls, f=f)
            for k in range(3):
                add("hopeless", ls=ls)
    return out


def run_case(case, rec):
    globals()[case["m"]](case, rec, case_rng(case))


def spd(rng, n, kind):
    import scipy.sparse as sp
    if kind == "dense":
        Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
        A = (Q * 10 ** rng.uniform(0, 2, n)) @ Q.T
        A = 0.5 * (A + A.T)
    elif kind == "laplace":
        A = 2.2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
    elif kind == "diag":
        A = np.diag(10 ** rng.uniform(-2, 2, n))
    else:  # diagonally dominant sparse
        A = rng.normal(size=(n, n)) * (rng.random((n, n)) < .2)
        A = A + A.T
        A = A + np.diag(np.abs(A).sum(1) * 1.5 + 0.5)
    A = A * 10.0 ** rng.integers(-3, 4)
    return A


def vector(rng, n, kind):
    v = rng.normal(size=n)
    if kind == "zero":
        v = np.zeros(n)
    elif kind == "unit":
        v = np.zeros(n)
        v[rng.integers(n)] = 1.0
    elif kind == "big":
        v = v * 1e8
    return v


def held(rng, v, how):
    """a right-hand side / solution stored as its own array, a column of a C or Fortran matrix, or a strided view"""
    n = len(v)
    if how == "own":
        b = np.array(v)
        return b, b
    if how == "column":
        b = rng.normal(size=(n, 3))
        b[:, 1] = v
        return b[:, 1], b
    if how == "fortran":
        b = np.asfortranarray(rng.normal(size=(n, 3)))
        b[:, 1] = v
        return b[:, 1], b
    b = rng.normal(size=2 * n)
    b[::2] = v
    return b[::2], b


def printer():
    from smt.utils.printer import Printer
    p = Printer()
    p.active = False
    return p


def solve_all(rec, rng, s, A, mtx, key, sig, tol, repeat=3):
    n = len(A)
    A0 = A.copy()
    for q in range(repeat):
        kind = str(rng.choice(["random", "zero", "unit", "big"]))
        how, how2 = (str(h) for h in rng.choice(["own", "column", "fortran", "strided"], 2))
        b = vector(rng, n, kind)
        rhs, rbase = held(rng, b, how)
        rb0 = rbase.copy()
        x = np.linalg.solve(A0, b)
        guess = str(rng.choice(["none", "zero", "random", "exact"]))
        if guess == "none":
            got = s._solve(rhs)
        else:
            g = {"zero": np.zeros(n), "random": rng.normal(size=n) * (np.abs(x).max() or 1.0), "exact": x.copy()}[guess]
            sol, sbase = held(rng, g, how2)
            got = s._solve(rhs, sol, ind_y=0)
            if got is None or not np.array_equal(np.asarray(sol), np.asarray(got)):
                rec.violation("returned:" + key, "the returned solution is not the array it was asked to fill", situation=sig)
                return
        sg = "%s %s %s %s" % (sig, kind, how if guess == "none" else how + "/" + how2, guess)
        e = np.abs(np.asarray(got) - x).max()
        sc = np.abs(x).max() if kind != "zero" else 1.0
        rec.check("solves", bool(e <= tol * sc), "solution:" + key, "solution off by %.2e relative (allowed %.0e), residual %.2e" % (e / sc, tol, np.linalg.norm(A0 @ got - b) / (np.linalg.norm(b) + 1e-300)), sg)
        same = np.array_equal(rbase, rb0) and np.array_equal(np.asarray(mtx.A if hasattr(mtx, "A") else mtx), A0)
        rec.check("inputs_kept", bool(same), "altered:" + key, "the matrix or the right-hand side was altered", sg)


def linear(case, rec, rng):
    import scipy.sparse as sp
    from smt.utils.linear_solvers import get_solver
    name = case["name"]
    n = int(rng.choice([1, 2, 5, 12, 40]))
    kind = str(rng.choice(["dense", "laplace", "diag", "dominant"]))
    if name in ("gs", "jacobi"):
        kind = "dominant"
    A = spd(rng, n, kind)
    mtx = sp.csc_matrix(A)
    if name.startswith("dense") and rng.random() < .7:  # a plain array, stored by rows or by columns
        mtx = np.array(A, order=str(rng.choice(["C", "F"])))
    s = get_solver(name)
    s._setup(mtx, printer())
    sig = "%s %s n=%d" % (name, kind, n)
    if name in ("gs", "jacobi"):
        return stationary(rec, rng, s, A, mtx, name, sig)
    if name == "ilu":
        return ilu(rec, rng, s, A, mtx, sig)
    solve_all(rec, rng, s, A, mtx, name, sig, 1e-8 if "krylov" not in name else 1e-6)


def ilu(rec, rng, s, A, mtx, sig):
    """an incomplete factorisation is only an approximate inverse: it has to be deterministic, linear and keep its inputs"""
    n = len(A)
    b, c = rng.normal(size=n), rng.normal(size=n)
    x, y, z = s._solve(b), s._solve(c), s._solve(2 * b + c)
    sc = np.abs(x).max() + np.abs(y).max() + 1e-300
    rec.check("solves", bool(np.all(np.abs(2 * x + y - z) <= 1e-9 * sc)), "solution:ilu", "incomplete factorisation is not linear in the right-hand side", sig)
    rec.check("inputs_kept", bool(np.array_equal(mtx.A, A)), "altered:ilu", "matrix altered", sig)


def stationary(rec, rng, s, A, mtx, name, sig):
    """ten sweeps on a strictly dominant matrix: the error has to shrink by the known contraction factor in every norm that bounds it"""
    n = len(A)
    b = rng.normal(size=n)
    x = np.linalg.solve(A, b)
    D = np.diag(A)
    q = (np.abs(A).sum(1) - np.abs(D)) / D
    q = float(q.max())
    for how in ("own", "column"):
        sol, base = held(rng, rng.normal(size=n), how)
        e0 = np.abs(sol - x).max()
        rhs = b.copy()
        s._solve(rhs, sol)
        e = np.abs(sol - x).max()
        rec.check("converging", bool(e <= e0 * q ** 10 * (1 + 1e-6) + 1e-13 * np.abs(x).max() * 10), "contraction:" + name, "error went from %.2e to %.2e, contraction factor is %.2f per sweep" % (e0, e, q), sig + how)
        rec.check("inputs_kept", bool(np.array_equal(rhs, b) and np.array_equal(mtx.A, A)), "altered:" + name, "inputs altered", sig + how)
        # repeated calls converge to the solution
        for r in range(60):
            s._solve(rhs, sol)
        rec.check("solves", bool(np.abs(sol - x).max() <= 1e-9 * (np.abs(x).max() + 1e-300) + e0 * q ** 500), "solution:" + name, "does not converge to the solution", sig + how)


def krylov(case, rec, rng):
    import scipy.sparse as sp
    from smt.utils.linear_solvers import KrylovSolver
    n = int(rng.choice([1, 3, 10, 30]))
    kind = str(rng.choice(["dense", "laplace", "diag", "dominant"]))
    A = spd(rng, n, kind) if case["pc"] not in ("jacobi", "ilu") else spd(rng, n, "dominant")
    s = KrylovSolver(solver=case["solver"], pc=case["pc"], atol=1e-12, ilimit=400)
    mtx = sp.csc_matrix(A)
    s._setup(mtx, printer())
    sig = "krylov %s %s %s n=%d" % (case["solver"], case["pc"], kind, n)
    if case["solver"] == "bicgstab":
        # can break down by its nature: judged by the residual on well-conditioned systems only
        if kind in ("dense", "diag"):
            raise Inconclusive("bicgstab on an ill-conditioned system")
    solve_all(rec, rng, s, A, mtx, "krylov-%s-%s" % (case["solver"], case["pc"]), sig, 1e-6)


def multigrid(case, rec, rng):
    """with cycles and a smoother the multigrid iteration converges to the solution of the finest system"""
    import scipy.sparse as sp
    from smt.utils.linear_solvers import MultigridSolver
    n = int(rng.choice([9, 17, 33]))
    A = spd(rng, n, "laplace")
    ops, fine = [], n
    for level in range(int(rng.choice([1, 2, 3]))):
        nc = (fine + 1) // 2
        P = np.zeros((fine, nc))
        for j in range(nc):
            P[2 * j, j] = 1
            for q in (2 * j - 1, 2 * j + 1):
                if 0 <= q < fine:
                    P[q, j] = .5
        ops.append(sp.csc_matrix(P))
        fine = nc
    smoother = str(rng.choice(["gs", "jacobi"]))
    s = MultigridSolver(mg_cycles=30, solver=smoother if smoother == "gs" else "gs")
    mtx = sp.csc_matrix(A)
    s._setup(mtx, printer(), mg_matrices=ops)
    solve_all(rec, rng, s, A, mtx, "multigrid", "multigrid n=%d levels=%d" % (n, len(ops)), 1e-7, repeat=2)


def clone(case, rec, rng):
    from smt.utils.linear_solvers import KrylovSolver, StationarySolver
    k = KrylovSolver(solver="gmres", ilimit=int(rng.integers(1, 99)))
    c = k._clone()
    rec.check("clone", c.options["ilimit"] == k.options["ilimit"] and c.options["solver"] == "gmres", "clone:options", "a cloned solver lost its options", "krylov")
    st = StationarySolver(solver="jacobi", damping=0.5)
    c = st._clone()
    rec.check("clone", c.options["solver"] == "jacobi" and c.options["damping"] == 0.5, "clone:options", "a cloned solver lost its options", "stationary")


# ---------------------------------------------------------------- line searches

def _quad(rng, n):
    Q = rng.normal(size=(n, n))
    H = Q @ Q.T + .1 * np.eye(n)
    c = rng.normal(size=n)
    return (lambda x: 0.5 * x @ H @ x - c @ x), (lambda x: H @ x - c)


def _quartic(rng, n):
    A = rng.normal(size=(n + 2, n))
    t = rng.normal(size=n + 2)
    return (lambda x: ((A @ x - t) ** 4).sum() + 1e-3 * x @ x), (lambda x: 4 * A.T @ (A @ x - t) ** 3 + 2e-3 * x)


def _rosen(rng, n):
    n = max(n, 2)

    def f(x):
        return (100 * (x[1:] - x[:-1] ** 2) ** 2 + (1 - x[:-1]) ** 2).sum()

    def g(x):
        d = np.zeros_like(x)
        u = x[1:] - x[:-1] ** 2
        d[:-1] += -400 * u * x[:-1] - 2 * (1 - x[:-1])
        d[1:] += 200 * u
        return d
    return f, g


def _wavy(rng, n):
    w = rng.uniform(1, 6)
    return (lambda x: np.sin(w * x).sum() + 0.05 * x @ x), (lambda x: w * np.cos(w * x) + 0.1 * x)


def _logistic(rng, n):
    A = rng.normal(size=(n + 4, n))
    return (lambda x: np.logaddexp(0, A @ x).sum() + 0.01 * x @ x), (lambda x: A.T @ (1 / (1 + np.exp(-np.clip(A @ x, -500, 500)))) + 0.02 * x)


def _flat(rng, n):
    return (lambda x: np.sqrt(1 + x @ x)), (lambda x: x / np.sqrt(1 + x @ x))


def _linear(rng, n):
    c = rng.normal(size=n)
    return (lambda x: float(c @ x)), (lambda x: c.copy())


def _steep(rng, n):
    return (lambda x: np.exp(np.clip(3 * x, -300, 200)).sum() + x @ x), (lambda x: 3 * np.exp(np.clip(3 * x, -300, 200)) + 2 * x)


FUNS = {"quadratic": _quad, "quartic": _quartic, "rosenbrock": _rosen, "wavy": _wavy, "logistic": _logistic, "flat": _flat, "linear": _linear, "steep": _steep}
FUNS = dict(sorted(FUNS.items()))


def search(case, rec, rng):
    import signal
    from smt.utils.line_search import get_line_search_class
    cls = get_line_search_class(case["ls"])
    n = int(rng.choice([1, 2, 4]))
    f, g = FUNS[case["f"]](rng, n)
    n = max(n, 2) if case["f"] == "rosenbrock" else n
    for rep in range(6):
        x = rng.normal(size=n) * float(rng.choice([.3, 1., 3.]))
        gx = g(x)
        dk = str(rng.choice(["steepest", "newtonish", "random", "tiny", "huge", "converged"]))
        d = -gx.copy()
        if dk == "newtonish":
            d = d / (1 + np.abs(gx))
        elif dk == "random":
            d = rng.normal(size=n)
            if d @ gx > 0:
                d = -d
        elif dk == "tiny":
            d = d * 1e-6
        elif dk == "huge":
            d = d * 1e3
        elif dk == "converged":
            if case["f"] in ("linear",):
                continue
            for it in range(200):      # walk close to a minimum: rounding dominates the decrease there
                gg = g(x)
                t = 1.0
                while f(x - t * gg) > f(x) and t > 1e-18:
                    t *= .5
                x = x - t * gg
            d = -g(x)
        a0 = float(rng.choice([1.0, 1.0, 0.1, 5.0]))
        slope = float(g(x) @ d)
        if not slope < 0 or not np.isfinite(slope):
            continue
        x0, d0 = x.copy(), d.copy()
        count = [0]

        def fc(z):
            count[0] += 1
            if count[0] > 20000:
                raise RuntimeError("too many evaluations")
            return f(z)
        sig = "%s %s %s a0=%g n=%d" % (case["ls"], case["f"], dk, a0, n)
        try:
            with np.errstate(all="ignore"):
                y = cls(x, d, fc, g)(a0)
        except RuntimeError as e:
            if "too many evaluations" not in str(e):
                raise
            rec.violation("terminates:" + case["ls"], "the search did not stop within 20000 evaluations", situation=sig)
            continue
        rec.ok("terminates", sig)
        if y is None or np.shape(y) != np.shape(x) or not np.isfinite(y).all():
            rec.violation("result:" + case["ls"], "the search returned %r" % (y,), situation=sig)
            continue
        rec.check("search_inputs", bool(np.array_equal(x, x0) and np.array_equal(d, d0)), "altered:" + case["ls"], "the search altered its point or direction", sig)
        k = int(np.argmax(np.abs(d)))
        a = float((y[k] - x[k]) / d[k])
        on = np.abs(y - x - a * d).max()
        rec.check("on_line", bool(on <= 1e-9 * (1 + np.abs(x).max() + abs(a) * np.abs(d).max()) and a >= -1e-12), "on_line:" + case["ls"], "the result is not on the search line (step %g)" % a, sig)
        if case["ls"] == "null":
            rec.check("decrease", bool(np.allclose(y, x + a0 * d, rtol=1e-12, atol=0)), "null", "the null search does not take the full step", sig)
            continue
        rnd = 1e-13 * (abs(f(x)) + abs(f(y)) + 1)
        rec.check("decrease", bool(f(y) <= f(x) + 1e-4 * a * slope + rnd), "decrease:" + case["ls"], "f(x)=%r, f(x+a d)=%r for a=%g: sufficient decrease violated (slope %g)" % (f(x), f(y), a, slope), sig)
        if case["ls"] == "backtracking":
            # the accepted step is the first of a0, a0/2, ... that decreases enough
            t = a0
            while not f(x + t * d) <= f(x) + 1e-4 * t * slope and t > 1e-300:
                t *= .5
            rec.check("first_step", bool(abs(t - a) <= 1e-6 * t or abs(f(x) - f(x + t * d)) < 1e3 * rnd), "first:backtracking", "took step %g although %g already satisfies the condition" % (a, t), sig)
        else:
            # a step with the curvature condition exists and is reachable: |phi'| <= 0.9 |phi'(0)|
            T = a0 * np.geomspace(1e-4, 1.5 ** 15, 200)
            okc = [t for t in T if abs(float(g(x + t * d) @ d)) <= 0.8 * abs(slope) and f(x + t * d) <= f(x) + 1e-3 * t * slope]
            if not okc or max(f(x) - f(x + t * d) for t in okc) < 1e-7 * (abs(f(x)) + 1):
                rec.inconclusive("curvature below rounding or not attainable")
                continue
            rec.check("curvature", bool(abs(float(g(y) @ d)) <= 0.9 * abs(slope) * (1 + 1e-9)), "curvature:" + case["ls"], "slope %g at the result, %g at the start" % (float(g(y) @ d), slope), sig)


def hopeless(case, rec, rng):
    """a direction without a step that decreases enough (what a linear solver that diverged leaves): the search still stops"""
    from smt.utils.line_search import get_line_search_class
    cls = get_line_search_class(case["ls"])
    n = int(rng.choice([1, 2, 4]))
    f, g = FUNS["quadratic" if "quadratic" in FUNS else sorted(FUNS)[0]](rng, n)
    for how in ("inf", "nan", "mixed", "ascent", "minimum", "zero"):
        x = rng.normal(size=n)
        d = rng.normal(size=n)
        if how == "ascent":
            d = g(x)
        elif how == "zero":
            d = np.zeros(n)
        elif how == "minimum":
            for it in range(400):
                gg = g(x)
                t = 1.0
                while f(x - t * gg) > f(x) and t > 1e-18:
                    t *= .5
                x = x - t * gg
        elif how == "mixed":
            d[0] = -np.inf
        else:
            d[:] = dict(inf=np.inf, nan=np.nan)[how]
        count = [0]

        def fc(z):
            count[0] += 1
            if count[0] > 20000:
                raise RuntimeError("too many evaluations")
            return f(z)
        x0, d0 = x.copy(), d.copy()
        try:
            with np.errstate(all="ignore"):
                cls(x, d, fc, g)(1.0)
        except RuntimeError as e:
            if "too many evaluations" not in str(e):
                raise
            rec.violation("terminates:%s:%s" % (case["ls"], how), "the search along a hopeless direction (%s) did not stop within 20000 evaluations" % how)
            continue
        rec.ok("terminates", "%s hopeless %s n=%d" % (case["ls"], how, n))
        rec.check("search_inputs", bool(np.array_equal(x, x0) and np.array_equal(d, d0, equal_nan=True)), "altered:" + case["ls"], "the search altered its point or direction", "%s %s" % (case["ls"], how))
