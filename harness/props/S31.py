"""S31: random choices come from the declared generator only: same source, same result; nothing reseeds or disturbs the global generator."""
import json, os, random, subprocess, sys, tempfile
import numpy as np
if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from core import quiet, case_rng, Inconclusive
from lib import *
import zoo
from zoo import Spec

MIN = {"repeats": 60, "not_reseeded": 40, "predicting_draws_nothing": 40, "seeded_repeats": 60, "seeded_private": 60, "other_process": 20, "optimisation": 12}
RULE = "distinct (object, options, kind of generator, what was compared)"
ASSUMPTIONS = ["Bayesian optimisation is given surrogates whose training draws nothing that matters (COBYLA, starting point inside the bounds)",
               "numbers are compared up to 1e-6 of their range, states of generators exactly"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 3100)
    out = []
    for r in range(3 if tier == "quick" else 25):
        for name in zoo.NAMES:
            out.append(dict(m="model", name=name, s=int(rng.integers(1 << 30))))
        for k in range(4):
            out.append(dict(m="design", s=int(rng.integers(1 << 30))))
        for q in ("", "KB", "KBUB", "KBLB", "KBRand", "CLmin"):
            out.append(dict(m="optimise", q=q, s=int(rng.integers(1 << 30))))
        out.append(dict(m="batches", s=int(rng.integers(1 << 30))))
        out.append(dict(m="process", s=int(rng.integers(1 << 30))))
    return out


def run_case(case, rec):
    np.random.seed(case["s"] % 1000)  # whatever an object keeps from its import or from other cases
    globals()[case["m"]](case, rec, case_rng(case))


def state():
    a, b = np.random.get_state(), random.getstate()
    return (a[0], a[1].tobytes()) + tuple(a[2:]) + (b,)


def start(k):
    np.random.seed(k)
    random.seed(k)
    return state()


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.array_equal(a, b, equal_nan=True) or np.all(np.abs(a - b) <= 1e-6 * max(np.ptp(a) if a.size else 0, 1e-3 * np.max(np.abs(a)))))


def answers(sp, s, X):
    out = {}
    for lab, (f, single) in sp.ops(s).items():
        try:
            with quiet():
                r = f(s, X[:1].copy() if single else X.copy())
            out[lab] = np.concatenate([np.ravel(r[k]) for k in r]) if isinstance(r, dict) else np.array(r, float)
        except Exception as e:
            out[lab] = np.array([float(sum(map(ord, type(e).__name__)))])
    return out


def train_from(sp, data, k, X):
    """a new model trained from global state k -> (answers, state before, state after training, state after predicting)"""
    s = sp.make(data)
    sp.load(s, data)
    a = start(k)
    with quiet():
        if sp.name == "VFM":
            s._apply()
        else:
            try:
                s.train()
            except Exception as e:
                if sp.name in ("MOE", "MOESM"):
                    raise Inconclusive("training refused")
                raise
    b = state()
    r = answers(sp, s, X)
    return r, a, b, state()


def differs(r, q):
    return [k for k in r if not same(r[k], q[k])]


def model(case, rec, rng):
    sp = Spec(case["name"], rng)
    if sp.name == "GENN" and rng.random() < .5:
        del sp.opts["seed"]
    if sp.name.startswith("K") and rng.random() < .3:
        sp.opts["theta0"] = [25.0]  # outside the bounds: starts at a random point
    data = sp.data()
    X = sp.points(data, 6)
    k = int(rng.integers(1 << 20))
    sig = "%s %s" % (sp.name, {q: v for q, v in sp.opts.items() if isinstance(v, (str, bool, int)) or v is None})
    r1, a1, b1, c1 = train_from(sp, data, k, X)
    r2, a2, b2, c2 = train_from(sp, data, k, X)
    d = differs(r1, r2)
    rec.check("repeats", not d and b1 == b2, "repeat:" + sp.name, "trained twice from the same state of the generator: %s" % ("other " + ", ".join(d) if d else "the generator is left in another state"), sig)
    r3, a3, b3, c3 = train_from(sp, data, k + 1, X)
    rec.check("not_reseeded", b3 != b1, "reseeded:" + sp.name, "training sets the global generator to a fixed state", sig)
    rec.check("predicting_draws_nothing", b1 == c1 and b2 == c2 and b3 == c3, "draws:" + sp.name, "predicting changed the global generator", sig)
    if sp.name == "GENN" and "seed" in sp.opts:
        d = differs(r1, r3)
        rec.check("seeded_repeats", not d, "seed:GENN", "trained twice with the same seed: other " + ", ".join(d), sig)
        rec.check("seeded_private", a1 == b1 and a3 == b3, "disturbed:GENN", "training with a seed of its own changed the global generator", sig)


def generator(rng):
    k = int(rng.choice([0, 1, 2 ** 32 - 1])) if rng.random() < .35 else int(rng.integers(1 << 31))
    if rng.random() < .5:
        return "int", lambda: k
    return "generator", lambda: np.random.RandomState(k)


def design(case, rec, rng):
    from smt.sampling_methods import LHS, Random, FullFactorial
    from smt.applications import NestedLHS
    d = int(rng.choice([1, 2, 3]))
    n = int(rng.integers(3, 9))
    lo = rng.uniform(-5, 5, d)
    xl = np.stack([lo, lo + 10.0 ** rng.uniform(-2, 2, d)], 1)
    for crit in ("c", "center", "m", "maximin", "cm", "centermaximin", "corr", "correlation", "ese"):
        kind, g = generator(rng)
        sig = "LHS %s %s d=%d" % (crit, kind, d)
        s = LHS(xlimits=xl.copy(), criterion=crit, random_state=g())
        a = start(int(rng.integers(1 << 20)))
        x1 = s(n)
        b = state()
        start(int(rng.integers(1 << 20)))
        t = LHS(xlimits=xl.copy(), criterion=crit, random_state=g())
        LHS(xlimits=xl.copy(), criterion=crit, random_state=int(rng.integers(1000)))(n)
        c = state()
        x2 = t(n)
        e = state()
        rec.check("seeded_repeats", same(x1, x2), "seed:LHS:" + crit, "two designs from equal %ss differ by %.2e" % (kind, np.max(np.abs(x1 - x2))), sig)
        rec.check("seeded_private", a == b and c == e, "disturbed:LHS:" + crit, "sampling with a %s of its own changed the global generator" % kind, sig)
        a = start(3)
        with_none = LHS(xlimits=xl.copy(), criterion=crit)
        with_none(n)
        b1 = state()
        start(4)
        with_none(n)
        rec.check("not_reseeded", b1 != state(), "reseeded:LHS", "sampling sets the global generator to a fixed state", "LHS none " + crit)
    for lab, make in (("Random", lambda: Random(xlimits=xl.copy())), ("FullFactorial", lambda: FullFactorial(xlimits=xl.copy(), clip=True)), ("NestedLHS", lambda: NestedLHS(nlevel=2, xlimits=xl.copy()))):
        k = int(rng.integers(1 << 20))
        s, t, u = make(), make(), make()
        start(k)
        x1 = s(n)
        b1 = state()
        start(k)
        x2 = t(n)
        b2 = state()
        if lab != "NestedLHS":  # takes its designs from new generators
            rec.check("repeats", same(x1, x2) and b1 == b2, "repeat:" + lab, "sampled twice from the same state of the generator: another design or state", "%s d=%d" % (lab, d))
        start(k + 1)
        u(n)
        rec.check("not_reseeded", b1 != state(), "reseeded:" + lab, "sampling sets the global generator to a fixed state", "%s d=%d" % (lab, d))


def optimise(case, rec, rng):
    m, a = sm()
    from smt.applications.mixed_integer import FLOAT, INT, ENUM
    kind, g = generator(rng)
    d = int(rng.choice([1, 2]))
    lo = rng.uniform(-3, 3, d)
    xl = np.stack([lo, lo + 10.0 ** rng.uniform(-.5, 1, d)], 1)
    crit = "EI" if case["q"] else str(rng.choice(["EI", "SBO", "UCB"]))
    fun = lambda x: np.sum(np.sin(4 * (x - lo) / (xl[:, 1] - lo) + 1) + .5 * ((x - lo) / (xl[:, 1] - lo)) ** 2, axis=1, keepdims=True)
    kw = dict(n_iter=2, criterion=crit, n_doe=6, n_start=4, n_max_optim=5)
    if case["q"]:
        kw.update(n_parallel=3, qEI=case["q"])
    sname = str(rng.choice(["KRG", "KPLS"]))
    mixed = rng.random() < .3
    if mixed:
        xl = np.array([[-2.0, 3.0], [0, 4]])
        kw["xtypes"] = [FLOAT, INT]
        d = 2
        fun = lambda x: np.sum(np.sin(2 * x) + .1 * x ** 2, axis=1, keepdims=True)
    kw["xlimits"] = xl

    def once(k):
        start(k)
        s = getattr(m, sname)(theta0=[.5], theta_bounds=[1e-3, 20.], print_global=False, **({"n_comp": 1} if sname == "KPLS" else {}))
        e = a.EGO(surrogate=s, random_state=g(), **{q: (v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v) for q, v in kw.items()})
        with quiet():
            r = e.optimize(fun)
        return [np.asarray(v, float) for v in (r[3], r[4])], state()
    k = int(rng.integers(1 << 20))
    (x1, y1), e1 = once(k)
    (x2, y2), e2 = once(k + 1)
    sig = "EGO %s %s %s %s%s" % (crit, case["q"], kind, sname, " mixed" if mixed else "")
    rec.check("optimisation", same(x1, x2) and same(y1, y2), "seed:EGO:" + (case["q"] or crit), "two optimisations with equal %ss evaluated other points" % kind, sig, x=[x1.tolist(), x2.tolist()])
    rec.check("not_reseeded", e1 != e2, "reseeded:EGO", "the optimisation sets the global generator to a fixed state", sig)


def batches(case, rec, rng):
    from smt.utils.neural_net.data import random_mini_batches
    for k in range(4):
        m = int(rng.integers(3, 40))
        X, Y, J = rng.normal(size=(2, m)), rng.normal(size=(1, m)), rng.normal(size=(1, 2, m))
        size = int(rng.integers(1, 12))
        flat = lambda b: np.concatenate([np.ravel(v) for t in b for v in t])
        seed = int(rng.integers(1000)) if k else 0
        a = start(1)
        b1 = flat(random_mini_batches(X, Y, J, size, seed=seed))
        e1 = state()
        start(2)
        b2 = flat(random_mini_batches(X, Y, J, size, seed=seed))
        rec.check("seeded_repeats", same(b1, b2), "seed:batches", "the same seed shuffles differently", "batches m=%d" % m)
        rec.check("seeded_private", e1 == a, "disturbed:batches", "shuffling with a seed changed the global generator", "batches m=%d" % m)
        start(3)
        b1 = flat(random_mini_batches(X, Y, J, size))
        e1 = state()
        start(3)
        b2 = flat(random_mini_batches(X, Y, J, size))
        rec.check("repeats", same(b1, b2) and e1 == state(), "repeat:batches", "shuffled twice from the same state of the generator: another order", "batches m=%d" % m)


def workload(s):
    """results of many parts from fixed seeds, for the comparison between processes"""
    rng = np.random.default_rng(s)
    out = {}
    for name in zoo.NAMES:
        sp = Spec(name, rng)
        data = sp.data()
        X = sp.points(data, 4)
        np.random.seed(11)
        try:
            m = sp.fitted(data)
        except Inconclusive:
            continue
        for k, v in answers(sp, m, X).items():
            out[name + ":" + k] = np.asarray(v).tolist()
    from smt.sampling_methods import LHS
    for crit in ("c", "maximin", "corr", "ese"):
        out["LHS:" + crit] = LHS(xlimits=np.array([[0., 1.], [2., 7.]]), criterion=crit, random_state=int(s % 1000))(6).tolist()
    return out


def process(case, rec, rng):
    here = workload(case["s"])
    f = tempfile.NamedTemporaryFile(suffix=".json", delete=False)
    f.close()
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 4000))))
    try:
        p = subprocess.run([sys.executable, os.path.abspath(__file__), str(case["s"]), f.name], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=200)
        if p.returncode:
            rec.violation("process:failed", "the same work failed in another process: " + p.stderr.decode()[-300:])
            return
        there = json.load(open(f.name))
    except subprocess.TimeoutExpired:
        raise Inconclusive("time")
    finally:
        os.unlink(f.name)
    for k in here:
        rec.check("other_process", k in there and same(here[k], there[k]), "process:" + k, "the same work in another process gives another answer", k)


if __name__ == "__main__":
    w = workload(int(sys.argv[1]))
    with open(sys.argv[2], "w") as f:
        json.dump(w, f)
