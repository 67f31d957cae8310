"""S09: models that share a cache directory are compared with the same models trained without a cache, over histories of
near-duplicate configurations, damaged files, interrupted writes and interrupted computations."""
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import warnings
import numpy as np
from core import case_rng, Inconclusive, quiet
from lib import *
import zoo

MIN = {"history": 300, "damage": 60, "damage_all": 120, "rewritten": 200, "interrupted_write": 100, "interrupted_run": 60, "concurrent": 90, "disabled": 15}
RULE = "distinct (model, place in the history, kind of change or damage)"
ASSUMPTIONS = ["answers are compared bit by bit; for the tensor-product splines, whose energy terms are shared between domains of different size, with relative tolerance 1e-7 (times the condition estimate where the solver is iterative, those solvers are not used here)",
               "the cache directory exists and is writable; a run whose own write fails may raise the operating system's error, every later run must give the right answer",
               "the processes that share a directory run on this machine; deleted and truncated files are part of the concurrent workload, removal of the directory is not"]
CASE_LIMIT = 120
NAMES = ["LS", "QP", "RBF", "IDW", "RMTB", "RMTC"]


def cases(tier, seed):
    rng = np.random.default_rng(seed + 900)
    n = 1 if tier == "quick" else 14
    out = []
    add = lambda m, k=0, **kw: out.append(dict(m=m, s=int(rng.integers(1 << 30)), k=k, **kw))
    for k in range(6 * n):
        for name in NAMES:
            add("history", k, model=name)
    for k in range(4 * n):
        add("mixed", k)
    for k in range(n):
        for name in ("RMTB", "RMTC"):
            add("collide", k, model=name)
    for k in range(2 * n):
        for name in NAMES:
            add("damage", k, model=name)
            add("interrupted", k, model=name)
            add("stopped", k, model=name)
            add("disabled", k, model=name)
    for k in range(2 * n):
        add("concurrent", k)
    rng.shuffle(out)
    return out


def run_case(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = tempfile.mkdtemp(prefix="s09-")
        try:
            globals()[case["m"]](case, rec, case_rng(case), d)
        finally:
            shutil.rmtree(d, ignore_errors=True)


class Config:
    """one model with one data set; near-duplicates are made by changing a single thing"""

    def __init__(self, name, rng):
        self.name = name
        self.d = int(rng.choice([1, 2, 2, 3])) if name not in ("RMTB", "RMTC") else int(rng.choice([1, 2]))
        self.ny = int(rng.choice([1, 1, 2]))
        n = int(rng.integers(9, 15)) + 4 * self.d
        self.xl = np.stack([rng.uniform(-2, 0, self.d), rng.uniform(1, 3, self.d)], 1)
        u = lhs(rng, n, self.d)
        self.x = self.xl[:, 0] + (self.xl[:, 1] - self.xl[:, 0]) * u
        w = rng.normal(size=(self.d, self.ny))
        self.y = np.sin(self.x @ w) + 0.3 * self.x[:, :1] ** 2
        self.dy = {}
        self.o = dict(dict(RBF=dict(d0=1.0, poly_degree=0, reg=1e-10), IDW=dict(p=2.5), RMTB=dict(num_ctrl_pts=6, order=4, solver="lu"), RMTC=dict(num_elements=3, solver="lu")).get(name, {}))
        if name.startswith("RMT"):
            self.o.update(energy_weight=1e-4, regularization_weight=1e-8, nonlinear_maxiter=2, save_energy_terms=bool(rng.random() < .5), smoothness=1.0, grad_weight=0.5,
                          extrapolate=True, approx_order=2, derivative_solver="lu", line_search="backtracking", min_energy=True)
            if rng.random() < .5:
                for k in range(self.d):
                    self.dy[k] = np.cos(self.x @ w) * w[k] + (0.6 * self.x[:, :1] if k == 0 else 0)
        self.q = self.xl[:, 0] + (self.xl[:, 1] - self.xl[:, 0]) * rng.uniform(0, 1, (7, self.d))

    def clone(self):
        c = Config.__new__(Config)
        c.__dict__.update(self.__dict__)
        c.x, c.y, c.xl, c.dy, c.o = self.x.copy(), self.y.copy(), self.xl.copy(), {k: v.copy() for k, v in self.dy.items()}, dict(self.o)
        return c

    def mutants(self):
        m = ["same", "y1", "y_tiny", "x1", "drop", "order", "negate", "y_swap"]
        if self.d > 1:
            m += ["columns"]
        m += {"RBF": ["d0", "d0list", "poly", "reg"], "IDW": ["p"], "RMTB": ["ctrl", "order_opt", "ctrl_order", "ctrl_list", "order_list"], "RMTC": ["elements", "element_list"]}.get(self.name, [])
        if self.name == "RMTB" and self.d == 2:
            m += ["twin"]
        if self.name.startswith("RMT"):
            m += ["energy", "regul", "smooth", "smoothlist", "approx", "niter", "minenergy", "save", "wider", "linesearch", "xlunit"]
            if self.dy:
                m += ["dy1", "dydrop", "dyswap", "gradw"]
        return m

    def mutate(self, kind, rng):
        c = self.clone()
        i = int(rng.integers(len(c.x)))
        j = int(rng.integers(c.ny))
        o = c.o
        if kind == "y1":
            c.y[i, j] += 0.1
        elif kind == "y_tiny":
            c.y[i, j] += 1e-5
        elif kind == "x1":
            k = int(rng.integers(c.d))
            c.x[i, k] = 0.5 * c.x[i, k] + 0.5 * c.xl[k].mean()
        elif kind == "drop":
            c.x, c.y, c.dy = c.x[:-1], c.y[:-1], {k: v[:-1] for k, v in c.dy.items()}
        elif kind == "order":
            p = rng.permutation(len(c.x))
            c.y = c.y[p]
        elif kind == "negate":
            c.y = -c.y
        elif kind == "y_swap":
            c.y = np.roll(c.y, 1, 0) if c.ny == 1 else c.y[:, ::-1].copy()
        elif kind == "columns":
            c.x = c.xl[:, 0] + (c.xl[:, 1] - c.xl[:, 0]) * np.roll((c.x - c.xl[:, 0]) / (c.xl[:, 1] - c.xl[:, 0]), 1, 1)
        elif kind == "d0":
            o["d0"] = 1.3
        elif kind == "d0list":
            o["d0"] = list(np.linspace(0.8, 1.2, c.d))
        elif kind == "poly":
            o["poly_degree"] = int(rng.choice([-1, 1]))
        elif kind == "reg":
            o["reg"] = 1e-3
        elif kind == "p":
            o["p"] = 3.0
        elif kind == "ctrl":
            o["num_ctrl_pts"] = 7
        elif kind == "order_opt":
            o["order"] = 3
        elif kind == "elements":
            o["num_elements"] = 4
        elif kind in ("twin", "twin2"):  # equal numbers of elements, and of control points in all
            o["num_ctrl_pts"], o["order"] = ([5, 7], [3, 4]) if kind == "twin" else ([7, 5], [5, 2])
        elif kind == "ctrl_order":
            o["num_ctrl_pts"] = 7
            o["order"] = 5
        elif kind in ("ctrl_list", "order_list", "element_list"):
            k = dict(ctrl_list="num_ctrl_pts", order_list="order", element_list="num_elements")[kind]
            v = o[k]
            o[k] = v[::-1] if isinstance(v, list) else [v + (j % 2) for j in range(c.d)] if c.d > 1 else [v - 1]
        elif kind == "energy":
            o["energy_weight"] = 1e-2
        elif kind == "regul":
            o["regularization_weight"] = 1e-3
        elif kind == "smooth":
            o["smoothness"] = 3.0
        elif kind == "smoothlist":
            o["smoothness"] = list(np.linspace(0.2, 2.0, c.d))
        elif kind == "approx":
            o["approx_order"] = 4
        elif kind == "niter":
            o["nonlinear_maxiter"] = 6
            o["approx_order"] = 4
        elif kind == "minenergy":
            o["min_energy"] = False
            o["regularization_weight"] = 1e-6
        elif kind == "save":
            o["save_energy_terms"] = not o["save_energy_terms"]
        elif kind == "wider":
            c.xl[0] += [-0.7, 0.4]
        elif kind == "xlunit":
            # the same points with different dimensions of the domain
            c.xl[-1, 1] += 3.0
        elif kind == "linesearch":
            o["line_search"] = "bracketed"
            o["approx_order"] = 4
        elif kind == "dy1":
            c.dy[0][i, j] += 0.5
        elif kind == "dydrop":
            c.dy.pop(c.d - 1)
        elif kind == "dyswap":
            c.dy = {k: c.dy[c.d - 1 - k] for k in c.dy} if c.d > 1 else {k: -v for k, v in c.dy.items()}
        elif kind == "gradw":
            o["grad_weight"] = 2.0
        return c

    def make(self, data_dir=None):
        m, a = sm()
        kw = dict(OFF)
        kw.update({k: list(v) if isinstance(v, list) else v for k, v in self.o.items()})
        if self.name.startswith("RMT"):
            kw["xlimits"] = self.xl.copy()
        if data_dir is not None:
            kw["data_dir"] = data_dir
        return getattr(m, self.name)(**kw)

    def load(self, s):
        s.set_training_values(self.x.copy(), self.y.copy())
        for k, v in self.dy.items():
            s.set_training_derivatives(self.x.copy(), v.copy(), k)
        return s

    def answers(self, s):
        out = [("values", s.predict_values(self.q.copy()))]
        for k in range(self.d):
            out.append(("derivatives", s.predict_derivatives(self.q.copy(), k)))
        if s.supports["output_derivatives"]:
            o = s.predict_output_derivatives(self.q.copy())
            out += [("output derivatives %r" % k, o[k]) for k in sorted(o, key=str)]
        return [(l, np.array(v, float)) for l, v in out]

    def run(self, data_dir=None, s=None):
        s = s or self.make(data_dir)
        self.load(s)
        with quiet():
            s.train()
            return self.answers(s)

    @property
    def reference(self):
        if "_ref" not in self.__dict__:
            self._ref = None
            self._ref = self.run()
        return self._ref

    def clone_ref_reset(self):
        self.__dict__.pop("_ref", None)
        return self


def differs(c, got):
    """label of the first answer that is not the one without a cache, or None"""
    ref = c.reference
    for (l, a), (l2, b) in zip(ref, got):
        if a.shape != b.shape:
            return l
        if c.name.startswith("RMT"):
            if not np.allclose(a, b, rtol=0, atol=1e-7 * (1e-300 + np.abs(a).max())):
                return l
        elif not np.array_equal(a, b, equal_nan=True):
            return l
    return None


def tell(rec, monitor, c, f, key, msg, **detail):
    """run f; it must give the answers of the model trained without a cache"""
    ref = c.reference
    try:
        got = f()
    except Exception as e:
        rec.check(monitor, False, key, msg + ": %s: %s" % (type(e).__name__, str(e)[:150]), **detail)
        return False
    bad = differs(c, got)
    rec.check(monitor, bad is None, key, msg + ": the %s differ from those without a cache" % bad, **detail)
    return bad is None


def files(d):
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)


def stamp(d):
    return {f: (os.stat(f).st_mtime_ns, os.stat(f).st_size, os.stat(f).st_ino) for f in files(d)}


def fresh(c):
    c.__dict__.pop("_ref", None)
    return c


def sequence(rec, rng, d, pool, steps, where):
    done = set()
    for t in range(steps):
        i = int(rng.integers(len(pool)))
        c, kind = pool[i]
        before = stamp(d)
        tell(rec, "history", c, lambda: c.run(d), "%s: changed answer with a shared cache directory" % c.name,
             "%s after other models were cached (%s, position %d)" % (c.name, kind, t), model=c.name, kind=kind, position=t, history=sorted(done))
        if i in done and before and stamp(d) == before:
            rec.ok("hits", (c.name, kind))
        done.add(i)
        rec.ok("shape_history", (c.name, kind, i in done))


def history(case, rec, rng, d):
    base = Config(case["model"], rng)
    kinds = base.mutants()
    pool = [(base, "base")] + [(fresh(base.mutate(k, rng)), k) for k in rng.permutation(kinds)[:5 + case["k"] % 3]]
    if case["k"] % 2:  # two changes
        k = rng.permutation(kinds)[:1]
        pool.append((fresh(pool[1][0].mutate(str(k[0]), rng)), "%s+%s" % (pool[1][1], k[0])))
    if base.name.startswith("RMT") and case["k"] % 2:  # all with shared energy terms, in other domains too
        for c, _ in pool:
            c.o["save_energy_terms"] = True
        for kind in ("wider", "xlunit", "element_list" if base.name == "RMTC" else "ctrl_order"):
            c = fresh(base.mutate(kind, rng))
            pool.append((c, kind))
            if base.name == "RMTB" and base.d == 2 and kind == "wider":
                pool += [(fresh(base.mutate(k, rng)), k) for k in ("twin", "twin2")]
            pool.append((fresh(c.mutate("element_list" if base.name == "RMTC" else "order_list", rng)), kind + "+list"))
    sequence(rec, rng, d, pool, 2 * len(pool) + 4, "one model")
    # the same object trained again with other data
    c1, c2 = pool[0][0], pool[1][0]
    if c1.o == c2.o and np.array_equal(c1.xl, c2.xl) and set(c1.dy) == set(c2.dy):
        s = c1.make(d)
        for t, c in enumerate((c1, c2, c1, c2)):
            tell(rec, "history", c, lambda: c.run(s=s), "%s: changed answer when retrained with a cache" % c.name, "%s retrained with a cache directory (training %d)" % (c.name, t), model=c.name, kind="retrained")


def collide(case, rec, rng, d):
    """energy terms shared between splines whose tables have the same sizes: each way round and back"""
    name = case["model"]
    base = Config(name, rng)
    while base.d != 2:
        base = Config(name, rng)
    base.o["save_energy_terms"] = True
    pool = []
    for a, b in [((5, 7), (3, 4)), ((7, 5), (5, 2)), ((7, 5), (4, 3)), ((5, 7), (4, 3)), ((6, 6), (3, 4)), ((6, 6), (4, 3))] if name == "RMTB" else [((2, 4), None), ((4, 2), None), ((8, 1), None), ((1, 8), None), ((3, 3), None)]:
        c = base.clone()
        c.o.update(dict(num_ctrl_pts=list(a), order=list(b)) if b else dict(num_elements=list(a)))
        pool.append((fresh(c), "%s %s" % (a, b)))
    for kind in ("xlunit", "smoothlist"):
        pool.append((fresh(pool[0][0].mutate(kind, rng)), kind))
    for t in [int(i) for i in np.concatenate([rng.permutation(len(pool)) for _ in range(2)])]:
        c, kind = pool[t]
        tell(rec, "history", c, lambda: c.run(d), "%s: changed answer with a shared cache directory" % c.name,
             "%s with %s after similar grids were cached" % (c.name, kind), model=c.name, kind=kind)


def mixed(case, rec, rng, d):
    pool = []
    for name in rng.permutation(NAMES)[:4]:
        c = Config(str(name), rng)
        pool.append((c, "base"))
        k = str(rng.choice(c.mutants()))
        pool.append((fresh(c.mutate(k, rng)), k))
    # models of different kinds with equal data
    b = pool[0][0]
    for name in NAMES:
        if name != b.name:
            c = Config(name, rng)
            if c.d == b.d:
                c.x, c.y, c.xl, c.q, c.ny = b.x.copy(), b.y.copy(), b.xl.copy(), b.q.copy(), b.ny
                c.dy = {k: c.y * (k + 1) for k in c.dy}
                pool.append((c, "equal data"))
    sequence(rec, rng, d, pool, 16, "several models")


KINDS = ["truncated", "truncated", "truncated", "flipped", "flipped", "flipped", "flipped", "empty", "zeros", "garbage", "pickled dict", "pickled list", "pickled None", "wrong keys", "none values",
         "swapped", "doubled", "byte inserted", "byte removed", "deleted", "zero tail", "directory", "text"]


def damage_file(kind, f, rng, other):
    data = open(f, "rb").read()
    n = len(data)
    put = lambda b: open(f, "wb").write(b)
    i = int(rng.integers(n)) if n else 0
    if rng.random() < .3:
        i = min(i, int(rng.integers(1, 60)))
    elif rng.random() < .3:
        i = max(0, n - 1 - int(rng.integers(0, 60)))
    if kind == "truncated":
        put(data[:i])
    elif kind == "flipped":
        b = bytearray(data)
        for _ in range(int(rng.choice([1, 1, 3]))):
            j = i if _ == 0 else int(rng.integers(n))
            b[j] ^= 1 << int(rng.integers(8))
        put(bytes(b))
        return i
    elif kind == "empty":
        put(b"")
    elif kind == "zeros":
        put(b"\0" * n)
    elif kind == "garbage":
        put(rng.bytes(n))
    elif kind == "pickled dict":
        put(pickle.dumps({}))
    elif kind == "pickled list":
        put(pickle.dumps([1, 2]))
    elif kind == "pickled None":
        put(pickle.dumps(None))
    elif kind == "wrong keys":
        put(pickle.dumps({"other": 1.0}))
    elif kind == "none values":
        put(pickle.dumps({k: None for k in ("sol", "mtx", "coeff", "sol_coeff", "sq_mtx", "full_dof2coeff", "full_hess", "full_jac_dict")}))
    elif kind == "swapped":
        shutil.copyfile(other, f)
    elif kind == "doubled":
        put(data[: max(1, i)] + data)
    elif kind == "byte inserted":
        put(data[:i] + rng.bytes(1) + data[i:])
    elif kind == "byte removed":
        put(data[:i] + data[i + 1:])
    elif kind == "deleted":
        os.remove(f)
    elif kind == "zero tail":
        put(data[:i] + b"\0" * (n - i))
    elif kind == "text":
        put(b"not a cache file\n")
    return i


def damage(case, rec, rng, d):
    c = Config(case["model"], rng)
    c2 = fresh(c.mutate("y1", rng))
    c.run(d), c2.run(d)
    keep = d + "-keep"
    shutil.copytree(d, keep)
    try:
        # the files the first model reads: those written by it alone
        own = []
        e = tempfile.mkdtemp(prefix="s09-", dir=d)
        names = [os.path.relpath(f, keep) for f in files(keep)]
        shutil.rmtree(e)
        kinds = [k for k in KINDS if k != "directory"]
        for t in range(26):
            kind = kinds[t] if t < len(kinds) else str(rng.choice(kinds))
            for f in files(d):
                os.remove(f)
            shutil.copytree(keep, d, dirs_exist_ok=True)
            victims = names if t % 3 else [str(rng.choice(names))]
            at = {}
            for v in victims:
                others = [w for w in names if w != v]
                if kind == "swapped" and not others:
                    continue
                at[v.split("_")[0]] = damage_file(kind, os.path.join(d, v), rng, os.path.join(keep, str(rng.choice(others))) if others else None)
            mon = "damage_all" if len(victims) == len(names) else "damage"
            key = "%s: damaged cache file (%s)" % (c.name, kind)
            if tell(rec, mon, c, lambda: c.run(d), key, "%s with a cache file that is %s" % (c.name, kind), model=c.name, kind=kind, at=at):
                tell(rec, "rewritten", c, lambda: c.run(d), key, "%s trained again after a cache file was %s" % (c.name, kind), model=c.name, kind=kind, at=at)
                if rng.random() < .3:
                    tell(rec, "rewritten", c2, lambda: c2.run(d), key, "another %s after a cache file was %s" % (c.name, kind), model=c.name, kind=kind, at=at)
            rec.ok("shape_damage", (c.name, kind))
    finally:
        shutil.rmtree(keep, ignore_errors=True)


def in_child(f):
    """run f in a forked process; returns its wait status"""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            n = os.open("/dev/null", os.O_WRONLY)
            os.dup2(n, 1), os.dup2(n, 2)
            f()
            code = 0
        except BaseException:
            code = 71
        finally:
            os._exit(code)
    return os.waitpid(pid, 0)[1]


def interrupted(case, rec, rng, d):
    """the process is killed, or its writes fail, once a file has reached a given size"""
    c = Config(case["model"], rng)
    c.reference
    probe = tempfile.mkdtemp(prefix="s09-")
    try:
        c.run(probe)
        sizes = sorted(os.path.getsize(f) for f in files(probe))
    finally:
        shutil.rmtree(probe, ignore_errors=True)
    for t in range(8):
        top = sizes[int(rng.integers(len(sizes)))]
        limit = int([0, 1, top - 1, top // 2, rng.integers(1, top), rng.integers(1, top), min(40, top - 1), max(1, top - 40)][t])
        kill = bool(t % 2)

        def go():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            c.run(d)

        st = in_child(go)
        if st == 0:
            rec.ok("uncut_write")  # the limit did not stop this one
        else:
            rec.ok("cut_write")
        key = "%s: wrong after an interrupted write" % c.name
        how = "killed" if kill else "failed"
        if tell(rec, "interrupted_write", c, lambda: c.run(d), key, "%s after a run whose write %s at byte %d" % (c.name, how, limit), model=c.name, limit=limit, how=how):
            tell(rec, "interrupted_write", c, lambda: c.run(d), key, "%s trained again after a run whose write %s at byte %d" % (c.name, how, limit), model=c.name, limit=limit, how=how)
        rec.ok("shape_write", (c.name, how, limit * 8 // top))
        for f in files(d):
            os.remove(f)


class Stop(Exception):
    pass


def stopped(case, rec, rng, d):
    """the computation is broken off at an arbitrary line of the package by an exception or by a kill"""
    c = Config(case["model"], rng)
    c.reference
    root = os.path.join(os.environ.get("SMT_REPO", "/repo"), "smt") + os.sep
    count = [0, None, False]

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.startswith(root):
            return None
        if event == "line":
            count[0] += 1
            if count[1] is not None and count[0] >= count[1]:
                count[1] = None
                count.append(os.path.basename(frame.f_code.co_filename))
                if count[2]:
                    os.kill(os.getpid(), signal.SIGKILL)
                raise Stop()
        return trace

    def traced(at, kill, f):
        count[:] = [0, at, kill]
        old = sys.gettrace()
        sys.settrace(trace)
        try:
            f()
        finally:
            sys.settrace(old)

    e = tempfile.mkdtemp(prefix="s09-")
    try:
        traced(None, False, lambda: c.run(e))
    finally:
        shutil.rmtree(e, ignore_errors=True)
    total = count[0]
    if total < 10:
        raise Inconclusive("no line of the package was traced")
    for t in range(6):
        kill = t % 3 == 2
        at = int(rng.integers(1, total))
        s = c.make(d)
        if kill:
            in_child(lambda: traced(at, True, lambda: c.run(d, s)))
        else:
            try:
                traced(at, False, lambda: c.run(d, s))
            except Stop:
                pass
            except Exception:
                pass  # the exception may surface as another one
        key = "%s: wrong after an interrupted run" % c.name
        msg = "%s after a run stopped at line event %d of %d" % (c.name, at, total)
        tell(rec, "interrupted_run", c, lambda: c.run(d), key, msg, model=c.name, kill=kill, at=at / total)
        if not kill and count[-1] not in ("caching.py", "options_dictionary.py"):
            # (the file name only exempts the few lines during which the object's printer is set aside)
            tell(rec, "interrupted_run", c, lambda: c.run(s=s), key, "the same " + msg, model=c.name, kill=kill, at=at / total)
        rec.ok("shape_stop", (c.name, kill, at * 10 // total))
        if t % 2:
            for f in files(d):
                os.remove(f)


WATCH = []


def hook(event, args):
    if WATCH and event == "open" and args and isinstance(args[0], (str, bytes, os.PathLike)):
        p = os.fsdecode(args[0])
        if not os.path.isabs(p) or p.startswith(WATCH[0]):
            WATCH.append(os.path.join(WATCH[0], p))


def disabled(case, rec, rng, d):
    """without a cache directory nothing is read from or left in the working directory"""
    c = Config(case["model"], rng)
    c.o.pop("save_energy_terms", None)
    ref = c.reference
    if not getattr(hook, "on", False):
        sys.addaudithook(hook)
        hook.on = True
    cwd = os.getcwd()
    os.chdir(d)
    try:
        WATCH.append(d)
        try:
            c.run()
        finally:
            opened = [p for p in WATCH[1:]]
            WATCH.clear()
        rec.check("disabled", not files(d), "%s: files written although caching is off" % c.name, "%s wrote %s" % (c.name, files(d)[:3]), model=c.name)
        # if files would have been read there, their content must not matter
        other = fresh(c.mutate("negate", rng))
        e = tempfile.mkdtemp(prefix="s09-")
        try:
            other.run(e)
            donors = files(e)
            raw = []
            for f in donors:
                b = open(f, "rb").read()
                raw.append(b)
                raw.append(b.split(b"\n", 1)[-1])
            raw.append(pickle.dumps({}))
            raw.append(pickle.dumps({"sol": 1.0, "mtx": 1.0}))
            for b in raw:
                for p in set(opened):
                    if os.path.isdir(p):
                        continue
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, "wb").write(b)
                tell(rec, "disabled", c, lambda: c.run(), "%s: a cache is read although caching is off" % c.name, "%s without data_dir, with files in the working directory" % c.name, model=c.name, opened=[os.path.relpath(p, d) for p in set(opened)][:3])
                if not opened:
                    break
        finally:
            shutil.rmtree(e, ignore_errors=True)
    finally:
        os.chdir(cwd)


def concurrent(case, rec, rng, d):
    """processes train from the same directory while files are deleted and cut"""
    name = str(rng.choice(NAMES))
    c = Config(name, rng)
    pool = [c] + [fresh(c.mutate(str(k), rng)) for k in rng.permutation(c.mutants())[:2]]
    for p in pool:
        p.reference
    pids = []
    logs = []
    for w in range(4):
        log = os.path.join(tempfile.gettempdir(), "s09-%d-%d-%d.log" % (os.getpid(), case["s"], w))
        logs.append(log)
        pid = os.fork()
        if pid == 0:
            out = []
            try:
                n = os.open("/dev/null", os.O_WRONLY)
                os.dup2(n, 1), os.dup2(n, 2)
                r = np.random.default_rng(case["s"] + w)
                for t in range(30):
                    if w == 3:
                        fs = files(d)
                        if fs:
                            f = fs[int(r.integers(len(fs)))]
                            try:
                                if r.random() < .5:
                                    os.remove(f)
                                else:
                                    os.truncate(f, int(r.integers(0, 1 + os.path.getsize(f))))
                            except OSError:
                                pass
                        import time
                        time.sleep(0.002)
                        continue
                    p = pool[int(r.integers(len(pool)))]
                    try:
                        bad = differs(p, p.run(d))
                    except FileNotFoundError:
                        bad = "gone" if False else None  # its own new file was deleted by the fourth process before it got its name
                    except Exception as e:
                        bad = "%s: %s" % (type(e).__name__, str(e)[:100])
                    out.append(bad)
            except BaseException as e:
                out.append("worker: %r" % e)
            finally:
                pickle.dump(out, open(log, "wb"))
                os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    for log in logs[:3]:
        for bad in pickle.load(open(log, "rb")):
            rec.check("concurrent", bad is None, "%s: wrong with processes sharing a cache directory" % name, "%s in processes that share a cache directory: %s" % (name, bad), model=name)
        os.remove(log)
    os.remove(logs[3])
    for p in pool:
        tell(rec, "concurrent", p, lambda: p.run(d), "%s: wrong with processes sharing a cache directory" % name, "%s after processes shared a cache directory" % name, model=name)
    rec.ok("shape_concurrent", (name, len(pool)))
