"""S25: standard output is watched at the file descriptor while every component is set up, trained, queried and made to fail."""
import os
import re
import sys
import tempfile
import warnings
import numpy as np
from core import case_rng, Inconclusive, quiet
from lib import *
import zoo

MIN = {"silent": 300, "silent_after": 40, "sections": 60, "solver_section": 8, "same_result": 60, "fault": 40, "fault_output": 30, "components": 40}
RULE = "distinct (model, queries) when silent; (model, switch) for sections; (model, place of the injected fault)"
ASSUMPTIONS = ["standard output is captured at file descriptor 1 as well as at sys.stdout; standard error is not judged",
               "faults are injected at the entry of functions of the package (not of the printer and of the option dictionary, which the code restoring the state uses)",
               "warnings that the kriging models print are not counted as part of a section; the network's own is_print switch is off while sections are compared"]
CASE_LIMIT = 60


def cases(tier, seed):
    rng = np.random.default_rng(seed + 2500)
    n = 1 if tier == "quick" else 12
    out = []
    add = lambda m, k=0, **kw: out.append(dict(m=m, s=int(rng.integers(1 << 30)), k=k, **kw))
    for k in range(2 * n):
        for name in zoo.NAMES:
            add("silent", k, model=name)
            add("same", k, model=name)
            add("fault", k, model=name)
    for k in range(2 * n):
        for name in zoo.SURR:
            add("sections", k, model=name)
        for name in ("RMTB", "RMTC", "RBF"):
            add("sections", k + 100, model=name)
            add("solver", k, model=name)
    for k in range(6 * n):
        add("components", k)
    rng.shuffle(out)
    return out


def run_case(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()[case["m"]](case, rec, case_rng(case))


class Watch:
    """everything written to standard output, by Python or by compiled code"""

    def __enter__(self):
        sys.stdout.flush()
        self.f = tempfile.TemporaryFile()
        self.old = os.dup(1)
        os.dup2(self.f.fileno(), 1)
        self.py = sys.stdout
        self.text = ""
        sys.stdout = open(1, "w", closefd=False)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stdout = self.py
        os.dup2(self.old, 1)
        os.close(self.old)
        self.f.seek(0)
        self.text = self.f.read().decode("utf8", "replace")
        self.f.close()
        return False


def tidy(text):
    """numbers (times, iteration counts) are not compared"""
    return [re.sub(r"[-+]?\d+\.?\d*(e[-+]?\d+)?|nan|inf", "#", l).rstrip() for l in text.splitlines() if not re.match(r"\s*(Warning|exception|Optimization failed|fmin_cobyla)", l)]


def options_on(spec, **sw):
    for k, v in sw.items():
        spec.opts[k] = v
    return spec


def train(spec, s, seed=7):
    np.random.seed(seed)
    if spec.name == "VFM":
        s._apply()
    else:
        s.train()


def usual(case, rec, spec, f):
    """run a training, separating refusals (too few points in a cluster and the like) from failures"""
    try:
        f()
    except Exception as e:
        if spec.name in ("MOE", "MOESM") or any(t in str(e) for t in ("ill conditioned", "undetermined", "attempts to train", "positive definite")):
            raise Inconclusive("training refused: %s" % str(e)[:40])
        raise


# ---------------------------------------------------------------- silence


def silent(case, rec, rng):
    spec = zoo.Spec(case["model"], rng)
    data = spec.data()
    w = Watch()

    def check(what, text):
        rec.check("silent", text == "", "silent:%s:%s" % (spec.name, what.split(":")[0]), "with global printing disabled, %s wrote %r" % (what, text[:200]), (spec.name, what), model=spec.name, options=spec.opts)
    with w:
        s = spec.make(data)
        spec.load(s, data)
    check("setup", w.text)
    with w:
        usual(case, rec, spec, lambda: train(spec, s))
    check("training", w.text)
    q = spec.points(data, 5)
    for name, (f, single) in spec.ops(s).items():
        with w:
            f(s, q[:1].copy() if single else q.copy())
        check(name, w.text)
    # refusals
    for what, f in (("predict:wrong size", lambda: s.predict_values(np.zeros((2, spec.d + 3)))), ("predict:text", lambda: s.predict_values("a")),
                    ("train:wrong data", lambda: s.set_training_values(np.zeros((3, spec.d)), np.zeros((4, 1))))):
        with w:
            try:
                f()
            except Exception:
                pass
        check(what, w.text)
    with w:
        usual(case, rec, spec, lambda: train(spec, s))
    check("retraining", w.text)
    # printing switched off later on
    if spec.name == "VFM":
        return
    spec2 = zoo.Spec(case["model"], rng)
    options_on(spec2, print_global=True)
    data2 = spec2.data()
    with w:
        s = spec2.make(data2)
        spec2.load(s, data2)
        usual(case, rec, spec2, lambda: train(spec2, s))
        q = spec2.points(data2, 3)
        if rng.random() < .5:
            s.predict_values(q)
    s.options["print_global"] = False
    ops = list(spec2.ops(s).items())
    rng.shuffle(ops)
    for name, (f, single) in ops:
        with w:
            f(s, q[:1].copy() if single else q.copy())
        rec.check("silent_after", w.text == "", "silent_after:%s:%s" % (spec2.name, name.rstrip("0123456789")), "after global printing was switched off, %s wrote %r" % (name, w.text[:200]), (spec2.name, name), options=spec2.opts)
    with w:
        usual(case, rec, spec2, lambda: train(spec2, s))
    rec.check("silent_after", w.text == "", "silent_after:%s:training" % spec2.name, "after global printing was switched off, training wrote %r" % w.text[:200], (spec2.name, "train"), options=spec2.opts)


def components(case, rec, rng):
    """samplings, problems, applications"""
    m, a = sm()
    import smt.sampling_methods as sa
    import smt.problems as pr
    from smt.utils.misc import compute_rms_error
    w = Watch()
    d = int(rng.choice([2, 3]))
    xl = np.stack([-rng.uniform(0, 2, d), rng.uniform(1, 3, d)], 1)

    def check(what, f):
        with w:
            f()
        rec.check("components", w.text == "", "components:" + what, "%s wrote %r" % (what, w.text[:200]), (what, d))
    for crit in ("center", "maximin", "centermaximin", "correlation", "c", "m", "cm", "corr", "ese"):
        check("LHS:" + crit, lambda: sa.LHS(xlimits=xl, criterion=crit, random_state=int(rng.integers(100)))(int(rng.integers(4, 9))))
    check("Random", lambda: sa.Random(xlimits=xl)(7))
    check("FullFactorial", lambda: sa.FullFactorial(xlimits=xl)(10))
    check("NestedLHS", lambda: a.mfk.NestedLHS(nlevel=2, xlimits=xl)(4))
    for n in ("Sphere", "Branin", "Rosenbrock", "TorsionVibration", "WaterFlow", "WeldedBeam", "RobotArm", "CantileverBeam", "LpNorm", "TensorProduct"):
        dim = {"Branin": 2, "RobotArm": 2 * d, "CantileverBeam": 3, "WaterFlow": 8, "WeldedBeam": 3, "TorsionVibration": 15}.get(n, d)
        kw = dict(func="cos", width=1.0) if n == "TensorProduct" else {}

        def go():
            p = getattr(pr, n)(ndim=dim, **kw)
            x = sa.Random(xlimits=p.xlimits)(3)
            p(x)
            p(x, kx=0)
        check("problem:" + n, go)

    def ego():
        from smt.applications import EGO
        p = pr.Branin(ndim=2)
        o = dict(n_iter=1, n_doe=4, xlimits=p.xlimits, criterion=str(rng.choice(["EI", "SBO", "UCB"])), random_state=3, n_parallel=int(rng.choice([1, 2])))
        EGO(**o).optimize(fun=p)
    check("EGO", ego)

    def mixed():
        from smt.applications.mixed_integer import MixedIntegerContext, FLOAT, INT, ENUM
        c = MixedIntegerContext([FLOAT, (ENUM, 2), INT], [[0, 1], ["u", "v"], [0, 4]], work_in_folded_space=bool(rng.random() < .5))
        x = c.build_sampling_method(sa.LHS, criterion="ese")(12)
        k = c.build_surrogate_model(m.KRG(print_global=False, theta0=[0.5]))
        k.set_training_values(x, np.sum(x, 1))
        k.train()
        k.predict_values(x[:3])
        compute_rms_error(k, x, np.sum(x, 1))
    check("mixed integers", mixed)


# ---------------------------------------------------------------- results


def same(case, rec, rng):
    name = case["model"]
    seed = int(rng.integers(1 << 30))
    answers = []
    sw = dict(print_training=bool(rng.random() < .7), print_prediction=bool(rng.random() < .7), print_problem=bool(rng.random() < .5), print_solver=bool(rng.random() < .6))
    w = Watch()
    for on in (False, True):
        spec = zoo.Spec(name, np.random.default_rng(seed))
        data = spec.data()
        if on and name == "GENN":
            spec.opts["is_print"] = True
        with w:
            if name == "VFM":
                _, a = sm()
                o = dict(print_global=on)
                s = a.VFM(name_model_LF=spec.mod_LF, name_model_bridge=spec.mod_B, options_LF=dict(o), options_bridge=dict(o), X_LF=data.x, y_LF=data.y, X_HF=data.hx, y_HF=data.hy, **spec.opts)
            else:
                if name == "MOE":
                    spec.opts["print_global"] = on
                elif on and name != "MIX":
                    spec.opts.update(print_global=True, **sw)
                s = spec.make(data)
                if on and name == "MIX":
                    s.options.update(dict(print_global=True, **sw))
            spec.load(s, data)
            usual(case, rec, spec, lambda: train(spec, s))
            q = spec.points(data, 4)
            r = {k: f(s, q[:1].copy() if single else q.copy()) for k, (f, single) in spec.ops(s).items()}
        answers.append(r)
    for k in answers[0]:
        eq = all(np.array_equal(x, y, equal_nan=True) for x, y in zip(zoo.flat(answers[0][k]), zoo.flat(answers[1][k])))
        rec.check("same_result", eq, "same:%s" % name, "printing changes the result of %s" % k, (name, k), switches=sw, options=spec.opts)


# ---------------------------------------------------------------- sections


def transcript(spec, data, q, seed=5):
    """text of training, of a prediction, of a derivative"""
    w = Watch()
    with w:
        s = spec.make(data)
        if spec.name == "MIX":
            s.options.update({k: v for k, v in spec.switches.items()})
        spec.load(s, data)
        usual(None, None, spec, lambda: train(spec, s, seed))
    t = [w.text]
    for k, (f, single) in spec.ops(s).items():
        with w:
            f(s, q[:1].copy() if single else q.copy())
        t.append(w.text)
    return t


def split(text):
    """[(title, lines)]: the part before the first title, then one entry for each title"""
    out = [("head", [])]
    lines = tidy(text)
    i = 0
    while i < len(lines):
        if lines[i].startswith("____"):
            j = i + 1
            while j < len(lines) and not lines[j].strip():
                j += 1
            title = lines[j].strip() if j < len(lines) else ""
            out.append((title, lines[i:j + 1]))
            i = j + 1
        else:
            out[-1][1].append(lines[i])
            i += 1
    return [(t, [l for l in ls if l.strip()]) for t, ls in out if any(l.strip() for l in ls)]


OWN = {"print_problem": lambda t: t.startswith("Problem size"), "print_training": lambda t: t.startswith("Training"), "print_prediction": lambda t: t.startswith("Evaluation")}


def sections(case, rec, rng):
    name = case["model"]
    seed = int(rng.integers(1 << 30))

    def run(**sw):
        spec = zoo.Spec(name, np.random.default_rng(seed))
        spec.switches = dict(print_global=True, **sw)
        data = spec.data()
        q = spec.points(data, 3)
        if name != "MIX":
            spec.opts.update(spec.switches)
        return transcript(spec, data, q)
    full = run()
    rec.check("sections", any(full), "sections:none:" + name, "nothing is printed although printing is enabled", (name, "full"))
    for sw, own in OWN.items():
        cut = run(**{sw: False})
        ok = len(cut) == len(full)
        for i, (a, b) in enumerate(zip(full, cut)):
            # the solver of the output derivatives prints without a title
            want = [(t, l) for t, l in split(a) if not own(t) and not (i and t == "head" and sw == "print_prediction")]
            got = split(b)
            if want != got:
                ok = False
                rec.seen("sections")
                rec.violation("sections:%s:%s" % (sw, name), "%s=False changes more or less than its own section" % sw, want=[t for t, _ in want], got=[t for t, _ in got], text=b[:600])
                break
        else:
            rec.check("sections", ok, "sections:%s:%s" % (sw, name), "%s=False changes the number of outputs" % sw, (name, sw))


SOLVER = re.compile(r"Krylov solver|Stationary solver|Back solving|Performing .* fact|Running .* solver|Initializing .*(gs|jacobi) solver|MG iter|multigrid", re.I)


def solver(case, rec, rng):
    name = case["model"]
    seed = int(rng.integers(1 << 30))

    def run(**sw):
        spec = zoo.Spec(name, np.random.default_rng(seed))
        data = spec.data()
        q = spec.points(data, 3)
        spec.opts.update(print_global=True, **sw)
        if name != "RBF":
            spec.opts["max_print_depth"] = 20
        return spec, transcript(spec, data, q)
    spec, full = run()
    if not SOLVER.search("".join(full)):
        raise Inconclusive("the solver does not print")
    _, cut = run(print_solver=False)
    left = [l for l in "".join(cut).splitlines() if SOLVER.search(l)]
    rec.check("solver_section", not left, "solver:" + name, "print_solver=False leaves solver information: %r" % left[:2], (name, spec.opts.get("solver")), options=spec.opts)
    a = [l for t in full for l in tidy(t)]
    b = [l for t in cut for l in tidy(t)]
    it = iter(a)
    rec.check("solver_section", all(l in it for l in b) and b != [], "solver:other:" + name, "print_solver=False changes other lines", (name, spec.opts.get("solver"), 1), options=spec.opts)


# ---------------------------------------------------------------- failures


class Injected(Exception):
    pass


class Fault:
    """count, and raise at the k-th entry of a function of the package"""

    def __init__(self, k=None, kind=Injected):
        self.k, self.n, self.kind, self.where, self.names = k, 0, kind, None, []

    def __call__(self, frame, event, arg):
        if event != "call":
            return
        f = frame.f_code
        if "/smt/" not in f.co_filename or f.co_filename.endswith(("printer.py", "options_dictionary.py")) or f.co_name in ("_active", "<lambda>", "<listcomp>", "<genexpr>"):
            return
        self.n += 1
        if self.k is not None and self.n == self.k:
            self.where = f.co_name
            sys.setprofile(None)
            raise self.kind("injected")

    def __enter__(self):
        sys.setprofile(self)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        return False


def state(s):
    p = getattr(s, "printer", None)
    return None if p is None else (p.depth, p.max_print_depth)


def fault(case, rec, rng):
    name = case["model"]
    if name == "VFM":
        raise Inconclusive("trained at the first prediction")
    on = bool(rng.random() < .7)
    seed = int(rng.integers(1 << 30))

    def new():
        spec = zoo.Spec(name, np.random.default_rng(seed))
        if name != "MIX":
            spec.opts["print_global"] = on
        data = spec.data()
        s = spec.make(data)
        if name == "MIX":
            s.options["print_global"] = on
        spec.load(s, data)
        return spec, data, s
    w = Watch()
    spec, data, ref = new()
    q = spec.points(data, 3)
    with w:
        with Fault() as c:
            usual(case, rec, spec, lambda: train(spec, ref))
    first = w.text
    with w:
        train(spec, ref)
        for k, (f, single) in spec.ops(ref).items():
            f(ref, q[:1].copy() if single else q.copy())
    want = w.text
    want_state = state(ref)
    calls = c.n
    for k in sorted(set([1 + int(calls * rng.random() ** 2) for _ in range(3)] + [int(rng.integers(1, calls + 1)), calls])):
        kind = KeyboardInterrupt if rng.random() < .3 else Injected
        spec, data, s = new()
        before = state(s)
        raised = False
        with w:
            if rng.random() < .4:           # already trained once
                train(spec, s)
            with Fault(k, kind) as c:
                try:
                    train(spec, s)
                except kind:
                    raised = True
                except Exception:
                    raised = c.where is not None
        if not on:
            rec.check("fault", w.text == "", "fault:silent:" + name, "a failing training wrote %r although printing is disabled" % w.text[:200], (name, c.where, on), where=c.where)
        after = state(s)
        rec.check("fault", before is None or after[0] == before[0], "fault:nesting:" + name, "after a failure in %s the nesting is %r instead of %r" % (c.where, after, before), (name, c.where, raised), where=c.where, options=spec.opts)
        # later output
        with w:
            try:
                train(spec, s)
                for kk, (f, single) in spec.ops(s).items():
                    f(s, q[:1].copy() if single else q.copy())
            except Exception as e:
                rec.inconclusive("later use refused")
                continue
        rec.check("fault_output", tidy(w.text) == tidy(want), "fault:output:" + name, "after a failure in %s the later output differs" % c.where, (name, c.where, raised), where=c.where, options=spec.opts,
                  got=[l for l in tidy(w.text) if l not in tidy(want)][:3], want=[l for l in tidy(want) if l not in tidy(w.text)][:3])
        rec.check("fault_output", state(s) == want_state, "fault:state:" + name, "after a failure in %s and a new training the printing state differs" % c.where, (name, c.where, raised, 1), where=c.where)
    # failing predictions
    for kk, (f, single) in spec.ops(ref).items():
        x = q[:1].copy() if single else q.copy()
        with w, Fault() as c:
            f(ref, x)
        n = c.n
        st = state(ref)
        with w:
            with Fault(int(rng.integers(1, n + 1))) as c:
                try:
                    f(ref, x)
                except Injected:
                    pass
        rec.check("fault", state(ref) == st, "fault:nesting:predict:" + name, "after a failure in %s during %s the nesting is %r instead of %r" % (c.where, kk, state(ref), st), (name, kk, c.where), where=c.where)
        if not on:
            rec.check("fault", w.text == "", "fault:silent:predict:" + name, "a failing prediction wrote %r although printing is disabled" % w.text[:200], (name, kk, c.where), where=c.where)
