"""Check runner: spreads cases over worker processes, watches them, and turns the monitors' reports into a verdict.

A case is a small JSON dict {"m": monitor, "seed": n, ...}; property modules provide
    cases(tier, seed)  -> list of cases
    run_case(case, rec)-> calls rec.ok / rec.violation / rec.inconclusive
    MIN = {counter: minimum}   what must have been observed for the run to count as an answer
Verdicts: exit 0 (held on everything explored), exit 1 (VIOLATION line), exit 2 (no answer)."""
import hashlib, importlib, io, json, os, signal, subprocess, sys, time, traceback, contextlib, zlib, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
NW = 8


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist()) if o.size <= 40 else "array%r" % (o.shape,)
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:200]


class Rec:
    """Collects what the monitors saw in one case."""

    def __init__(self, case):
        self.case = case
        self.counts = {}
        self.distinct = set()
        self.viol = []
        self.incon = {}
        self.samples = []

    def seen(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + int(n)

    def ok(self, what, sig=None, n=1):
        """monitor `what` evaluated n decisive comparisons; sig identifies the non-trivial situation."""
        self.seen(what, n)
        if sig is not None:
            self.distinct.add("%s|%s" % (what, sig))

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    def violation(self, key, msg, **detail):
        self.viol.append({"key": key, "msg": msg, "detail": jsonable(detail), "case": self.case})

    def inconclusive(self, why):
        self.incon[why] = self.incon.get(why, 0) + 1

    def check(self, what, good, key, msg, sig=None, **detail):
        """good: True / False / None (cannot tell)"""
        if good is None:
            self.inconclusive(what)
            return
        if good:
            self.ok(what, sig)
        else:
            self.seen(what)
            self.violation(key, msg, **detail)

    def dump(self):
        return {"counts": self.counts, "distinct": sorted(self.distinct), "viol": self.viol,
                "incon": self.incon, "samples": self.samples}


@contextlib.contextmanager
def quiet():
    """Swallow what the code prints (several modules print unconditionally)."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        yield buf


def case_rng(case):
    import numpy as np
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).digest()
    return np.random.default_rng(list(h[:16]))


# ---------------------------------------------------------------- line coverage of smt (cheap: disabled after first hit)
_hits = set()


def start_coverage(repo):
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    root = os.path.join(repo, "smt") + os.sep
    tool = 4
    try:
        mon.use_tool_id(tool, "vcov")
    except ValueError:
        return

    def line(code, no):
        fn = code.co_filename
        if fn.startswith(root):
            _hits.add((fn[len(repo) + 1:], no))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.LINE)


def run_one(mod, case, limit):
    import numpy as np, warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    rec = Rec(case)
    s = zlib.crc32(json.dumps(case, sort_keys=True).encode())
    np.random.seed(s % (2 ** 31))

    def alarm(*a):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(limit))
    try:
        mod.run_case(case, rec)
    except Inconclusive as e:
        rec.inconclusive(str(e)[:120])
    except CaseTimeout:
        if getattr(mod, "HANGS", False):
            # cases of this module take a small fraction of the limit when the code under test terminates
            rec.violation("hang:%s" % case.get("m"), "no answer within %d s" % limit)
        else:
            rec.inconclusive("case time limit")
        rec.seen("case_timeouts")
    except MemoryError:
        rec.inconclusive("memory")
    except AssertionError as e:
        tb = traceback.extract_tb(e.__traceback__)
        _crash(rec, e, tb)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        _crash(rec, e, tb)
    finally:
        signal.alarm(0)
    return rec


def _crash(rec, e, tb):
    """An exception nobody expected: from smt -> the code failed on valid input (violation); from the
    harness itself -> no answer."""
    repo = os.environ.get("SMT_REPO", "/repo")
    infile = [f for f in tb if f.filename.startswith(repo + "/smt/")]
    text = "".join(traceback.format_list(tb)[-6:]) + "%s: %s" % (type(e).__name__, e)
    if infile:
        rec.violation("crash:%s:%s:%s" % (rec.case.get("m"), os.path.basename(infile[-1].filename), type(e).__name__),
                      "unexpected %s on valid use: %s" % (type(e).__name__, str(e)[:300]), traceback=text[-1500:])
    else:
        rec.inconclusive("harness error: %s: %s @ %s" % (type(e).__name__, str(e)[:200], tb[-1] if tb else ""))
        rec.seen("harness_errors")


def worker(prop, path, out, flavor):
    """Run the cases listed in `path`, append one JSON line per event to `out`."""
    import native
    sos = native.build(flavor)
    native.install(sos)
    if flavor == "plain":
        start_coverage(native.REPO)
    mod = importlib.import_module("props." + prop)
    cases = json.load(open(path))
    limit = getattr(mod, "CASE_LIMIT", 100)
    with open(out, "a") as f:
        def put(o):
            f.write(json.dumps(o) + "\n")
            f.flush()
        done_cov = set()
        for idx, case in cases:
            put({"start": idx})
            t = time.time()
            with quiet():
                rec = run_one(mod, case, limit)
            new = _hits - done_cov
            done_cov |= new
            put({"done": idx, "rec": rec.dump(), "t": round(time.time() - t, 3), "cov": sorted(new)})


# ---------------------------------------------------------------- main
def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main(prop, replay=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import native
    mod_flavor = "asan" if prop == "S10" else "plain"
    sos = native.build(mod_flavor)
    native.build("plain")
    native.install(native.build("plain"))
    mod = importlib.import_module("props." + prop)
    if replay:
        case = json.load(open(replay))["case"]
        cases = [case]
    else:
        cases = mod.cases(tier, seed)
    budget = getattr(mod, "BUDGET", {"quick": 300, "thorough": 3000})[tier]
    budget = float(os.environ.get("VERIF_BUDGET", budget))
    # heavier cases first if the module says so, otherwise as listed; spread over workers dynamically in chunks
    todo = list(enumerate(cases))
    work = os.path.join(VERIF, "build", "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    env = dict(os.environ)
    env.update(VERIF_WORK=work, VERIF_TIER=tier, VERIF_SEED=str(seed), UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:halt_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1")
    if mod_flavor == "asan":
        env["LD_PRELOAD"] = ":".join(native.libasan())
    recs = {}
    cov = set()
    times = {}
    crashes = []
    nchunk = 0
    running = []
    retry = []

    def spawn(chunk):
        nonlocal nchunk
        nchunk += 1
        p = os.path.join(work, "c%d.json" % nchunk)
        o = os.path.join(work, "c%d.out" % nchunk)
        e = os.path.join(work, "c%d.err" % nchunk)
        json.dump(chunk, open(p, "w"))
        open(o, "w").close()
        pr = subprocess.Popen([sys.executable, os.path.join(VERIF, "harness", "core.py"), "--worker", prop, p, o, mod_flavor],
                              env=env, cwd=work, stdout=subprocess.DEVNULL, stderr=open(e, "wb"), start_new_session=True)
        running.append((pr, chunk, o, e, time.time()))

    def collect(pr, chunk, o, e, killed):
        started = None
        for l in open(o):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if "start" in d:
                started = d["start"]
            else:
                recs[d["done"]] = d["rec"]
                times[d["done"]] = d["t"]
                cov.update(map(tuple, d["cov"]))
                started = None
        left = [c for c in chunk if c[0] not in recs]
        if not left:
            return []
        err = open(e, errors="replace").read()
        if killed:
            return []
        if started is None:
            # died outside a case: harness problem
            crashes.append((None, pr.returncode, err))
            return []
        crashes.append((started, pr.returncode, err))
        return [c for c in left if c[0] != started]

    csize = max(1, min(getattr(mod, "CHUNK", 25), (len(todo) + NW * 3 - 1) // (NW * 3)))
    queue = [todo[i::max(1, (len(todo) + csize - 1) // csize)] for i in range(max(1, (len(todo) + csize - 1) // csize))]
    queue = [q for q in queue if q]
    skipped = 0
    try:
        while queue or running:
            over = time.time() - t0 > budget
            if over and queue:
                skipped += sum(len(q) for q in queue)
                queue = []
            while queue and len(running) < NW and not over:
                spawn(queue.pop(0))
            time.sleep(0.05)
            for r in list(running):
                pr = r[0]
                killed = False
                if pr.poll() is None:
                    if time.time() - t0 > budget + 60:
                        os.killpg(pr.pid, signal.SIGKILL)
                        pr.wait()
                        killed = True
                    else:
                        continue
                running.remove(r)
                rest = collect(pr, r[1], r[2], r[3], killed)
                if rest:
                    queue.append(rest)
    finally:
        for r in running:
            try:
                os.killpg(r[0].pid, signal.SIGKILL)
            except OSError:
                pass
        import shutil
        shutil.rmtree(work, ignore_errors=True)

    counts, incon, distinct, viol, samples = {}, {}, set(), [], []
    for i in sorted(recs):
        r = recs[i]
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["incon"].items():
            incon[k] = incon.get(k, 0) + v
        distinct.update(r["distinct"])
        viol += r["viol"]
        if len(samples) < 6:
            samples += [dict(case=cases[i], observed=s) for s in r["samples"]]
    harness_fail = []
    for started, rc, err in crashes:
        if started is None:
            harness_fail.append("worker died rc=%s: %s" % (rc, err[-1500:]))
            continue
        kind, keep = sanitizer_summary(err)
        viol.append({"key": "process-died:%s:%s" % (cases[started].get("m"), kind or "signal"),
                     "msg": "the process died while running this case (rc=%s) %s" % (rc, kind or ""),
                     "detail": {"report": keep}, "case": cases[started]})
    # a violation that is listed as a known finding is reported as such
    kf = known_findings(prop)
    new, known = [], {}
    for v in viol:
        hit = [k for k in kf if k[0] == v["key"]]
        if hit:
            known.setdefault(hit[0], 0)
            known[hit[0]] += 1
        else:
            new.append(v)
    bykey = {}
    for v in new:
        bykey.setdefault(v["key"], []).append(v)
    missing = []
    if not replay:
        for k, m in getattr(mod, "MIN", {}).items():
            if counts.get(k, 0) < m:
                missing.append("%s: %d < %d" % (k, counts.get(k, 0), m))
    evals = sum(v for k, v in counts.items() if not k.startswith(("case_", "harness_", "info_")))
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    reps = []
    for n, (k, vs) in enumerate(sorted(bykey.items())):
        path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (prop, n))
        json.dump({"property": prop, "key": k, "msg": vs[0]["msg"], "detail": vs[0]["detail"], "case": vs[0]["case"],
                   "occurrences": len(vs)}, open(path, "w"), indent=1)
        reps.append((k, path, vs))
    lines = {}
    if os.environ.get("VERIF_LINES"):       # for finding code that no workload reaches
        with open(os.environ["VERIF_LINES"], "a") as f:
            f.writelines("%s:%d\n" % c for c in cov)
    for fn, no in cov:
        lines[fn] = lines.get(fn, 0) + 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": getattr(mod, "RULE", "one per distinct (monitor, configuration signature) in which the monitor decided"),
            "samples": samples[:6] or [{"case": c} for c in cases[:2]],
            "monitor_evaluations": counts, "inconclusive": incon, "cases_planned": len(cases), "cases_run": len(recs),
            "cases_not_started_budget": skipped,
            "smt_lines_executed": dict(sorted(lines.items())),
            "known_findings_seen": {"%s" % k[0]: n for k, n in known.items()},
            "slowest_cases": [[times[i], cases[i]] for i in sorted(times, key=times.get)[-3:]],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"key": k, "replay": p, "msg": vs[0]["msg"], "count": len(vs)} for k, p, vs in reps],
    }
    if not replay:
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for (k, what), n in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s tier=%s seed=%d cases=%d/%d evaluations=%d distinct=%d inconclusive=%d wall=%.1fs" % (
        prop, tier, seed, len(recs), len(cases), evals, len(distinct), sum(incon.values()), time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps({"counts": counts, "incon": incon, "slow": ev["coverage"]["slowest_cases"]}, indent=1))
    if reps:
        for k, p, vs in reps[:20]:
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("   key=%s x%d: %s" % (k, len(vs), vs[0]["msg"][:400]))
        return 1
    if harness_fail:
        print("NO ANSWER: " + "\n".join(harness_fail))
        return 2
    if counts.get("harness_errors", 0):
        print("NO ANSWER: harness errors: %s" % {k: v for k, v in incon.items() if k.startswith("harness")})
        return 2
    if missing:
        print("NO ANSWER: monitors not exercised enough: %s" % "; ".join(missing))
        return 2
    return 0


def sanitizer_summary(err):
    m = re.search(r"SUMMARY: (\S+): (\S+)", err) or re.search(r"runtime error: (.{0,60})()", err)
    i = max(err.find("ERROR: AddressSanitizer"), err.find("runtime error"))
    keep = err[max(0, i - 200): i + 2500] if i >= 0 else err[-1500:]
    kind = None
    if m:
        # kind + first frame in the extension sources
        fr = re.search(r"#\d+ 0x[0-9a-f]+ in ([A-Za-z_:~]+).*?(idw|rbf|rmts|rmtb|rmtc|utils)[a-z]*\.cpp", err)
        kind = "%s@%s" % (re.sub(r"[^A-Za-z-]+", "-", (m.group(2) or m.group(1)))[:40], fr.group(1) if fr else "?")
    return kind, keep


if __name__ == "__main__":
    from core import worker, main  # the one copy of this module the property modules also import
    if sys.argv[1] == "--worker":
        worker(*sys.argv[2:6])
    elif sys.argv[1] == "--replay":
        r = sys.argv[2]
        sys.exit(main(json.load(open(r))["property"], replay=r))
    else:
        sys.exit(main(sys.argv[1]))
