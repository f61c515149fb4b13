"""Check driver: build, MPI runner, Hypothesis search, shrinking, replay, evidence."""
import fcntl, hashlib, importlib, json, multiprocessing as mp, os, shutil, signal, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = REPO + "/build"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
SCRATCH_BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"

CASE_TIMEOUT = 60.0      # first observation of a hang
CONFIRM_TIMEOUT = 75.0   # each confirmation of a hang


class Violation(Exception):
    """The property does not hold on this case."""


class Inconclusive(Exception):
    """The case did not decide anything (counted, never reported)."""


class HarnessError(Exception):
    pass


class Hang(Violation):
    pass


class StopSearch(KeyboardInterrupt):
    """Ends a Hypothesis run at once (its engine does not catch KeyboardInterrupt)."""


# ---------------------------------------------------------------- environment

def _env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "OMP_", "MKL_"))}
    for k in ("ARCH", "ESPRESO_FORBID_CHECK_SIMD", "WAFLOCK", "LIBRARIES", "DOMAINS", "SOLVER_NUM_THREADS"):
        env.pop(k, None)
    env.update({
        "CXX": "mpic++", "ES_INT_WIDTH": "32", "CPATH": "/usr/include/mkl", "LIBRARY_PATH": "/opt/vp/lib",
        "OMPI_CXX": "g++", "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
        "PYTHONDONTWRITEBYTECODE": "1", "LD_LIBRARY_PATH": BUILD, "GIT_OPTIONAL_LOCKS": "0",
        "OMPI_MCA_btl": "self,vader", "OMPI_MCA_pml": "ob1", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
        "OMPI_MCA_plm_rsh_agent": "", "OMPI_MCA_mpi_yield_when_idle": "1", "OMP_WAIT_POLICY": "passive",
        "MKL_NUM_THREADS": "1", "SOLVER_NUM_THREADS": "1", "PAR_NUM_THREADS": "1",
    })
    return env


ENV = _env()


def build():
    """Rebuild /repo incrementally; shared lock so that parallel checks do not interfere."""
    lock = open(os.path.join(SCRATCH_BASE, "verif-build.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        t = time.time()
        r = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-4000:])
            print("BUILD FAILED")
            sys.exit(3)
        return time.time() - t
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def scratch_root():
    d = tempfile.mkdtemp(prefix="verif-", dir=SCRATCH_BASE)
    return d


class Result:
    __slots__ = ("rc", "out", "err", "time")

    def __init__(self, rc, out, err, t):
        self.rc, self.out, self.err, self.time = rc, out, err, t


class Ctx:
    """Per-case context: a scratch directory and a program runner."""

    def __init__(self, base, timeout=CASE_TIMEOUT):
        self.base = base
        self.timeout = timeout
        self.dir = None
        self.runs = 0
        self._n = 0

    def begin(self):
        self._n += 1
        self.dir = os.path.join(self.base, "c%d" % self._n)
        os.makedirs(self.dir)

    def end(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = None

    def sub(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        return d

    def run(self, prog, args=(), np=1, threads=1, cwd=None, env=None, timeout=None, stdin=None):
        self.runs += 1
        cwd = cwd or self.dir
        e = dict(ENV)
        e["OMP_NUM_THREADS"] = str(threads)
        e["TMPDIR"] = self.dir
        if env:
            e.update(env)
        path = prog if prog.startswith("/") else os.path.join(BUILD, prog)
        if np == 1:
            cmd = [path] + list(args)
        else:
            cmd = ["/usr/bin/mpirun", "--oversubscribe", "--bind-to", "none", "-n", str(np), path] + list(args)
        t = time.time()
        timeout = timeout or self.timeout
        with open(os.path.join(self.dir, ".out"), "w+b") as fo, open(os.path.join(self.dir, ".err"), "w+b") as fe:
            p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                for s in (signal.SIGTERM, signal.SIGKILL):
                    try:
                        os.killpg(p.pid, s)
                    except ProcessLookupError:
                        break
                    try:
                        p.wait(3)
                    except subprocess.TimeoutExpired:
                        pass
                _kill_leftovers(self.dir)
                raise Hang("'%s' on %d rank(s) did not finish within %d s" % (os.path.basename(path), np, timeout))
            fo.seek(0)
            fe.seek(0)
            out = fo.read(4 << 20).decode("latin-1")
            err = fe.read(1 << 20).decode("latin-1")
        return Result(rc, out, err, time.time() - t)


def harness(src, exe, cwd, api=False):
    """Compile harness/src against the libraries built from the current tree."""
    ns = {}
    exec(open(os.path.join(BUILD, "c4che", "_cache.py")).read(), ns)
    libs = ["-l" + f[3:-3] for f in sorted(os.listdir(BUILD)) if f.startswith("libes") and f.endswith(".so")] + (["-lmesioapi"] if api else [])
    cmd = ["mpic++", "-std=c++17", "-O1", "-fopenmp"] + ["-D" + d for d in ns["DEFINES"]] + ["-I" + REPO + ("/include" if api else "/src"), os.path.join(ROOT, "harness", src), "-o", exe, "-L" + BUILD, "-Wl,--no-as-needed"] + libs
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, cwd=cwd)
    if r.returncode:
        raise HarnessError("harness/%s does not compile:\n%s" % (src, r.stdout[-3000:]))


def _kill_leftovers(d):
    """End ranks that left mpirun's session: only processes we started (their cwd or TMPDIR is our scratch directory)."""
    for pid in os.listdir("/proc"):
        if not pid.isdigit() or int(pid) == os.getpid():
            continue
        try:
            if os.readlink("/proc/%s/cwd" % pid).startswith(d):
                os.kill(int(pid), signal.SIGKILL)
        except OSError:
            pass


# ---------------------------------------------------------------- search driver

def _digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def _try(mod, case, base, timeout, tag):
    """Run one case; returns (kind, message, labels)."""
    ctx = Ctx(os.path.join(base, tag), timeout)
    os.makedirs(ctx.base, exist_ok=True)
    ctx.begin()
    try:
        labels = mod.check(case, ctx)
        return "ok", "", labels, ctx.runs
    except Inconclusive as e:
        return "inconclusive", str(e), None, ctx.runs
    except Violation as e:
        return "violation", str(e), None, ctx.runs
    finally:
        ctx.end()


def _worker(modname, wid, seed, tier, deadline, max_examples, base, stop, q, shrink_s, params):
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        sys.path.insert(0, ROOT)
        mod = importlib.import_module(modname)
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase, seed as hseed
        st = mod.strategy(tier)
        state = {"evals": 0, "nt": 0, "inc": 0, "runs": 0, "labels": {}, "seen": set(), "samples": [], "best": None,
                 "shrink_end": None, "skipped": 0, "ntseen": set()}
        wdir = os.path.join(base, "w%d" % wid)
        ctx = Ctx(wdir)
        os.makedirs(wdir, exist_ok=True)

        def flush_counts():
            q.put(("stats", wid, {k: state[k] for k in ("evals", "inc", "runs", "labels", "samples", "skipped")} | {"nt": sorted(state["ntseen"])}))

        class Failed(Exception):
            pass

        cache = {}

        def again(case, times):
            for _ in range(times):
                ctx.end()
                ctx.begin()
                try:
                    mod.check(case, ctx)
                except Inconclusive:
                    pass
                except Violation:
                    return True
            return False

        def body(case):
            now = time.time()
            if state["best"] is None:
                if now > deadline or stop.is_set():
                    state["skipped"] += 1
                    raise StopSearch()
            elif now > state["shrink_end"]:
                raise StopSearch()
            d = _digest(case)
            if d in cache:
                if cache[d]:
                    raise Failed()
                return
            ctx.begin()
            ctx.timeout = CASE_TIMEOUT if state["best"] is None else 15.0
            try:
                labels = mod.check(case, ctx)
                cache[d] = False
                if state["best"] is None:
                    state["evals"] += 1
                    nt = bool(labels.get("nontrivial"))
                    if nt:
                        state["ntseen"].add(d)
                        if len(state["samples"]) < 2 and len(json.dumps(case)) < 6000:
                            state["samples"].append(case)
                    for k, v in labels.items():
                        key = "%s=%s" % (k, v)
                        state["labels"][key] = state["labels"].get(key, 0) + 1
            except Inconclusive as e:
                cache[d] = False
                if state["best"] is None:
                    state["evals"] += 1
                    state["inc"] += 1
                    key = "inconclusive: " + str(e)[:60]
                    state["labels"][key] = state["labels"].get(key, 0) + 1
            except Violation as e:
                hang = isinstance(e, Hang)
                if hang and state["best"] is not None:
                    cache[d] = False
                    return
                if state["best"] is None and not again(case, 1 if hang else 4):
                    # seen once and never again: not a violation that could be reported with a replay file, the search goes on
                    cache[d] = False
                    state["evals"] += 1
                    state["inc"] += 1
                    key = "not reproduced: " + str(e)[:200]
                    state["labels"][key] = state["labels"].get(key, 0) + 1
                    return
                cache[d] = True
                size = len(json.dumps(case))
                if state["best"] is None:
                    state["evals"] += 1
                    state["shrink_end"] = time.time() + (0 if hang else shrink_s)
                    stop.set()
                    state["best"] = (size, case, str(e))
                elif size <= state["best"][0] and not hang:
                    state["best"] = (size, case, str(e))
                raise Failed() from None
            finally:
                state["runs"] += ctx.runs
                ctx.runs = 0
                ctx.end()

        phases = [Phase.explicit, Phase.generate, Phase.shrink]
        test = settings(max_examples=max_examples, database=None, deadline=None, phases=phases, print_blob=False, report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet)(hseed(seed * 1009 + wid)(given(st)(body)))
        try:
            test()
        except (Failed, StopSearch, hypothesis.errors.Flaky):
            pass
        except BaseExceptionGroup:
            if state["best"] is None:
                raise
        if state["best"] is not None:
            q.put(("violation", wid, state["best"]))
        flush_counts()
        q.put(("done", wid, None))
    except BaseException:
        q.put(("error", wid, traceback.format_exc()))


def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.json")
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def main(pid, modname):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--max", type=int)
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    bt = 0.0 if a.no_build else build()
    base = scratch_root()
    rc = 2
    try:
        sys.path.insert(0, ROOT)
        mod = importlib.import_module(modname)
        if hasattr(mod, "prepare"):
            mod.prepare(base)
        if a.replay:
            with open(a.replay) as f:
                case = json.load(f)["case"]
            kind, msg, labels, runs = _try(mod, case, base, CONFIRM_TIMEOUT, "replay")
            print(kind, msg, labels)
            if kind == "violation":
                print("VIOLATION property=%s replay=%s" % (pid, a.replay))
                rc = 1
            else:
                rc = 0
            return rc
        rc = _search(pid, modname, mod, tier, base, t0, bt, a)
        return rc
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _search(pid, modname, mod, tier, base, t0, bt, a):
    P = mod.PARAMS[tier]
    seconds = a.seconds or P["seconds"]
    workers = a.workers or P.get("workers", 8)
    max_ex = a.max or P.get("max_examples", 100000)
    shrink_s = P.get("shrink", 60)
    deadline = time.time() + seconds
    # fixed regression cases first (shrunk failures of earlier work; plain, no library involved)
    violations = []
    stats = {"evals": 0, "inc": 0, "runs": 0, "labels": {}, "samples": [], "skipped": 0, "nt": set()}
    findings = []
    for k in known_findings(pid):
        if k.get("status") == "fixed":
            continue
        kind, msg, _, runs = _try(mod, k["case"], base, CONFIRM_TIMEOUT, "known")
        stats["runs"] += runs
        if kind == "violation":
            findings.append(k)
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)
    reg = getattr(mod, "REGRESSIONS", [])
    if callable(reg):
        reg = reg()
    reg = list(reg)
    rdir = os.path.join(ROOT, "regressions", pid)
    for f in sorted(os.listdir(rdir)) if os.path.isdir(rdir) else []:
        with open(os.path.join(rdir, f)) as fp:
            reg.append(json.load(fp)["case"])
    for case in reg:
        kind, msg, labels, runs = _try(mod, case, base, CASE_TIMEOUT, "reg")
        stats["evals"] += 1
        stats["runs"] += runs
        if kind == "violation":
            violations.append((len(json.dumps(case)), case, msg))
            break
        if kind == "ok" and labels.get("nontrivial"):
            stats["nt"].add(_digest(case))
    errors = []
    if not violations:
        mpc = mp.get_context("fork")
        q = mpc.Queue()
        stop = mpc.Event()
        procs = [mpc.Process(target=_worker, args=(modname, w, SEED, tier, deadline, max_ex, base, stop, q, shrink_s, P), daemon=True) for w in range(workers)]
        for p in procs:
            p.start()
        left = set(range(workers))
        hard = deadline + shrink_s + 3 * CASE_TIMEOUT
        while left and time.time() < hard:
            try:
                kind, wid, data = q.get(timeout=1.0)
            except Exception:
                if not any(p.is_alive() for p in procs):
                    break
                continue
            if kind == "done":
                left.discard(wid)
            elif kind == "error":
                errors.append(data)
                left.discard(wid)
            elif kind == "violation":
                violations.append(data)
            elif kind == "stats":
                for k in ("evals", "inc", "runs", "skipped"):
                    stats[k] += data[k]
                for k, v in data["labels"].items():
                    stats["labels"][k] = stats["labels"].get(k, 0) + v
                stats["samples"] += data["samples"]
                stats["nt"] |= set(data["nt"])
        for p in procs:
            if p.is_alive():
                p.terminate()
        for p in procs:
            p.join(5)
        if left and not violations:
            errors.append("workers %s gave no answer" % sorted(left))
    nviol = 0
    rc = 0
    violations.sort(key=lambda v: v[0])
    for size, case, msg in violations[:3]:
        fails = 0
        last = msg
        for i in range(10 if violations[0][1] is case else 3):
            kind, m, _, runs = _try(mod, case, base, CONFIRM_TIMEOUT, "confirm")
            stats["runs"] += runs
            if kind == "violation":
                fails += 1
                last = m
            if fails == 2:
                break
        if fails >= 2:
            nviol += 1
            rd = os.path.join(ROOT, "replays")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%s.json" % (pid, _digest(case)[:12]))
            with open(rp, "w") as f:
                json.dump({"property": pid, "message": last, "case": case, "how": "python3-vt checks/%s --replay <this file>" % os.path.basename(sys.argv[0])}, f, indent=1)
            print("violating case (%d bytes): %s" % (size, last[:3000]))
            print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
            rc = 1
            break
        else:
            print("reproduced only %d times: %s" % (fails, msg[:500]))
            stats["labels"]["unreproduced-failure"] = stats["labels"].get("unreproduced-failure", 0) + 1
    ev = {
        "property": pid, "tier": tier, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": stats["evals"], "distinct_nontrivial": len(stats["nt"]), "rule": mod.RULE,
            "samples": stats["samples"][:6], "program_runs": stats["runs"], "inconclusive": stats["inc"],
            "labels": dict(sorted(stats["labels"].items())), "known_findings_seen": [k["what"] for k in findings],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0 and errors:
        print("\n".join(errors))
        print("HARNESS ERROR")
        return 2
    if rc == 0 and not stats["nt"]:
        print("no non-trivial case was generated")
        return 2
    print("%s %s: %d cases, %d distinct non-trivial, %d program runs, %d inconclusive, %.1f s (build %.1f s), violations %d" % (
        pid, tier, stats["evals"], len(stats["nt"]), stats["runs"], stats["inc"], time.time() - t0, bt, nviol))
    return rc
