"""Check runner: case generation, parallel execution, verdicts, evidence, replay files."""
import hashlib, importlib, json, os, random, resource, sys, time, traceback, multiprocessing, multiprocessing.connection, signal, warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LEVEL = "exploration"


class Violated(Exception):
    def __init__(self, key, msg, **detail):
        super().__init__(msg)
        self.key, self.msg, self.detail = key, msg, detail


class Ctx:
    """Collects what the monitors of one case observed."""
    def __init__(self, case):
        self.case = case
        self.rng = random.Random(case.get("seed", 0))
        self.obs = Counter()
        self.states = set()
        self.viol = []
        self.sample = None

    def ev(self, name, n=1):
        self.obs[name] += n

    def seen(self, *key):
        """A distinct situation the monitor judged (used for distinct_nontrivial)."""
        self.states.add("/".join(str(k) for k in key))

    def fail(self, key, msg, **detail):
        raise Violated(key, msg, **detail)

    def check(self, cond, key, msg, **detail):
        if not cond:
            raise Violated(key, msg, **detail)

    def eq(self, got, want, key, what, **detail):
        if got != want:
            raise Violated(key, f"{what}: got {short(got)}, expected {short(want)}", **detail)


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout()


def _in_repo(tb):
    for fr, _ in traceback.walk_tb(tb):
        f = os.path.abspath(fr.f_code.co_filename)
        if f.startswith(os.path.abspath(REPO) + os.sep):
            return True
    return False


_MOD = None
_LIMIT = 60
MEMORY = 12 << 30        # address space of a worker


def _blocked(*_):
    """Runs every 30 s: the case neither computes nor ends."""
    u = os.times()
    used = u.user + u.system + u.children_user + u.children_system
    last = _STATE.get("cpu")
    _STATE["cpu"] = used
    if last is not None and used - last < .3:
        _STATE["idle"] = _STATE.get("idle", 0) + 1
        if _STATE["idle"] >= 3:
            raise CaseTimeout()
    else:
        _STATE["idle"] = 0


_STATE = {}


def _run_one(case):
    warnings.simplefilter("ignore")
    ctx = Ctx(case)
    t0 = time.time()
    out = {"case": case, "viol": None, "error": None}
    # processor time, so that a loaded machine does not matter
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, case.get("limit", _LIMIT))
    _STATE.clear()
    signal.signal(signal.SIGALRM, _blocked)
    signal.setitimer(signal.ITIMER_REAL, 30, 30)
    try:
        _MOD.run_case(case, ctx)
    except Violated as v:
        out["viol"] = {"key": v.key, "msg": v.msg, "detail": {k: short(x, 2000) for k, x in v.detail.items()}}
    except CaseTimeout as e:
        tb = traceback.format_exc()
        if _in_repo(e.__traceback__):
            out["viol"] = {"key": "hang", "msg": f"the code under test does not come back within {case.get('limit', _LIMIT)} s of processor time", "detail": {"traceback": tb[-3000:]}}
        else:
            out["error"] = "case ran out of time: " + tb[-1500:]
    except Exception as e:
        import amaranth
        tb = traceback.format_exc()
        from .bench import StepLimit
        if _in_repo(e.__traceback__) or isinstance(e, StepLimit) or getattr(e, "from_dut", False) \
                or "amaranth/" in traceback.extract_tb(e.__traceback__)[-1].filename:
            # The code under test rejected, or crashed on, a case the property covers.
            out["viol"] = {"key": "exception", "msg": f"{type(e).__name__}: {e}", "detail": {"traceback": tb[-3000:]}}
        else:
            out["error"] = tb
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    out["obs"] = dict(ctx.obs)
    out["states"] = list(ctx.states)
    out["sample"] = ctx.sample
    out["t"] = time.time() - t0
    return out


def _worker(conn, cases):
    """Child process: runs the cases whose numbers arrive."""
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    while True:
        i = conn.recv()
        try:
            r = _run_one(cases[i])
        except BaseException:               # an alarm that came at the very end of the case
            r = {"case": cases[i], "viol": None, "error": traceback.format_exc(), "obs": {}, "states": [], "sample": None, "t": 0}
        conn.send(r)


def run_all(cases, jobs, deadline):
    """Yields the result of every case, until the deadline; no lock is shared between the processes, so killing them is safe."""
    ctxm = multiprocessing.get_context("fork")
    todo = list(range(len(cases)))[::-1]
    workers = {}                                     # connection: (process, number of the case under way)

    def start():
        here, there = ctxm.Pipe()
        p = ctxm.Process(target=_worker, args=(there, cases), daemon=True)
        p.start()
        there.close()
        workers[here] = [p, None]
        give(here)

    def give(conn):
        workers[conn][1] = todo.pop() if todo else None
        if workers[conn][1] is not None:
            conn.send(workers[conn][1])

    def stop(conn):
        p, _ = workers.pop(conn)
        p.kill()
        p.join(5)
        conn.close()
        return p.exitcode
    try:
        for _ in range(min(jobs, len(cases))):
            start()
        while any(i is not None for _, i in workers.values()):
            ready = multiprocessing.connection.wait([c for c, (_, i) in workers.items() if i is not None], timeout=max(1.0, deadline - time.time()))
            if not ready:
                return
            for conn in ready:
                i = workers[conn][1]
                try:
                    r = conn.recv()
                except (EOFError, OSError):
                    code = stop(conn)
                    r = {"case": cases[i], "viol": None, "error": f"the process that ran the case ended ({code})", "obs": {}, "states": [], "sample": None, "t": 0}
                    if code in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL):
                        r.update(error=None, viol={"key": "crash", "msg": f"the process that executes the code under test ended with signal {-code}", "detail": {}})
                    start()
                else:
                    give(conn)
                yield r
    finally:
        for conn in list(workers):
            stop(conn)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == prop]


def setup_path():
    sys.dont_write_bytecode = True
    for p in (os.path.join(VERIF, "stubs"), REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    warnings.simplefilter("ignore")


def main(argv):
    global _MOD, _LIMIT
    prop = argv[0]
    replay = None
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if tier == "thorough":
        _LIMIT = 240
    seed = int(os.environ.get("VERIF_SEED", "1"))
    setup_path()
    t0 = time.time()
    sys.path.insert(0, VERIF)
    _MOD = importlib.import_module("harness.checks." + prop.lower())
    import amlib
    assert os.path.abspath(amlib.__file__).startswith(os.path.abspath(REPO)), amlib.__file__

    if replay:
        with open(replay) as f:
            case = json.load(f)["case"]
        r = _run_one(case)
        print(json.dumps({k: r[k] for k in ("viol", "error", "obs")}, indent=1))
        return 1 if r["viol"] else (2 if r["error"] else 0)

    rng = random.Random(f"{prop}:{seed}:{tier}")
    cases = list(_MOD.cases(tier, rng))
    for i, c in enumerate(cases):
        c.setdefault("seed", rng.getrandbits(32))
        c.setdefault("n", i)
    budget = getattr(_MOD, "BUDGET", {"quick": 150, "thorough": 780})[tier]
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    known = load_known(prop)

    obs, states, samples = Counter(), set(), []
    viols, errors, done = [], [], 0
    skipped = 0
    new = 0
    for r in run_all(cases, jobs, t0 + budget):
        done += 1
        obs.update(r["obs"])
        states.update(r["states"])
        if r["sample"] is not None and len(samples) < 5:
            samples.append(r["sample"])
        if r["viol"]:
            viols.append(r)
            if not any(match(k, r) for k in known):
                new += 1
                if new >= int(os.environ.get("VERIF_MAXVIOL", "5")):      # enough to report
                    break
        if r["error"]:
            errors.append(r)
            if len(errors) >= 3:
                break
    else:
        skipped = len(cases) - done

    kn_hit = Counter()
    unknown = []
    for r in viols:
        for i, k in enumerate(known):
            if match(k, r):
                kn_hit[i] += 1
                break
        else:
            unknown.append(r)

    replay_dir = os.path.join(VERIF, "evidence", "replay")
    if unknown:
        os.makedirs(replay_dir, exist_ok=True)
    for r in unknown[:5]:
        h = hashlib.sha1(json.dumps(r["case"], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(replay_dir, f"{prop}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "case": r["case"], "violation": r["viol"]}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  [{r['viol']['key']}] {r['viol']['msg']}")
        tb = r["viol"]["detail"].get("traceback")
        if tb:
            print("  " + tb[-900:].replace("\n", "\n  "))
    for i, k in enumerate(known):
        print(f"KNOWN-FINDING: property={prop} {k['what']} (reproduced in {kn_hit[i]} cases of this run)")
    for r in errors[:3]:
        print("ERROR of the check in case", json.dumps(r["case"])[:500])
        print(r["error"])

    floors = getattr(_MOD, "FLOORS", {})
    low = {k: (obs.get(k, 0), v) for k, v in floors.items() if obs.get(k, 0) < v}
    wall = time.time() - t0
    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(states),
            "rule": _MOD.RULE,
            "samples": samples,
            "observed_events": dict(sorted(obs.items())),
            "cases_not_reached": skipped,
            "known_findings_reproduced": sum(kn_hit.values()),
        },
        "assumptions": getattr(_MOD, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(unknown),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evid, f, indent=1)
    top = ", ".join(f"{k}={v}" for k, v in sorted(obs.items()))
    print(f"{prop} [{tier}, seed {seed}]: {done}/{len(cases)} cases, {len(states)} distinct situations, {wall:.1f}s; observed {top}")
    if unknown:
        return 1
    if errors:
        return 2
    if low and not skipped:
        print(f"INCONCLUSIVE: the monitors saw too little: {low}")
        return 3
    if done == 0 or not states:
        print("INCONCLUSIVE: nothing observed")
        return 3
    return 0


def match(k, r):
    if k["key"] != r["viol"]["key"]:
        return False
    if k.get("msg") and k["msg"] not in r["viol"]["msg"]:
        return False
    return all(r["case"].get(a) == b for a, b in k.get("case", {}).items())
