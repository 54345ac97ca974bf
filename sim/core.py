"""Seeds, workers, oracle, minimisation, replay files, evidence."""
import hashlib, json, os, pickle, random, select, subprocess, sys, time, traceback
from . import env
from .forked import forked, ChildTimeout, ChildDied, HarnessError
from .outcome import canon, raised, close, short
from .world import World, jkey
from . import world as _world

RUN_TIMEOUT = 40.0
PATIENCE = 150.0


def h64(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:16]


class Oracle:
    """Answers of pristine twins, each computed in its own process forked from the zygote."""
    def __init__(self, cap=60000):
        self.memo, self.cap, self.asked, self.missed = {}, cap, 0, 0

    def expect(self, recipe, ask):
        key = jkey([recipe, ask])
        self.asked += 1
        hit = self.memo.get(key)
        if hit is None:
            self.missed += 1
            hit = forked(lambda: self._ask(recipe, ask), RUN_TIMEOUT)
            if len(self.memo) >= self.cap:
                self.memo.clear()
            self.memo[key] = hit
        return hit

    @staticmethod
    def _ask(recipe, ask):
        w = World()
        sys.stdout = w.out
        try:
            w.build(recipe)
        except HarnessError:
            raise
        except BaseException as e:
            return ["build-raise", type(e).__name__]
        return w.perform(ask)


class Check:
    id = None
    level = "exploration"
    technique = "deterministic simulation with fault injection (seeded search)"
    quick_runs = 200
    thorough_runs = 6000
    quick_wall = 150.0
    thorough_wall = 840.0
    shrink_fields = ("ops", "threads", "after", "preempt", "asks")
    real = ["actuarialmath (all of it, from /repo/src)", "numpy/scipy/pandas"]
    stubs = ["caller-supplied functions", "output stream"]
    rule = ""
    assumptions = []

    def generate(self, rng, tier):
        raise NotImplementedError

    def execute(self, case):
        """In a child process: perform the case; return a record dict with at least 'log' and 'stats'."""
        raise NotImplementedError

    def judge(self, case, rec, oracle):
        """In the zygote: list of violations (dicts with 'cls' and 'detail')."""
        raise NotImplementedError

    def nontrivial(self, case, rec):
        return True

    def concretise(self, case, rec):
        """The same case with every choice made during execution written out (thread schedules)."""
        if "sched" in case and rec.get("taken") is not None:
            case = _clone(case)
            case["sched"] = dict(grain=case["sched"].get("grain", "line"), preempt=rec["taken"])
        return case

    def sample(self, case, rec):
        return case


def run_case(check, case, oracle, timeout=RUN_TIMEOUT):
    for attempt in (1, 2):
        try:
            rec = forked(lambda: check.execute(case), timeout * attempt)
            break
        except ChildTimeout as e:
            if attempt == 2:
                return dict(log=[], stats={}), [dict(cls="no-progress", detail=str(e))]
        except ChildDied as e:
            if attempt == 2:
                return dict(log=[], stats={}), [dict(cls="process-died", detail=str(e))]
    try:
        v = check.judge(case, rec, oracle)
    except ChildTimeout as e:
        v = [dict(cls="no-progress", detail="pristine twin: " + str(e))]
    return rec, v


# ---- minimisation ---------------------------------------------------------------------------------------------
def _paths(case, fields):
    """All lists in the case that may be thinned out: (container, key)."""
    out = []

    def walk(o):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in fields and isinstance(v, list):
                    out.append((o, k))
                walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)
    walk(case)
    return out


def _clone(o):
    return json.loads(json.dumps(o))


def minimise(check, case, cls, oracle, budget=25.0, tries=400):
    t0, n = time.monotonic(), 0

    def bad(c):
        nonlocal n
        n += 1
        try:
            _, vs = run_case(check, c, oracle)
        except HarnessError:
            return False
        return any(v["cls"] == cls for v in vs)

    def left():
        return time.monotonic() - t0 < budget and n < tries
    changed = True
    while changed and left():
        changed = False
        for idx in range(len(_paths(case, check.shrink_fields))):
            size = None
            while left():
                paths = _paths(case, check.shrink_fields)
                if idx >= len(paths):                # a list inside a list that is gone
                    break
                cont, key = paths[idx]
                lst = cont[key]
                if not lst:
                    break
                size = len(lst) if size is None else size
                size = min(size, len(lst))
                done = True
                start = 0
                while start < len(lst) and left():
                    cand = _clone(case)
                    c2, k2 = _paths(cand, check.shrink_fields)[idx]
                    del c2[k2][start:start + size]
                    if bad(cand):
                        case, done, changed = cand, False, True
                        paths = _paths(case, check.shrink_fields)
                        if idx >= len(paths):
                            break
                        cont, key = paths[idx]
                        lst = cont[key]
                    else:
                        start += size
                if size > 1:
                    size = max(1, size // 2)
                elif done:
                    break
        # drop faults and optional settings one at a time
        for pth in _faults(case):
            if not left():
                break
            cand = _clone(case)
            o = cand
            for p in pth[:-1]:
                o = o[p]
            del o[pth[-1]]
            if bad(cand):
                case, changed = cand, True
                break
    return case, n


def _faults(case):
    out = []

    def walk(o, p):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in ("fault", "faults", "nest"):
                    out.append(p + [k])
                else:
                    walk(v, p + [k])
        elif isinstance(o, list):
            for i, v in enumerate(o):
                walk(v, p + [i])
    walk(case, [])
    return out


# ---- workers --------------------------------------------------------------------------------------------------
def case_for(check, seed, idx, tier):
    rng = random.Random(h64("case", check.id, seed, idx))
    case = check.generate(rng, tier)
    return _clone(case)


class _Indices:
    """Run indices handed to whichever worker is free (which worker executes a run never affects the run)."""
    def __init__(self, first, n):
        import mmap
        self.first, self.n = first, n
        self.mem = mmap.mmap(-1, 8)

    def __iter__(self):
        import fcntl, struct
        fd = os.open(os.environ.get("SIM_SCRATCH", "/tmp"), os.O_RDONLY)      # own description: own lock
        while True:
            fcntl.flock(fd, fcntl.LOCK_EX)
            k = struct.unpack("q", self.mem[:8])[0]
            self.mem[:8] = struct.pack("q", k + 1)
            fcntl.flock(fd, fcntl.LOCK_UN)
            if k >= self.n:
                os.close(fd)
                return
            yield self.first + k


def _worker(check, seed, tier, indices, w, deadline):
    oracle = Oracle()
    out = os.fdopen(w, "wb")

    def send(o):
        pickle.dump(o, out, protocol=4)
        out.flush()
    try:
        for idx in indices:
            if time.monotonic() > deadline:
                send(("late", idx))
                break
            t_run = time.monotonic()
            case = case_for(check, seed, idx, tier)
            a0, m0 = oracle.asked, oracle.missed
            try:
                rec, vs = run_case(check, case, oracle)
            except HarnessError as e:
                if "ChildTimeout" in str(e):         # the cost of an operation could not be measured in time
                    send(("slow", idx))
                else:
                    send(("harness", "index %d: %s" % (idx, e)))
                continue
            sh = rec.get("shapes")
            send(("run", idx, dict(stats=rec["stats"], digest=digest(rec["log"]), nontrivial=bool(check.nontrivial(case, rec)),
                                   case_hash=digest(case), shapes=sh if sh is not None else [digest(rec.get("shape", rec["log"]))],
                                   secs=time.monotonic() - t_run, asked=oracle.asked - a0, missed=oracle.missed - m0,
                                   violations=vs[:5], sample=check.sample(case, rec) if idx < 3 else None)))
        send(("done",))
    except BaseException:
        send(("harness", "index %d: %s" % (idx, traceback.format_exc())))
    out.close()
    os._exit(0)


def run_batch(check, seed, tier, runs, workers, wall, first=0, stop_on_violation=True):
    t0 = time.monotonic()
    procs = {}
    todo = _Indices(first, runs)
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for p in procs:
                os.close(p)
            _worker(check, seed, tier, todo, w, t0 + wall)
        os.close(w)
        procs[r] = [pid, b""]
    agg = dict(runs=0, stats={}, digests={}, nontrivial=set(), shapes=set(), asked=0, missed=0, violations=[],
               samples=[], secs=[], harness=[], late=False, slow=0)
    stop_at = None

    def handle(msg):
        nonlocal stop_at
        if msg[0] == "run":
            _, idx, d = msg
            agg["runs"] += 1
            for k, v in d["stats"].items():
                if k.startswith("max:"):
                    agg["stats"][k] = max(agg["stats"].get(k, v), v)
                else:
                    agg["stats"][k] = agg["stats"].get(k, 0) + v
            agg["digests"][idx] = d["digest"]
            agg["shapes"].update(d["shapes"])
            if d["nontrivial"]:
                agg["nontrivial"].add(d["case_hash"])
            agg["secs"].append((d["secs"], idx))
            agg["asked"] += d["asked"]
            agg["missed"] += d["missed"]
            if d["sample"] is not None:
                agg["samples"].append((idx, d["sample"]))
            for v in d["violations"]:
                agg["violations"].append(dict(v, index=idx))
        elif msg[0] == "harness":
            agg["harness"].append(msg[1])
        elif msg[0] == "late":
            agg["late"] = True
        elif msg[0] == "slow":
            agg["slow"] += 1
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 5.0)
        for fd in ready:
            b = os.read(fd, 1 << 20)
            if not b:
                os.close(fd)
                os.waitpid(procs[fd][0], 0)
                del procs[fd]
                continue
            buf = procs[fd][1] + b
            import io
            f = io.BytesIO(buf)
            pos = 0
            while True:
                try:
                    msg = pickle.load(f)
                except (EOFError, pickle.UnpicklingError):
                    break
                pos = f.tell()
                handle(msg)
            procs[fd][1] = buf[pos:]
        if (len(agg["harness"]) > 20 or (stop_on_violation and any(v["cls"] != "no-progress" for v in agg["violations"]))) and stop_at is None:
            stop_at = time.monotonic() + 1.0
        if stop_at is not None and time.monotonic() > stop_at:
            for fd, (pid, _) in list(procs.items()):
                import signal
                os.kill(pid, signal.SIGTERM)
                os.waitpid(pid, 0)
                os.close(fd)
            procs = {}
    agg["wall"] = time.monotonic() - t0
    return agg


# ---- command line ---------------------------------------------------------------------------------------------
def evidence(check, tier, seed, agg, wall, violations, extra):
    st = agg["stats"]
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("probe:")}
    cov = dict(
        evaluations=agg["runs"],
        distinct_nontrivial=len(agg["nontrivial"]),
        rule=check.rule,
        samples=[s for _, s in sorted(agg["samples"], key=lambda t: t[0])[:2]] or ["no run completed"],
        simulated_runs_per_hour=round(agg["runs"] / max(agg["wall"], 1e-9) * 3600),
        seeds_per_hour=round(agg["runs"] / max(agg["wall"], 1e-9) * 3600),
        operations=st.get("ops", 0),
        comparisons_with_oracle=st.get("compared", 0) + agg["asked"],
        pristine_twin_processes=agg["missed"],
        simulated_time=dict(unit="library lines/bytecodes executed under the simulated clock", ticks=st.get("ticks", 0)),
        faults_injected=faults,
        rare_conditions_hit=probes,
        other_counts={k: v for k, v in sorted(st.items()) if not k.startswith(("fault:", "probe:")) and k not in ("ops", "ticks", "compared")},
        distinct_interleavings_or_histories=len(agg["shapes"]),
        distinct_measure=getattr(check, "measure", "distinct hashes of the run's event log (operations, outcome classes, fault and switch points)"),
        log_digest=digest(sorted(agg["digests"].items())),
        real_components=check.real, stub_components=check.stubs, **extra)
    e = dict(property=check.id, tier=tier, seed=seed, level=check.level, coverage=cov,
             assumptions=check.assumptions, wall_s=round(wall, 2), violations=violations)
    d = os.environ.get("VERIF_EVIDENCE", os.path.join(env.VERIF, "evidence"))
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d.tmp" % (check.id, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(d, check.id + ".json"))


def replay(check, path):
    with open(path) as f:
        r = json.load(f)
    rec, vs = run_case(check, r["case"], Oracle())
    vs = [v for v in vs if v["cls"] == r["violation"]["cls"]]
    if vs:
        print("REPLAYED property=%s class=%s %s" % (check.id, vs[0]["cls"], vs[0]["detail"]))
        print("DIGEST", digest(rec["log"]))
        return 1
    print("NOT-REPRODUCED property=%s" % check.id)
    return 0


def main(check, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--digest", action="store_true", help="print per-run event-log digests")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation; no minimisation")
    ap.add_argument("--show", type=int, help="print case and judgement of one run index")
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    if a.replay:
        return replay(check, a.replay)
    print("property=%s tier=%s VERIF_SEED=%d" % (check.id, a.tier, a.seed), flush=True)
    if a.show is not None:
        case = case_for(check, a.seed, a.show, a.tier)
        rec, vs = run_case(check, case, Oracle())
        print(json.dumps(case, indent=1))
        print(json.dumps(rec["log"], default=repr)[:6000])
        print(rec["stats"])
        for v in vs:
            print("VIOL", v)
        return 0
    runs = a.runs if a.runs is not None else (check.quick_runs if a.tier == "quick" else check.thorough_runs)
    wall = a.wall if a.wall is not None else (check.quick_wall if a.tier == "quick" else check.thorough_wall)
    agg = run_batch(check, a.seed, a.tier, runs, a.workers, wall, first=a.first, stop_on_violation=not a.all)
    if a.digest:
        for i, d in sorted(agg["digests"].items()):
            print("RUN", i, d)
    if agg["harness"]:
        print("HARNESS-ERROR", agg["harness"][0], file=sys.stderr)
        if not agg["violations"]:
            return 2
    vs = sorted(agg["violations"], key=lambda v: (v["cls"] == "no-progress", v["index"]))
    if vs and vs[0]["cls"] == "no-progress" and not a.all:       # hung, or only slow?  Ask again, alone and patiently
        agg["slow"] += len(vs)
        kept = []
        for v in vs[:2]:
            case = case_for(check, a.seed, v["index"], a.tier)
            again = run_case(check, case, Oracle(), PATIENCE)[1]
            if again:
                kept = [dict(f, index=v["index"]) for f in again]
                break
        vs = kept
    for v in vs[:20] if a.all else []:
        print("FOUND", v)
    if a.all and vs:
        from collections import Counter
        print(Counter(v["cls"] for v in vs))
    print("runs=%d ops=%d ticks=%d twins=%d distinct=%d wall=%.1fs%s" % (
        agg["runs"], agg["stats"].get("ops", 0), agg["stats"].get("ticks", 0), agg["missed"], len(agg["shapes"]),
        agg["wall"], " (wall limit reached)" if agg["late"] else ""), flush=True)
    if a.all:
        print({k: v for k, v in sorted(agg["stats"].items())})
        print("slowest runs", [(round(s, 1), i) for s, i in sorted(agg["secs"])[-8:]], "sum", round(sum(s for s, _ in agg["secs"])))
        return 1 if vs else 0
    extra = dict(wall_limit_reached=agg["late"], runs_given_up_as_too_slow=agg["slow"])
    if not vs:
        evidence(check, a.tier, a.seed, agg, time.monotonic() - t0, 0, extra)
        return 0
    v = vs[0]
    case = case_for(check, a.seed, v["index"], a.tier)
    oracle = Oracle()
    rec, found = run_case(check, case, oracle)
    explicit = check.concretise(case, rec)
    if explicit is not case and any(f["cls"] == v["cls"] for f in run_case(check, explicit, oracle)[1]):
        case = explicit
    if v["cls"] in ("no-progress", "deadlock"):
        small, tried = case, 0
    else:
        try:
            small, tried = minimise(check, case, v["cls"], oracle)
        except Exception:
            traceback.print_exc()
            small, tried = case, 0
    rec, found = run_case(check, small, oracle)
    found = [f for f in found if f["cls"] == v["cls"]] or [v]
    d = os.path.join(os.environ.get("VERIF_EVIDENCE", os.path.join(env.VERIF, "evidence")), "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d-run%d.json" % (check.id, a.seed, v["index"]))

    def write(case, f, rec):
        with open(path, "w") as fh:
            json.dump(dict(property=check.id, seed=a.seed, index=v["index"], tier=a.tier, violation=f, case=case,
                           digest=digest(rec["log"]), log=rec["log"], minimisation_runs=tried,
                           replay="/opt/venv/bin/python -m sim.check %s --replay %s" % (check.id, path)),
                      fh, indent=1, default=repr)
    write(small, found[0], rec)
    ok = verify(check, path)
    if not ok:                                       # fall back to the unminimised case
        rec, f0 = run_case(check, case, Oracle())
        write(case, (f0 or [v])[0], rec)
        ok = verify(check, path)
    evidence(check, a.tier, a.seed, agg, time.monotonic() - t0, len(vs),
             dict(extra, replay_reproduced_in_fresh_process=ok, violation=found[0]))
    print("violation: %s: %s" % (found[0]["cls"], found[0]["detail"]))
    print("minimised to %s; replayed in a fresh process: %s" % (_size(small), "yes" if ok else "NO"))
    print("VIOLATION property=%s replay=%s" % (check.id, path), flush=True)
    return 1


def _size(case):
    return ", ".join("%s=%d" % (k, len(v)) for k, v in sorted(case.items()) if isinstance(v, list))


def verify(check, path):
    try:
        p = subprocess.run([sys.executable, "-m", "sim.check", check.id, "--replay", path], cwd=env.VERIF,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 1 and b"REPLAYED" in p.stdout
