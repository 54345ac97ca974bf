"""C04: objects do not influence one another."""
import sys
from ..core import Check
from ..world import World, jkey, strip
from ..fns import CTL
from ..sched import Scheduler
from ..outcome import canon, raised
from .. import catalog as cat
from .. import scene as sc
from . import c03


def gen_sched(rng):
    return dict(seed=rng.randrange(1 << 30), gap=rng.choice([2, 6, 20, 60, 200, 800]), grain="opcode" if rng.random() < 0.4 else "line")


def make_sched(spec, n):
    return Scheduler(n, seed=spec.get("seed"), gap=spec.get("gap"), preempt=spec.get("preempt"), grain=spec.get("grain", "line"))


def step(w, op, obs, log, tag, k):
    """One operation of a history, with an optional callback fault at a fixed evaluation."""
    if op["op"] != "new" and op.get("id") not in w.objs:
        return
    if op["op"] == "new" and any(isinstance(v, dict) and "$obj" in v and v["$obj"] not in w.objs for v in op.get("kw", {}).values()):
        return
    w.count("ops")
    f, fired = op.get("fault"), None
    if f:
        CTL.arm(f["at"], f["exc"])
        out = w.perform(op)
        fired = CTL.fired and "cb@%d" % f["at"] or None
        CTL.disarm()
        if fired:
            w.count("fault:cb:" + f["exc"])
    else:
        out = w.perform(op)
    log.append([tag, k, op["op"], op.get("m"), out, fired])
    if op["op"] == "ask":
        obs.append(dict(k="%s.%d" % (tag, k), id=op["id"], ask=strip(op), recipe=w.recipe(op["id"]), raw_recipe=w.recipe(op["id"], False), out=out, fired=fired))
    elif out[0] != "raise":
        w.accepted(op)


class C04(Check):
    id = "C04"
    quick_runs = 1600
    thorough_runs = 24000
    real = Check.real + ["threads (real, token-scheduled)"]
    rule = ("a run has 2-4 owners, each with its own model (and views) of the same or different classes and its own history of construction, configuration, "
            "changes, queries and failing queries, largely the same questions put to differently configured objects; histories are either merged in a seeded order "
            "on one thread or run on one thread each under a seeded preemptive schedule; every answer is compared with that owner's pristine twin; "
            "non-trivial: at least two owners with three answers each, and at least three alternations or preemptions")
    assumptions = ["pyplot state is global by design and is covered by C17 only", "code inside numpy/scipy runs without preemption, except where it calls back"]

    def generate(self, rng, tier):
        n = rng.choice([2, 2, 2, 3, 4])
        threads = rng.random() < 0.55
        same = rng.random() < 0.6
        kind = rng.choice(cat.KINDS + ["SelectLife", "SelectLife", "SelectLife", "LifeTable", "Recursion", "Recursion", "Reserves"])
        hist, pool = [], {}
        for j in range(n):
            ops, gens = [], {}
            oid = "abcd"[j]
            meta = sc.scene(rng, oid, kinds=[kind] if same else None, views=0.25, ops=ops, gens=gens)
            ids = sorted(gens)
            for _ in range(rng.randint(3, 8)):
                r = rng.random()
                if r < 0.1 and meta["kind"] in ("Reserves", "PolicyValues", "MortalityLaws"):
                    ops.append(dict(op="do", id=oid, m="set_survival", kw=cat.gen_survival(rng)))
                    continue
                if r < 0.2:
                    ops.append(dict(op="do", id=oid, m="set_interest", kw=cat.gen_interest(rng) if rng.random() < 0.8 else cat.bad_interest(rng)))
                    continue
                i = rng.choice(ids)
                key = [g for g in ops if g["op"] == "new" and g["id"] == i][0]["kind"]
                if pool.get(key) and rng.random() < 0.6:
                    q = dict(rng.choice(pool[key]))
                else:
                    q = gens[i][0]()
                    pool.setdefault(key, []).append(q)
                q = dict(q, id=i)
                if rng.random() < 0.12 and (sc.has_fn(q["kw"]) or meta["custom"]):
                    q["fault"] = dict(at=rng.choice([1, 2, 3, 10]), exc=rng.choice(sc.CB_EXC))
                ops.append(q)
            hist.append(ops)
        case = dict(threads=[dict(ops=h) for h in hist])
        if threads:
            case["sched"] = gen_sched(rng)
            for h in hist:                               # the solver is exponential in its depth, and slower under the scheduler
                for op in h:
                    if op["op"] == "new" and op["kind"] == "Recursion":
                        op["kw"]["depth"] = 1
                        case["sched"]["grain"] = "line"
        else:
            order = [j for j in range(n) for _ in hist[j]]
            if rng.random() < 0.7:
                rng.shuffle(order)
            case["order"] = order
        return case

    def execute(self, case):
        w = World()
        old, sys.stdout = sys.stdout, w.out
        obs, log = [], []
        extra = {}
        hist = [t["ops"] for t in case["threads"]]
        if not hist:
            return dict(obs=[], log=[], stats={}, switches=0)
        if "sched" in case:
            logs, obss = [[] for _ in hist], [[] for _ in hist]

            def body(j):
                def run():
                    for k, op in enumerate(hist[j]):
                        step(w, op, obss[j], logs[j], j, k)
                return run
            s = make_sched(case["sched"], len(hist))
            s.run([body(j) for j in range(len(hist))])
            for o, l in zip(obss, logs):
                obs += o
                log += l
            log.append(["schedule", s.ticks, s.taken])
            w.count("ticks", s.ticks)
            w.count("preemptions", len(s.taken))
            w.count("runs with threads")
            extra = dict(taken=s.taken, deadlock=s.deadlock, switches=len(s.taken))
        else:
            pos = [0] * len(hist)
            prev, switches = None, 0
            for j in case["order"] + [j for j in range(len(hist)) for _ in hist[j]]:
                if j >= len(hist) or pos[j] >= len(hist[j]):
                    continue
                step(w, hist[j][pos[j]], obs, log, j, pos[j])
                pos[j] += 1
                switches += prev is not None and prev != j
                prev = j
            extra = dict(switches=switches)
        sys.stdout = old
        return dict(obs=obs, log=log, stats=w.stats, **extra)

    def judge(self, case, rec, oracle):
        if rec.get("deadlock"):
            return [dict(cls="deadlock", detail="no thread can proceed")]
        return c03.judge_history(rec, oracle, "influenced-by-another-object")

    def nontrivial(self, case, rec):
        per = {}
        for o in rec.get("obs", []):
            if o["out"][0] != "raise":
                per[o["id"][0]] = per.get(o["id"][0], 0) + 1
        return len([v for v in per.values() if v >= 3]) >= 2 and rec.get("switches", 0) >= 3


CHECK = C04()
