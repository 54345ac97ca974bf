"""C05: overlapping queries on one model return what they return alone."""
import sys
from ..core import Check
from ..world import World, jkey, strip
from ..fns import CTL
from ..outcome import canon, raised
from .. import catalog as cat
from .. import scene as sc
from . import c03
from .c04 import gen_sched, make_sched, step


CHEAP = set("""annuity_twin insurance_twin annuity_variance insurance_variance Z_from_t Y_from_t Z_to_t Y_to_t L_from_t t_V t_V_forward t_V_backward
    r_V_forward r_V_backward net_future_loss net_variance_loss gross_future_loss gross_variance_loss gross_premium insurance_equivalence premium_equivalence
    p_x q_x l_x d_x mu_x f_x l_r p_r q_r mu_r f_r E_r e_r E_x Z_x Z_m p_m q_m v_m alpha_m beta_m FPT_premium max_term add_term""".split())


class C05(Check):
    id = "C05"
    quick_runs = 1800
    thorough_runs = 24000
    real = Check.real + ["threads (real, token-scheduled)"]
    rule = ("a run builds one model (and views), then either issues overlapping queries on it from 2-4 threads under a seeded preemptive schedule at library line or "
            "bytecode grain, or issues queries whose benefit, discount or survival function calls other queries of the same model at a chosen evaluation; afterwards "
            "more questions are asked; every answer is compared with a pristine twin; non-trivial: at least three preemptions, or a nested call that happened")
    assumptions = ["code inside numpy/scipy runs without preemption, except where it calls back", "Recursion objects: nested calls only"]

    def generate(self, rng, tier):
        threads = rng.random() < 0.6
        ops, gens = [], {}
        kinds = [k for k in cat.KINDS if k != "Recursion"]
        if not threads and rng.random() < 0.1:
            kinds = ["Recursion"]
        sc.scene(rng, "a", kinds=kinds, views=0.3, ops=ops, gens=gens)
        if not threads and rng.random() < 0.5:       # a custom discount function makes every query a place to call from
            ops.append(dict(op="do", id="a", m="set_interest", kw=dict(v_t={"$fn": ["v_pow", 0.06]})))
            for g in gens.values():
                g[1]["custom"] = True
        ids = sorted(gens)
        pool = {i: cat.asks(rng, gens[i][0], 8) for i in ids}
        if rng.random() < 0.5:                       # few kinds of question, many arguments: neighbours overlap
            base = rng.choice(pool["a"])
            pool["a"] = [base] + [cat.mutate(rng, base, gens["a"][0]) for _ in range(7)]

        duel = threads and rng.random() < 0.4
        if duel:                                     # short questions of one or two kinds, switched at nearly every step
            for i in ids:
                g = gens[i][0]
                cheap = [o for o in (g() for _ in range(60)) if o["m"] in CHEAP] or pool[i]
                few = [rng.choice(cheap) for _ in range(rng.choice([1, 1, 2]))]
                more = []
                for o in few:
                    for _ in range(5):
                        more.append(getattr(g.__self__, "like", lambda m: None)(o["m"]) or cat.mutate(rng, o, g))
                pool[i] = few + more

        def q():
            i = "a" if rng.random() < 0.6 else rng.choice(ids)
            return dict(rng.choice(pool[i]), id=i)
        case = dict(ops=ops, after=[q() for _ in range(rng.randint(2, 5))])
        if rng.random() < 0.4:
            case["ops"] = ops + [q() for _ in range(rng.randint(1, 3))]
        if threads:
            case["threads"] = []
            for _ in range(rng.choice([2, 2, 2, 3, 4])):
                mine = [q() for _ in range(rng.randint(3, 7) if duel else rng.randint(1, 4))]
                for o in mine:
                    if rng.random() < 0.06 and sc.has_fn(o["kw"]):
                        o["fault"] = dict(at=rng.choice([1, 2, 3]), exc=rng.choice(sc.CB_EXC))
                case["threads"].append(dict(ops=mine))
            case["sched"] = gen_sched(rng)
            if duel:
                case["sched"]["gap"] = rng.choice([1, 2, 2, 3])
        else:
            outer = []
            for _ in range(rng.randint(2, 5)):
                for _ in range(20):
                    o = q()
                    if sc.has_fn(o["kw"]) or gens[o["id"]][1]["custom"]:
                        break
                    o = None
                if o is None:
                    g = gens["a"][0]
                    for _ in range(40):
                        o = dict(g(), id="a")
                        if sc.has_fn(o["kw"]):
                            break
                inner = [q() for _ in range(rng.choice([1, 1, 2, 3]))]
                if rng.random() < 0.3:
                    inner.append({k: v for k, v in o.items()})
                outer.append(dict(o, nest=dict(frac=sc.frac(rng), asks=inner)))
                if rng.random() < 0.5:
                    outer.append(dict(o))
            case["outer"] = outer
        return case

    def execute(self, case):
        w = World()
        old, sys.stdout = sys.stdout, w.out
        obs, log = [], []
        extra = dict(nested=0)
        for k, op in enumerate(case["ops"]):
            step(w, op, obs, log, "before", k)
        if case.get("threads"):
            hist = [t["ops"] for t in case["threads"]]
            logs, obss = [[] for _ in hist], [[] for _ in hist]

            def body(j):
                def run():
                    for k, op in enumerate(hist[j]):
                        step(w, op, obss[j], logs[j], "t%d" % j, k)
                return run
            s = make_sched(case["sched"], len(hist))
            s.run([body(j) for j in range(len(hist))])
            for o, l in zip(obss, logs):
                obs += o
                log += l
            log.append(["schedule", s.ticks, s.taken])
            w.count("ticks", s.ticks)
            w.count("preemptions", len(s.taken))
            w.count("runs with threads")
            extra.update(taken=s.taken, deadlock=s.deadlock, switches=len(s.taken))
        for k, op in enumerate(case.get("outer", [])):
            if op.get("id") not in w.objs:
                continue
            if not op.get("nest"):
                step(w, op, obs, log, "outer", k)
                continue
            cost = w.measure(op)["cbs"]
            w.count("ops")
            if not cost:
                out = w.perform(op)
            else:
                def hook():
                    extra["nested"] += 1
                    w.count("fault:nested call")
                    for j, q in enumerate(op["nest"]["asks"]):
                        step(w, q, obs, log, "nested%d" % k, j)
                CTL.arm(1 + min(cost - 1, int(op["nest"]["frac"] * cost)), None, hook)
                out = w.perform(op)
                CTL.disarm()
            log.append(["outer", k, op["m"], out])
            obs.append(dict(k="outer.%d" % k, id=op["id"], ask=strip(op), recipe=w.recipe(op["id"]), raw_recipe=w.recipe(op["id"], False), out=out, fired=None))
        if not extra.get("deadlock"):
            for k, op in enumerate(case.get("after", [])):
                step(w, op, obs, log, "after", k)
        sys.stdout = old
        return dict(obs=obs, log=log, stats=w.stats, **extra)

    def judge(self, case, rec, oracle):
        if rec.get("deadlock"):
            return [dict(cls="deadlock", detail="no thread can proceed")]
        return c03.judge_history(rec, oracle, "overlap-changed-answer")

    def nontrivial(self, case, rec):
        return rec.get("switches", 0) >= 3 or rec.get("nested", 0) > 0


CHECK = C05()
