"""C03: queries are read-only, repeatable and order-independent."""
import sys
from ..core import Check
from ..world import World, jkey, strip
from ..outcome import close, short
from .. import catalog as cat
from ..ticks import Ticker


class C03(Check):
    id = "C03"
    quick_runs = 1400
    thorough_runs = 30000
    rule = ("a run builds one model (and up to two views on it) and puts a seeded history of 6-22 queries to them; every answer is compared with "
            "the first answer of a pristine twin in its own process; non-trivial: at least 5 queries answered by both and at least one repeat or near-repeat")
    assumptions = ["plots are covered by C17; recursion facts by C11/C12"]

    def generate(self, rng, tier):
        new, conf, meta = cat.gen_model(rng)
        ops = [dict(op="new", id="a", **new)]
        for m, kw in conf:
            ops.append(dict(op="do", id="a", m=m, kw=kw))
        if rng.random() < 0.85 or new["kind"] != "SULT":
            ops.append(dict(op="do", id="a", m="set_interest", kw=cat.gen_interest(rng)))
        gens = [("a", cat.Q(rng, meta).ask)] * 3
        if meta["kind"] not in ("Recursion",) and rng.random() < 0.4:
            for k in range(rng.choice([1, 2])):
                v = cat.gen_view(rng, "a")
                ops.append(dict(op="new", id="v%d" % k, **v))
                gens.append(("v%d" % k, cat.VQ(rng, v["kind"], meta, v["kw"].get("m")).ask))
        per = {i: cat.asks(rng, g, 24) for i, g in gens}
        for _ in range(rng.randint(6, 22)):
            i, _g = rng.choice(gens)
            ops.append(dict(per[i].pop(0), id=i))
        return dict(ops=ops)

    def execute(self, case):
        return run_history(case)

    def judge(self, case, rec, oracle):
        return judge_history(rec, oracle)

    def nontrivial(self, case, rec):
        ms = [jkey(o["ask"]["m"]) for o in rec.get("obs", [])]
        return len([o for o in rec.get("obs", []) if o["out"][0] != "raise"]) >= 5 and len(set(ms)) < len(ms)


def run_history(case):
    """Execute a sequential history; returns observations with the recipe of the pristine twin at that moment."""
    w = World()
    w.out.keep = False
    old, sys.stdout = sys.stdout, w.out
    obs, log = [], []
    for k, op in enumerate(case["ops"]):
        if op["op"] == "note":
            continue
        if op["op"] != "new" and op.get("id") not in w.objs:
            continue
        if op["op"] == "new" and any(isinstance(v, dict) and "$obj" in v and v["$obj"] not in w.objs for v in op.get("kw", {}).values()):
            continue
        w.count("ops")
        fault = op.get("fault")
        exc, fired = None, None
        if fault:
            out, exc, fired = w.perform_faulted(op, fault)
        else:
            out = w.perform(op)
        log.append([k, op["op"], op.get("m"), out, fired])
        if op["op"] == "ask":
            o = dict(k=k, id=op["id"], ask=strip(op), recipe=w.recipe(op["id"]), raw_recipe=w.recipe(op["id"], False), out=out, fired=fired)
            obs.append(o)
        else:
            if out[0] != "raise":
                w.accepted(op)
            else:
                w.count("probe:rejected or failed reconfiguration")
    sys.stdout = old
    return dict(obs=obs, log=log, stats=w.stats)


def judge_history(rec, oracle, cls="answer-differs-from-pristine-twin", rel=1e-9, ab=1e-9, skip_fired=True):
    out = []
    for o in rec["obs"]:
        if skip_fired and o["fired"]:
            continue
        exp = oracle.expect(o["recipe"], o["ask"])
        if exp[0] == "build-raise":
            continue
        if not close(o["out"], exp, rel, ab) and o.get("raw_recipe", o["recipe"]) != o["recipe"]:
            exp = oracle.expect(o["raw_recipe"], o["ask"])           # same rate stated in another form: roundings may differ
        if not close(o["out"], exp, rel, ab):
            out.append(dict(cls=cls, detail="op %s: %s.%s%s returned %s; a pristine twin returns %s" % (
                o["k"], o["id"], o["ask"]["m"], jkey(o["ask"].get("kw", {})), short(o["out"]), short(exp))))
    return out


CHECK = C03()
