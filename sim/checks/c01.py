"""C01: the latest accepted assumptions govern every answer."""
import math
from ..core import Check
from ..world import jkey, effective_i
from ..outcome import close, short
from .. import catalog as cat
from . import c03

SURV_KINDS = ("Reserves", "PolicyValues", "MortalityLaws")


def interest_reference(ask, i):
    """What interest queries must answer for effective rate i (independent reference)."""
    m, a, kw = ask["m"], ask.get("a", []), ask.get("kw", {})
    v = 1 / (1 + i)
    if m == "interest.i":
        return i
    if m == "interest.d":
        return i / (1 + i)
    if m == "interest.v":
        return v
    if m == "interest.delta":
        return math.log1p(i)
    if m == "interest.v_t":
        return math.exp(-a[0] * math.log1p(i))
    if m == "annuity_twin" and i > 0 and ask.get("view") is None:
        d = i / (1 + i) if kw.get("discrete", True) else math.log1p(i)
        return (1 - kw["A"]) / d
    if m == "insurance_twin" and ask.get("view") is None:
        d = i / (1 + i) if kw.get("discrete", True) else math.log1p(i)
        return 1 - d * kw["a"]
    return None


class C01(Check):
    id = "C01"
    quick_runs = 1400
    thorough_runs = 30000
    rule = ("a run builds a model and up to three views (before or after changes) and interleaves 2-6 accepted, rejected or interrupted changes of interest "
            "(all forms) and survival with repeated and neighbouring queries; answers are compared with a pristine twin given the last accepted assumptions in "
            "canonical form, interest attributes also with closed formulas; non-trivial: at least two accepted changes and one query asked both before and after one")
    assumptions = ["select-table A/a columns and filled reserves are data derived at load time and are re-derived only by loading again",
                   "rates stated in different forms agree to 1e-7 relative"]

    def generate(self, rng, tier):
        kinds = None if rng.random() < 0.75 else list(SURV_KINDS)
        new, conf, meta = cat.gen_model(rng, kinds)
        ops = [dict(op="new", id="a", **new)]
        for m, kw in conf:
            ops.append(dict(op="do", id="a", m=m, kw=kw))
        if rng.random() < 0.8:
            ops.append(dict(op="do", id="a", m="set_interest", kw=cat.gen_interest(rng)))
        gens, views = {"a": cat.Q(rng, meta).ask}, 0
        pools = {"a": cat.asks(rng, gens["a"], rng.randint(2, 5))}
        pools["a"].append(dict(op="ask", m="interest." + rng.choice(["i", "d", "v", "delta"]), a=[], kw={}))

        def view():
            nonlocal views
            v = cat.gen_view(rng, "a")
            i = "v%d" % views
            views += 1
            ops.append(dict(op="new", id=i, **v))
            gens[i] = cat.VQ(rng, v["kind"], meta, v["kw"].get("m")).ask
            pools[i] = cat.asks(rng, gens[i], rng.randint(2, 4))
        wants_view = meta["kind"] != "Recursion"
        if wants_view and rng.random() < 0.6:
            view()
        if wants_view and rng.random() < 0.2:
            view()

        def ask_some(n):
            for _ in range(n):
                i = rng.choice(sorted(pools))
                q = rng.choice(pools[i]) if rng.random() < 0.8 else cat.mutate(rng, rng.choice(pools[i]), gens[i])
                ops.append(dict(q, id=i))
        ask_some(rng.randint(2, 5))
        for _ in range(rng.randint(2, 5)):
            r = rng.random()
            if r < 0.2:
                ops.append(dict(op="do", id="a", m="set_interest", kw=cat.bad_interest(rng)))
            elif meta["kind"] in SURV_KINDS and r < 0.6:
                if rng.random() < 0.2:
                    ops.append(dict(op="do", id="a", m="set_survival", kw=cat.bad_survival(rng)))
                else:
                    ops.append(dict(op="do", id="a", m="set_survival", kw=cat.gen_survival(rng)))
            else:
                kw = cat.gen_interest(rng)
                if rng.random() < 0.12:      # interrupted change, then issued again
                    ops.append(dict(op="do", id="a", m="set_interest", kw=kw, void=True,
                                    fault=dict(kind="async", exc=rng.choice(["KeyboardInterrupt", "MemoryError"]), frac=rng.random(),
                                               grain=rng.choice(["line", "opcode"]))))
                ops.append(dict(op="do", id="a", m="set_interest", kw=kw))
            if wants_view and views < 3 and rng.random() < 0.15:
                view()
            ask_some(rng.randint(2, 5))
        return dict(ops=ops)

    def execute(self, case):
        # an interrupted change leaves the old or the new assumption; it is always followed by a repeat
        ops, out = case["ops"], []
        for k, op in enumerate(ops):
            if op.get("void") and not (k + 1 < len(ops) and ops[k + 1].get("m") == op["m"] and ops[k + 1]["kw"] == op["kw"]):
                continue
            out.append(op)
        return c03.run_history(dict(ops=out))

    def judge(self, case, rec, oracle):
        out = []
        kinds = {op["id"]: op["kind"] for op in case["ops"] if op["op"] == "new"}
        for o in rec["obs"]:
            recipe = o["recipe"]
            if o["ask"]["m"] in cat.JUMPY:       # compare with the same stated form: a rounding error may flip a floor
                recipe = o["raw_recipe"]
            exp = oracle.expect(recipe, o["ask"])
            if exp[0] == "build-raise":          # a view that cannot be built on the current assumptions: no twin to ask
                continue
            if not close(o["out"], exp, 1e-7, 1e-9):
                out.append(dict(cls="stale-answer", detail="op %d: %s.%s%s returned %s; a fresh model with the latest accepted assumptions returns %s" % (
                    o["k"], o["id"], o["ask"]["m"], jkey(o["ask"].get("kw", {})), short(o["out"]), short(exp))))
            if kinds.get(o["id"]) in ("Mthly", "UDD", "Woolhouse", "ExtraRisk"):
                continue
            last = [op for op in o["recipe"] if op.get("m") == "set_interest" and op["id"] == o["id"]]
            if last:
                i = effective_i(last[-1]["kw"])
                if i is not None:
                    ref = interest_reference(o["ask"], i)
                    if ref is not None and not close(o["out"], ["n", ref], 1e-7, 1e-9):
                        out.append(dict(cls="interest-inconsistent", detail="op %d: %s.%s%s returned %s; effective rate %r means %r" % (
                            o["k"], o["id"], o["ask"]["m"], jkey([o["ask"].get("a"), o["ask"].get("kw")]), short(o["out"]), i, ref)))
        return out

    def nontrivial(self, case, rec):
        ok = [l for l in rec["log"] if l[1] == "do" and l[2] in ("set_interest", "set_survival") and l[3][0] != "raise"]
        seen = [jkey(o["ask"]) for o in rec.get("obs", [])]
        return len(ok) >= 2 and len(set(seen)) < len(seen)


CHECK = C01()
