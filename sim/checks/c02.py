"""C02: a rejected change of assumptions changes nothing."""
from ..core import Check
from ..world import jkey
from .. import catalog as cat
from .. import scene as sc
from . import c03


def bad_fact(rng):
    x = rng.choice([50, 51, 52, 53])
    return rng.choice([
        ("set_A", dict(val=0.9, x=x, b=0)), ("set_A", dict(val="0.4", x=x, b=1000)), ("set_A", dict(val=0.9, x=x, t=2, b=0, endowment=0)),
        ("set_a", dict(val=9.0, x=x, b=0)), ("set_a", dict(val="9", x=x)), ("set_a", dict(val=9.0, x="y")),
        ("set_E", dict(val=0.9, x=x, t=2, endowment=0)), ("set_E", dict(val=[0.9], x=x, t=1)),
        ("set_IA", dict(val=9.0, x=x, t=2, b=0)), ("set_DA", dict(val=9.0, x=x, t=2, b=0)), ("set_IA", dict(val={}, x=x)),
        ("set_q", dict(val=0.5, x=None)), ("set_p", dict(val=0.5, x=x, s="1")), ("set_e", dict(val=5.0, x=x, n=3)), ("set_q", dict(x=x)),
        ("set_p", dict(val=0.5, x=x, t=[1])), ("set_q", dict(val=0.5, x=x, t={})), ("set_A", dict(val=0.9, x=x, t=[2])), ("set_a", dict(val=9.0, x=x, t={}))])


class C02(Check):
    id = "C02"
    quick_runs = 1400
    thorough_runs = 30000
    rule = ("a run builds a model (and views) and puts 1-4 unacceptable set_interest, set_survival or recursion-fact calls (every invalid form known, and functions that "
            "fail or are interrupted while being validated) at random places among accepted changes and questions; answers are compared with a pristine twin that was "
            "never offered the rejected calls; non-trivial: a call was rejected and at least two questions were answered after it")
    assumptions = ["a call counts as rejected when it raises; rejected table loads are C08-C10"]

    def generate(self, rng, tier):
        ops, gens = [], {}
        kinds = rng.choice([None, None, ["Reserves", "PolicyValues", "MortalityLaws"], ["Recursion"]])
        meta = sc.scene(rng, "a", kinds=kinds, ops=ops, gens=gens)
        ids = sorted(gens)
        pools = {i: cat.asks(rng, gens[i][0], 6) for i in ids}
        pools["a"] += [dict(op="ask", m="interest." + m, a=[], kw={}) for m in rng.sample(["i", "d", "v", "delta"], 2)]
        if meta["kind"] in ("Reserves", "PolicyValues", "MortalityLaws") and rng.random() < 0.6:
            pools["a"] += [dict(op="ask", m="l_x", a=[], kw=dict(x=meta["ages"][0])), dict(op="ask", m="max_term", a=[], kw=dict(x=meta["ages"][0], t=-999))]
        if meta["kind"] in ("Reserves", "PolicyValues", "MortalityLaws") and rng.random() < 0.4:
            x = meta["ages"][0]
            pools["a"] += [dict(op="ask", m=m, a=[x, 0] + ([5] if m != "l" else []), kw={}) for m in rng.sample(["S", "f", "l"], 2)]
            pools["a"].append(dict(op="ask", m="mu", a=[x, 5], kw={}))

        def some(n):
            for _ in range(n):
                i = rng.choice(ids)
                ops.append(dict(rng.choice(pools[i]) if rng.random() < 0.8 else cat.mutate(rng, rng.choice(pools[i]), gens[i][0]), id=i))
        some(rng.randint(0, 3))
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if meta["kind"] == "Recursion" and r < 0.6:
                m, kw = bad_fact(rng)
                ops.append(dict(op="do", id="a", m=m, kw=kw))
                if rng.random() < 0.3:
                    ops.append(dict(op="ask", id="a", m=dict(set_A="whole_life_insurance", set_a="whole_life_annuity").get(m, "p_x"), a=[], kw=dict(x=kw["x"])))
            elif r < 0.5:
                ops.append(dict(op="do", id="a", m="set_interest", kw=cat.bad_interest(rng)))
            elif r < 0.8 or meta["kind"] not in ("Reserves", "PolicyValues", "MortalityLaws"):
                bad = cat.bad_survival(rng)
                if rng.random() < 0.3:
                    bad = dict(bad, **{k: v for k, v in cat.gen_survival(rng).items() if k not in bad})
                ops.append(dict(op="do", id="a", m="set_survival", kw=bad) if meta["kind"] in ("Reserves", "PolicyValues", "MortalityLaws") or rng.random() < 0.5
                           else dict(op="do", id="a", m="set_interest", kw=cat.bad_interest(rng)))
            else:
                ops.append(dict(op="do", id="a", m="set_survival", kw=cat.gen_survival(rng)))
            if rng.random() < 0.2:
                ops.append(dict(op="do", id="a", m="set_interest", kw=cat.gen_interest(rng)))
            some(rng.randint(1, 4))
        return dict(ops=ops)

    def execute(self, case):
        return c03.run_history(case)

    def judge(self, case, rec, oracle):
        return c03.judge_history(rec, oracle, "rejected-call-had-effect", 1e-7)

    def nontrivial(self, case, rec):
        rej = [l[0] for l in rec.get("log", []) if l[1] == "do" and l[3][0] == "raise"]
        return bool(rej) and len([o for o in rec["obs"] if o["k"] > rej[0] and o["out"][0] != "raise"]) >= 2


CHECK = C02()
