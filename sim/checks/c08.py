"""C08: an interrupted load can simply be repeated."""
import sys
from ..core import Check
from ..world import World, jkey, strip
from ..outcome import short, close
from ..forked import forked
from ..ticks import Budget
from .. import basis as bs
from .. import catalog as cat
from .. import loads
from .. import scene as sc
from . import c09, c10, c11, c13

TOL = {"LifeTable": (1e-4, 1e-6), "SULT": (1e-6, 1e-6), "SelectLife": (1e-6, 1e-6)}


class C08(Check):
    id = "C08"
    quick_runs = 1600
    thorough_runs = 40000
    quick_wall = 200.0
    rule = ("a run configures one object - life table or select table (several consistent loads), standard table, model with survival, interest and reserves, or recursion solver with "
            "facts - cutting short many of its loading calls once or more (exception at a line or bytecode, callback failure, failing verbose write; half of the time a question is "
            "put to the half-loaded object) and issuing the same call again; tables and answers are compared with those of a pristine object on which no call was interrupted; "
            "non-trivial: a fault fired inside a load and 4 answers were compared")
    assumptions = ["the interrupted call is the next one repeated (questions may come between)", "data given to life tables are consistent (inconsistent data have no order-free meaning)",
                   "asynchronous faults are delivered between bytecodes of library frames, not inside numpy/scipy/pandas"]

    def generate(self, rng, tier):
        style = rng.choice(["lt", "lt", "sel", "sel", "model", "model", "rec", "rec"])
        return getattr(self, "gen_" + style)(rng)

    def between(self, rng, ops, ask):
        """Put questions between interrupted attempts and their repetition."""
        out = []
        for op in ops:
            if op["op"] == "point":
                for _ in range(rng.choice([0, 0, 2])):
                    out.append(dict(ask(), id="a"))
                continue
            if op.get("void") and not op.get("fault"):
                continue
            out.append(op)
            if op.get("fault") and rng.random() < 0.4:
                for _ in range(rng.choice([1, 2])):
                    out.append(dict(ask(), id="a", void=True))
        return out

    def gen_lt(self, rng):
        basis = loads.lt_basis(rng)
        verbose = rng.random() < 0.5
        lo, hi = basis["lo"], basis["lo"] + len(basis["q"])
        meta = dict(kind="LifeTable", ages=[lo, lo + 1], top=hi, udd=True, depth=None)
        Q = cat.Q(rng, meta)

        def ask():
            while rng.random() < 0.35:
                a = Q.ask()
                if a["m"] not in cat.JUMPY:
                    return a
            return c09.CHECK.asks(rng, lo, hi, 1)[0]
        ops = [dict(op="new", id="a", kind="LifeTable", kw=dict(udd=rng.random() < 0.5, verbose=verbose)),
               dict(op="do", id="a", m="set_interest", kw=dict(i=rng.choice([0.0, 0.04])))]
        ops += self.between(rng, loads.lt_loads(rng, basis, fault_p=0.6, verbose=verbose), ask)
        ops += [dict(op="ask", id="a", m="[%s]" % c, a=[], kw={}) for c in "lq"]
        return dict(ops=ops + [dict(ask(), id="a") for _ in range(8)])

    def gen_sel(self, rng):
        basis = loads.sel_basis(rng)
        verbose = rng.random() < 0.5
        kw = dict(periods=basis["n"], udd=rng.random() < 0.5, verbose=verbose)
        infer = rng.random() < 0.3
        if infer:
            kw.pop("periods")
        ref = loads.SelRef(basis)
        Q = cat.Q(rng, dict(kind="SelectLife", ages=[ref.lo, ref.lo + 1], top=ref.hi, udd=True, depth=None))

        def ask():
            while rng.random() < 0.35:
                a = Q.ask()
                if a["m"] not in cat.JUMPY:
                    return a
            return c10.CHECK.asks(rng, ref, 1)[0]
        ops = [dict(op="new", id="a", kind="SelectLife", kw=kw), dict(op="do", id="a", m="set_interest", kw=dict(i=basis["i"]))]
        ops += self.between(rng, loads.sel_loads(rng, basis, fault_p=0.6, verbose=verbose, infer=infer), ask)
        ops += [dict(op="ask", id="a", m="[%s]" % c, a=[], kw={}) for c in "lqA"]
        return dict(ops=ops + [dict(ask(), id="a") for _ in range(8)])

    def gen_model(self, rng):
        """Survival functions, interest, reserves and views."""
        new, conf, meta = cat.gen_model(rng, ["Reserves", "Reserves", "MortalityLaws", "SULT", "ConstantForce", "Gompertz", "Uniform", "LifeTable"])
        calls = [("set_interest", cat.gen_interest(rng))] + [c for c in conf if c[0] not in ("set_reserves", "fill_reserves")]
        rng.shuffle(calls)
        if new["kind"] in ("LifeTable",):
            calls.sort(key=lambda c: c[0] == "set_table")
        x, T = meta["ages"][0], rng.choice([2, 3])
        for _ in range(rng.choice([0, 2, 4, 6])):
            r = rng.random()
            if r < 0.25 and new["kind"] in ("Reserves", "MortalityLaws"):
                calls.append(("set_survival", cat.gen_survival(rng)))
            elif r < 0.45:
                calls.append(("set_interest", cat.gen_interest(rng, custom=0.4)))
            elif r < 0.7:
                kw = dict(T=T)
                if rng.random() < 0.5:
                    kw["endowment"] = rng.choice([100, 1000])
                if rng.random() < 0.5:
                    kw["V"] = cat.D({rng.randint(1, T): rng.choice([12.5, 300])})
                calls.append(("set_reserves", kw))
            else:
                c = cat.contract(rng)
                c["$c"].pop("T", None)
                calls.append(("fill_reserves", dict(x=x, contract=c, reserve_benefit=rng.random() < 0.3)))
        ops = [dict(op="new", id="a", **new)]
        if rng.random() < 0.5:
            ops = [dict(ops[0], fault=loads.load_fault(rng, False, sc.has_fn(new["kw"])), void=True)] + ops
        Q = cat.Q(rng, meta)
        ask = lambda: dict(Q.ask(), id="a")
        custom = False
        for m, kw in calls:
            op = dict(op="do", id="a", m=m, kw=kw)
            custom = custom or sc.has_fn(kw)
            if rng.random() < 0.7:
                for _ in range(rng.choice([1, 1, 2])):
                    ops.append(dict(op, fault=loads.load_fault(rng, False, custom if m in ("set_survival", "set_interest", "fill_reserves") else False), void=True))
                    if rng.random() < 0.35:
                        ops.append(dict(ask(), void=True))
            ops.append(op)
            if rng.random() < 0.2:
                ops.append(ask())
        ops.append(dict(op="ask", id="a", m="reserves_frame", a=[], kw={}))
        ops += [ask() for _ in range(6)]
        return dict(ops=ops)

    def gen_rec(self, rng):
        b = bs.gen(rng)
        B = bs.Basis(b)
        verbose = rng.random() < 0.4
        ages = rng.choice([[50], [50, 51], [50, 51, 52]])
        ops = [dict(op="new", id="a", kind="Recursion", kw=dict(depth=1, verbose=verbose)), dict(op="do", id="a", m="set_interest", kw=dict(i=b["i"]))]
        facts = []

        def ask():
            label, kw = rng.choice(facts) if facts and rng.random() < 0.6 else (rng.choice(["p", "q", "E", "A", "a", "IA"]), None)
            kw = kw or c11.gen_kw(rng, label, ages)
            if label == "A" and kw.get("b") == 0 and not kw.get("endowment"):
                kw.pop("b")
            m, kw = c11.ask_of(rng, label, kw)
            return dict(op="ask", id="a", m=m, a=[], kw=kw)

        def put(op):
            if rng.random() < 0.65:
                for _ in range(rng.choice([1, 1, 2])):
                    ops.append(dict(op, fault=loads.load_fault(rng, False), void=True))
                    if rng.random() < 0.4:
                        ops.append(dict(ask(), void=True))
            ops.append(op)
        todo = []
        for _ in range(rng.choice([1, 2])):
            todo += c11.recipe(rng, ages)[0]
        for _ in range(rng.choice([1, 3, 6])):
            label = rng.choice(["p", "q", "e", "E", "A", "a", "IA", "DA"])
            todo.append((label, c11.gen_kw(rng, label, ages)))
        rng.shuffle(todo)
        for label, kw in todo:
            if label == "A" and kw.get("b") == 0 and not kw.get("endowment"):
                continue
            v = bs.fact_value(B, label, kw)
            if v is None:
                continue
            facts.append((label, kw))
            if rng.random() < 0.3:
                put(dict(op="do", id="a", m=c11.SET[label], kw=dict(kw, val=v * 0.9)))
            put(dict(op="do", id="a", m=c11.SET[label], kw=dict(kw, val=v)))
            if rng.random() < 0.15:
                put(dict(op="do", id="a", m=c11.SET[label], kw=dict(kw, val=None)))
            if rng.random() < 0.2:
                put(dict(op="do", id="a", m="set_interest", kw=dict(i=b["i"])))
        return dict(ops=ops + [ask() for _ in range(10)])

    def execute(self, case):
        return run(case["ops"])

    def judge(self, case, rec, oracle):
        skip, fired = set(), 0
        for k, kind, m, got, f in rec["log"]:
            op = case["ops"][k]
            if op.get("void") and (kind == "ask" or got[0] == "raise"):
                skip.add(k)
                fired += bool(f)
        if not fired:
            return []
        ops = [None if k in skip else op for k, op in enumerate(case["ops"])]
        twin = forked(lambda: run(ops, False), 40.0)
        have = {k: (m, got) for k, kind, m, got, f in rec["log"] if k not in skip}
        rel, ab = TOL.get(case["ops"][0].get("kind"), (1e-9, 1e-9))
        out = []
        for k, kind, m, want, f in twin["log"]:
            if f == "gave up" or k not in have:
                continue
            got = have[k][1]
            if got == ["raise", "gave up", []]:
                continue
            rec["stats"]["probe:answers compared"] = rec["stats"].get("probe:answers compared", 0) + 1
            op = case["ops"][k]
            if not close(got, want, rel, ab):
                out.append(dict(cls="repeated-load-differs", detail="op %d: %s%s returned %s; without the interruption it returns %s" % (
                    k, m or op.get("kind"), jkey(op.get("kw")), short(got), short(want))))
        return out

    def nontrivial(self, case, rec):
        return rec["stats"].get("probe:answers compared", 0) >= 4


def run(ops, faults=True):
    w = World()
    old, sys.stdout = sys.stdout, w.out
    log = []
    for k, op in enumerate(ops):
        if op is None or (op["op"] != "new" and "a" not in w.objs):
            continue
        w.count("ops")
        fired = None
        with Budget(c11.STEPS * 20) as left:
            if op.get("fault") and faults:
                out, exc, fired = w.perform_faulted(op, op["fault"])
            else:
                out = w.perform(op)
        if left.over:
            out, fired = ["raise", "gave up", []], "gave up"
        log.append([k, op["op"], op.get("m"), out, fired])
    sys.stdout = old
    return dict(log=log, stats=w.stats)


CHECK = C08()
