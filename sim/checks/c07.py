"""C07: failures surface; interrupts keep their type."""
import sys
from ..core import Check
from ..world import World, jkey
from ..forked import forked
from ..fns import INTERRUPTS
from ..outcome import short
from .. import catalog as cat
from .. import scene as sc
from . import c03


class C07(Check):
    id = "C07"
    quick_runs = 700
    thorough_runs = 24000
    rule = ("a run builds a model (and views), then issues 5-10 queries, solves and configuration calls, each with one fault placed by a dry run in a fork: a caller-"
            "supplied function failing at its k-th evaluation with one of 21 exception types, or an interrupt/out-of-memory exception at a library line or bytecode; "
            "a call in which the fault fired must raise, interrupt types unchanged; non-trivial: at least two faults fired")
    assumptions = ["an ordinary exception may be wrapped in another; only interrupt-style types must be preserved"]

    def generate(self, rng, tier):
        ops, gens = [], {}
        meta = sc.scene(rng, "a", ops=ops, gens=gens)
        ids = sorted(gens)
        for _ in range(rng.randint(5, 10)):
            i = rng.choice(ids)
            custom = gens[i][1]["custom"]
            r = rng.random()
            if r < 0.1 and meta["kind"] in ("Reserves", "PolicyValues", "MortalityLaws"):
                q = dict(op="do", id="a", m="set_survival", kw=cat.gen_survival(rng))
            elif r < 0.2:
                q = dict(op="do", id="a", m="set_interest", kw=cat.gen_interest(rng, custom=0.8))
            elif r < 0.3:
                q = dict(op="ask", id="a", m="solve", a=[], kw=dict(fun={"$fn": rng.choice([["b1_lin", 1, 0.5], ["b1_lin", -2, 3.0]])}, target=0.5,
                         grid=rng.choice([1.0, [0, 10], {"$t": [0, 4]}])))
                if rng.random() < 0.4:
                    q["kw"].update(mad=True, grid={"$t": [0, 4]})
            else:
                q = gens[i][0]()
                for _ in range(6):               # prefer questions that evaluate the caller's functions
                    if sc.has_fn(q["kw"]) or custom or rng.random() < 0.4:
                        break
                    q = gens[i][0]()
                q = dict(q, id=i)
            f = sc.gen_fault(rng, q, dict(gens[i][1], verbose=False), custom)
            if f["kind"] == "cb":                    # the same failing evaluation with several exception types
                ops.append(dict(q, fault=f, more=[rng.choice(["ZeroDivisionError", "OverflowError", "FloatingPointError"]),
                           rng.choice(["ValueError", "TypeError", "KeyError", "AttributeError", "RuntimeError", "AssertionError"]), rng.choice(sc.CB_EXC)]))
            else:
                ops.append(dict(q, fault=f))
        return dict(ops=ops)

    def execute(self, case):
        """Every faulted call is made in a fork of the configured state, so that calls do not affect one another."""
        w = World()
        old, sys.stdout = sys.stdout, w.out
        log, obs = [], []
        for k, op in enumerate(case["ops"]):
            if op["op"] != "new" and op.get("id") not in w.objs:
                continue
            w.count("ops")
            if not op.get("fault"):
                if op["op"] != "ask":
                    out = w.perform(op)
                    log.append([k, op["op"], op.get("m"), out, None])
                continue

            cost = w.measure(op, op["fault"].get("grain", "line"), places="pick" in op["fault"])
            for e in [op["fault"]["exc"]] + op.get("more", []):
                def one():
                    w.stats = {}
                    out, exc, fired = w.perform_faulted(op, dict(op["fault"], exc=e), cost)
                    return out, fired, w.stats
                out, fired, st = forked(one)
                for n, v in st.items():
                    w.count(n, v)
                log.append([k, op["op"], op.get("m"), e, out, fired])
                obs.append(dict(k=k, op=op, exc=e, out=out, fired=fired))
        sys.stdout = old
        return dict(obs=obs, log=log, stats=w.stats)

    def judge(self, case, rec, oracle):
        vs = []
        for o in rec["obs"]:
            if not o["fired"]:
                continue
            op, exc = o["op"], o["exc"]
            what = "op %d: %s.%s%s with %s at %s" % (o["k"], op["id"], op["m"], jkey(op.get("kw", {})), exc, o["fired"])
            if o["out"][0] != "raise":
                vs.append(dict(cls="failure-swallowed", detail=what + " returned " + short(o["out"])))
            elif exc in INTERRUPTS and o["out"][1] != exc:
                vs.append(dict(cls="interrupt-converted", detail=what + " raised " + o["out"][1]))
        return vs

    def nontrivial(self, case, rec):
        return len([o for o in rec.get("obs", []) if o["fired"]]) >= 2


CHECK = C07()
