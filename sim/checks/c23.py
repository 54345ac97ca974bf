"""C23: every call finishes in bounded work, and use does not make later work longer."""
import sys
from ..core import Check
from ..world import World, jkey, strip
from ..fns import CTL
from ..forked import forked
from ..ticks import Ticker
from .. import catalog as cat
from .. import scene as sc

DEAR = 300_000
BOUND = 12_000_000                                       # lines of library code in one call


class C23(Check):
    id = "C23"
    quick_runs = 700
    thorough_runs = 20000
    rule = ("a run configures one model and up to two views, then lives through 6-20 rounds of the same questions, refused changes, repeated loads and changes, and calls cut short by failing "
            "functions, streams and asynchronous exceptions; the executed lines of library code of every question and load of the first and last rounds are counted and compared with those of "
            "the same call made first on a pristine twin; non-trivial: at least three questions answered by both and six rounds")
    assumptions = ["work is counted in executed lines of library code (work inside numpy, scipy and pandas is not counted)",
                   "a worn model may take a quarter more lines, and 60, than the pristine twin, but not one more every round; a call may take 12 million lines"]
    shrink_fields = ("round",)

    def generate(self, rng, tier):
        conf, gens = [], {}
        sc.scene(rng, "a", views=0.3, ops=conf, gens=gens)
        ids = sorted(gens)
        rnd = []
        for _ in range(rng.randint(3, 6)):
            i = rng.choice(ids)
            g, meta = gens[i]
            q = dict(cat.asks(rng, g, 1)[0], id=i)
            rnd.append(q)
            if rng.random() < 0.35:
                rnd.append(dict(q, void=True, fault=sc.gen_fault(rng, q, meta, meta["custom"])))
        setup = [k for k, op in enumerate(conf) if op["op"] == "do"]
        r = rng.random()
        if r < 0.5 and setup:                            # the same assumptions and loads again
            at = rng.randint(0, len(rnd))
            again = [dict(conf[k], again=True) for k in setup]
            if rng.random() < 0.3:
                last = dict(again[-1], void=True, fault=sc.async_fault(rng))
                again.insert(len(again) - 1, last)
            rnd[at:at] = again
        if rng.random() < 0.4:
            rnd.insert(rng.randint(0, len(rnd)), dict(op="do", id="a", m="set_interest", kw=cat.bad_interest(rng), void=True))
        return dict(conf=conf, round=rnd, rounds=rng.choice([6, 10, 10, 20]), then=rng.choice([1, 2]))

    def execute(self, case):
        w = World()
        sys.stdout, old = w.out, sys.stdout
        log, lost = [], False
        for op in case["conf"]:
            o = w.perform(op)
            w.count("ops")
            lost = lost or o[0] == "raise" and op["op"] == "new" and op["id"] == "a"
        twins = {}
        asks = {k: op for k, op in enumerate(case["round"]) if not op.get("void") and op["id"] in w.objs}

        def count(op):
            CTL.arm(0)
            t = Ticker(BOUND, "SimAbort")
            with t:
                out = w.perform(op)
            CTL.disarm()
            return t.n, bool(t.fired), out[0] == "raise"
        if not lost:
            for k, op in asks.items():
                twins[k] = forked(lambda op=op: count(op))
            # questions that take long are put to the pristine twin only
            dear = {jkey(strip(op)) for k, op in asks.items() if twins[k][0] > DEAR}
            measured = {0, case["then"], case["rounds"] - 1}
            for n in range(case["rounds"]):
                for k, op in enumerate(case["round"]):
                    if op.get("id") not in w.objs or jkey(strip(op)) in dear:
                        continue
                    w.count("ops")
                    if k in asks and n in measured:
                        t = count(op)
                        w.count("ticks", t[0])
                        log.append([n, k, t])
                    elif "fault" in op:
                        if n % 3 == 0:                   # measuring the place of a fault costs a fork
                            w.perform_faulted(op, op["fault"])
                    else:
                        w.perform(op)
        sys.stdout = old
        return dict(log=log, twins=twins, stats=w.stats)

    def judge(self, case, rec, oracle):
        over = [k for k, t in rec["twins"].items() if t[1]]
        if over:
            op = case["round"][over[0]]
            return [dict(cls="no-progress", detail="%s.%s%s had not finished after %d lines of library code" % (op["id"], op["m"], jkey(op.get("kw", {})), BOUND))]
        out, early = [], {k: t[0] for n, k, t in rec["log"] if n == case["then"]}
        for n, k, (ticks, over, raised) in rec["log"]:
            op = case["round"][k]
            name = "%s.%s%s" % (op["id"], op["m"], jkey(op.get("kw", {})))
            base, _, traised = rec["twins"][k]
            if over:
                out.append(dict(cls="no-progress", detail="round %d: %s had not finished after %d lines of library code" % (n, name, BOUND)))
            elif raised != traised:
                continue
            elif n > case["then"] and ticks >= max(base, early.get(k, ticks)) + n - case["then"]:
                out.append(dict(cls="work-grows", detail="round %d: %s took %d lines of library code; in round %d, %d, and made first on a pristine twin, %d" % (
                    n, name, ticks, case["then"], early[k], base)))
            elif ticks > 1.25 * base + 60:
                out.append(dict(cls="work-grows", detail="round %d: %s took %d lines of library code; made first on a pristine twin, %d" % (n, name, ticks, base)))
        return out

    def nontrivial(self, case, rec):
        return len([1 for n, k, t in rec["log"] if n == case["rounds"] - 1 and not t[2]]) >= 3


CHECK = C23()
