"""C14: after solving, the model is left at the solution."""
import sys
from ..core import Check
from ..world import World, jkey, strip
from ..outcome import canon, raised, short, close
from ..forked import forked
from ..fns import CTL, INTERRUPTS
from .. import catalog as cat
from .. import scene as sc
from .. import loads
from . import c11


def put(o, z):
    """o with every "$z" replaced by z."""
    if isinstance(o, str) and o == "$z":
        return z
    if isinstance(o, dict):
        return {k: put(v, z) for k, v in o.items()}
    if isinstance(o, list):
        return [put(v, z) for v in o]
    return o


class SolveWorld(World):
    """Adds the operation "solve": an unknown sought by a function that configures models and evaluates one."""
    def raw(self, op):
        if op["op"] != "solve":
            return super().raw(op)
        self.trace, self.state = [], None
        z = self.seek(op, self.target(op, op), self.trace)
        return z

    def target(self, op, spec):
        if "target" in spec:
            return spec["target"]
        if "goal" not in op:                           # the value at the chosen root, found out of sight
            op["goal"] = forked(lambda: float(self.evaluate(spec, spec["root"], [])))
        return op["goal"]

    def seek(self, spec, target, trace):
        grid = spec["grid"]
        if isinstance(grid, dict):
            grid = tuple(grid["$t"])
        via = self.objs[spec["via"]] if spec.get("via") else self.am.Actuarial
        kw = dict(mad=True) if spec.get("mad") else {}

        def fun(z):
            return self.evaluate(spec, float(z) if spec.get("cast") or trace is not self.trace else z, trace)
        return via.solve(fun, target=target, grid=grid, **kw)

    def evaluate(self, spec, z, trace):
        CTL.tick()
        done = []
        trace.append([float(z), done])
        for c in spec["conf"]:
            if c["op"] == "solve":
                inner = put_q(put(c, float(z)))
                sub = []
                r = self.seek(inner, inner["target"], sub)
                done += sub[-1][1]
            else:
                op = put(c, z)
                super().raw(op)
                done.append(put(c, float(z)))
        CTL.tick()
        return super().raw(put(spec["ask"], z))


def problem(rng, kind, ids):
    """A function (what it configures, what it asks) and a root."""
    x = 40
    do = lambda id, m, /, **kw: dict(op="do", id=id, m=m, kw=kw)
    ask = lambda id, m, /, **kw: dict(op="ask", id=id, m=m, a=[], kw=kw)
    valued = lambda id: rng.choice([
        ask(id, "whole_life_annuity", x=x), ask(id, "whole_life_insurance", x=x), ask(id, "temporary_annuity", x=x, t=5), ask(id, "E_x", x=x, t=3),
        ask(id, "term_insurance", x=x, t=4), ask(id, "endowment_insurance", x=x, t=4), ask(id, "net_premium", x=x, t=3, endowment=1),
        ask(id, "deferred_annuity", x=x, u=2, t=5), dict(op="ask", id=id, m="interest.annuity", a=[], kw=dict(t=6, m=1))])
    r = rng.choice([0.02, 0.035, 0.05, 0.08])
    if kind == "interest":
        form = rng.choice(["i", "i", "d", "delta", "v", "i_m"])
        kw = {form: "$z"}
        if form == "i_m":
            kw["m"] = rng.choice([2, 12])
        if form == "v":
            r = 1 / (1 + r)
        conf = [do("a", "set_interest", **kw)]
        if "b" in ids and rng.random() < 0.7:
            conf.append(do("b", "set_interest", **kw))
        a = valued("a")
        if "av" in ids and rng.random() < 0.6:
            a = rng.choice([ask("av", "whole_life_annuity", x=x), ask("av", "temporary_annuity", x=x, t=5)])
        return dict(conf=conf, ask=a, root=r)
    if kind == "survival":
        a = rng.choice([ask("a", "p_x", x=x, t=5), ask("a", "temporary_annuity", x=x, t=5), ask("a", "E_x", x=x, t=4), ask("a", "term_insurance", x=x, t=3)])
        return dict(conf=[do("a", "set_survival", S={"$fn": ["S_exp", "$z"]}, maxage=100)], ask=a, root=r, cast=True)
    if kind == "contract":
        r = rng.choice([0.02, 15.0, 400.0])
        return dict(conf=[do("c", "set_contract", premium="$z")], root=r,
                    ask=ask("a", "gross_policy_value", x=x, t=rng.choice([0, 2]), n=rng.choice([6, 10]), contract={"$obj": "c"}))
    if kind == "reserves":
        r = rng.choice([12.5, 300.0])
        k = rng.choice([1, 2])
        return dict(conf=[do("a", "set_reserves", T=4, V={"$d": [[k, "$z"]]})], root=r, cast=True,
                    ask=ask("a", "t_V", x=x, t=k + 1, premium=rng.choice([0, 12.0]), benefit={"$fn": ["b1_const", 100]}))
    if kind == "nested":
        if rng.random() < 0.8:
            r = 0.05
        inner = dict(op="solve", conf=[do("c", "set_contract", premium="$q")], target=0.0, grid=rng.choice([[10.0, 40.0], 20.0, 20.0]),
                     ask=ask("a", "gross_policy_value", x=x, t=0, n=6, contract={"$obj": "c"}))
        return dict(conf=[do("a", "set_interest", i="$z"), inner], ask=ask("c", "premium"), root=r)
    if kind == "fact":
        return rng.choice([
            lambda: dict(conf=[do("a", "set_A", val="$z", x=x + 1)], ask=ask("a", "whole_life_insurance", x=x), root=0.45, cast=True),
            lambda: dict(conf=[do("a", "set_a", val="$z", x=x + 1)], ask=ask("a", "whole_life_annuity", x=x), root=9.0, cast=True),
            lambda: dict(conf=[do("a", "set_interest", i="$z")], ask=ask("a", "temporary_annuity", x=x, t=2), root=r),
            lambda: dict(conf=[do("a", "set_q", val="$z", x=x), do("a", "set_interest", i=0.05)], ask=ask("a", "E_x", x=x, t=2), root=0.05, cast=True)])()
    if kind == "select":
        tab = {"$d": [[x, ["$z", 0.03]], [x + 1, [0.02, 0.04]], [x + 2, [0.025, 0.05]]]}
        return dict(conf=[do("a", "set_table", q=tab)], ask=ask("a", "p_x", x=x, t=rng.choice([1, 2, 3])), root=0.02, cast=True)
    raise ValueError(kind)


def put_q(o):
    """Inner unknowns are spelt "$q" until the outer one is put in."""
    if isinstance(o, str) and o == "$q":
        return "$z"
    if isinstance(o, dict):
        return {k: put_q(v) for k, v in o.items()}
    if isinstance(o, list):
        return [put_q(v) for v in o]
    return o


class C14(Check):
    id = "C14"
    quick_runs = 900
    thorough_runs = 40000
    shrink_fields = ("ops",)
    rule = ("a run builds a model (law, survival function, life or select table, recursion solver; sometimes with a view, second model or contract) and solves for unknowns - interest in "
            "any form, mortality, premium, a reserve, a recursion fact, a select rate, nested - by functions that configure the objects and evaluate one, from point, range or list "
            "guesses, as root or least absolute difference, some cut short at a chosen evaluation, line, bytecode or verbose write and then repeated; the sequence of evaluations, the "
            "root, the target and later answers are compared with those of an undisturbed twin configured at the root; non-trivial: a solve returned and 3 answers were compared")
    assumptions = ["functions are monotone with a root near the guess (a solver that does not converge promises nothing)",
                   "an aborted solve is followed by the same solve"]

    def generate(self, rng, tier):
        ops, conf = [], []
        kind = rng.choice(["law", "law", "survival", "table", "SULT", "fact", "select"])
        new = lambda id, k, /, **kw: ops.append(dict(op="new", id=id, kind=k, kw=kw))
        do = lambda m, id="a", /, **kw: ops.append(dict(op="do", id=id, m=m, kw=kw))
        x, verbose = 40, False
        meta = dict(ages=[40, 41, 45], top=100, udd=True, depth=1)
        if kind == "law":
            if rng.random() < 0.5:
                new("a", "Gompertz", B=3e-4, c=1.07)
                meta["kind"] = "MortalityLaws"
            else:
                new("a", "ConstantForce", mu=rng.choice([0.02, 0.05]))
                meta["kind"] = "ConstantForce"
        elif kind == "survival":
            new("a", "Reserves")
            do("set_survival", S={"$fn": rng.choice([["S_exp", 0.03], ["S_mk", 0.001, 0.00003, 1.1]])}, maxage=100)
            meta["kind"] = "Reserves"
        elif kind == "table":
            q = cat.table_q(rng, 40, 30)
            new("a", "LifeTable", udd=True)
            do("set_table", q=cat.D(q))
            meta.update(kind="LifeTable", top=70)
        elif kind == "SULT":
            new("a", "SULT")
            meta["kind"] = "SULT"
        elif kind == "fact":
            verbose = rng.random() < 0.5
            new("a", "Recursion", depth=1, verbose=verbose)
            meta["kind"] = "Recursion"
            meta["ages"] = [40, 41]
            do("set_q", val=0.04, x=40)
            do("set_q", val=0.05, x=41)
        else:
            new("a", "SelectLife", periods=1)
            meta.update(kind="SelectLife", ages=[40, 41], top=44)
            do("set_table", q={"$d": [[40, [0.02, 0.03]], [41, [0.02, 0.04]], [42, [0.025, 0.05]]]})
        do("set_interest", i=rng.choice([0.03, 0.06]))
        ids = ["a"]
        if kind in ("law", "survival", "table", "SULT"):
            if rng.random() < 0.4:
                ops.append(dict(op="new", id="av", kind=rng.choice(["UDD", "Woolhouse"]), kw=dict(life={"$obj": "a"}, m=rng.choice([2, 4, 12]))))
                ids.append("av")
            if rng.random() < 0.3:
                new("b", "ConstantForce", mu=0.04)
                do("set_interest", "b", i=0.04)
                ids.append("b")
            new("c", "Contract", premium=1, benefit=rng.choice([100, 1000]), initial_policy=rng.choice([0, 5]), renewal_policy=rng.choice([0, 2]),
                initial_premium=rng.choice([0, 0.2]), renewal_premium=rng.choice([0, 0.05]))
            kinds = ["interest"] * 5 + ["contract"] * 4 + ["reserves"] * 3 + ["nested"] * (2 if kind == "table" else 0)
            if kind == "survival":
                kinds += ["survival"] * 3
        else:
            kinds = [kind]
        Q = cat.Q(rng, meta)

        def ask():
            r = rng.random()
            if "av" in ids and r < 0.3:
                v = [o for o in ops if o.get("id") == "av"][0]
                return dict(cat.VQ(rng, v["kind"], meta, v["kw"]["m"]).ask(), id="av")
            for _ in range(30):
                a = Q.ask()
                if a["m"] not in cat.JUMPY and a["m"] != "solve":
                    break
            return dict(a, id="a")
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(kinds)
            p = problem(rng, k, ids)
            root = p["root"]
            lo, hi = root * rng.choice([0.7, 0.85, 0.97]), root * rng.choice([1.03, 1.2, 1.35])
            if "v" in p["conf"][0].get("kw", {}):
                lo, hi = root - 0.02, min(root + 0.015, 0.999)
            mad = k in ("contract", "reserves") and rng.random() < 0.4
            g = rng.choice(["point", "list", "tuple", "many"])
            grid = dict(point=rng.choice([lo, hi]), list=[lo, hi], tuple={"$t": [hi, lo]}, many=[lo, hi, (lo + hi) / 2, lo])[g]
            if mad:
                grid = [lo, hi]
            if k == "nested":
                grid = lo
            op = dict(p, op="solve", grid=grid, via=rng.choice([None, "a"]))
            if mad:
                op["mad"] = True
            if rng.random() < 0.5:
                for _ in range(rng.choice([1, 1, 2])):
                    f = rng.choice(["cb", "cb"] + (["async"] if k != "nested" else []) + (["stream"] if verbose else []))
                    fault = dict(kind=f, exc=rng.choice(dict(cb=sc.CB_EXC, stream=sc.STREAM)[f] if f != "async" else sc.ASYNC_EXC), frac=sc.frac(rng))
                    if f == "async" and rng.random() < 0.2:
                        fault["grain"] = "opcode"
                    ops.append(dict(op, fault=fault))
                    if rng.random() < 0.3:
                        ops.append(dict(ask(), void=True))
            ops.append(op)
            ops += [ask() for _ in range(rng.choice([2, 4]))]
            if rng.random() < 0.3:
                ops.append(dict(op))                   # solved again from where it was left
                ops.append(ask())
            if rng.random() < 0.2:
                do("set_interest", i=rng.choice([0.03, 0.06]))
                ops.append(ask())
        return dict(ops=ops)

    def execute(self, case):
        w = SolveWorld()
        old, sys.stdout = sys.stdout, w.out
        log, obs = [], []
        hist = []                                      # what an undisturbed twin is told
        dirty = False                                  # an aborted solve not repeated yet
        for k, op in enumerate(case["ops"]):
            if op["op"] != "new" and op.get("id") is not None and op["id"] not in w.objs:
                continue
            if op["op"] == "solve" and any(i not in w.objs for i in needs(op)):
                continue
            if any(i not in w.objs for i in needs(op.get("kw", {}))):
                continue
            w.count("ops")
            fired, exc = None, None
            if op["op"] == "solve":
                op = dict(op)
                try:
                    w.target(op, op)
                except Exception as e:
                    continue
            if op.get("fault"):
                out, exc, fired = w.perform_faulted(op, op["fault"])
            else:
                out = w.perform(op)
            log.append([k, op["op"], op.get("m"), out, fired])
            if op["op"] in ("new", "do"):
                if out[0] != "raise":
                    hist.append(strip(op))
            elif op["op"] == "solve":
                w.count("probe:solves " + ("failed" if out[0] == "raise" else "returned"))
                o = dict(k=k, solve=True, out=out, fired=fired, fault=op.get("fault"), goal=w.target(op, op), trace=[t for t, _ in w.trace][-3:],
                         n=len(w.trace), mad=op.get("mad", False))
                if out[0] != "raise":
                    o["again"] = canon(self.value(w, op, out))
                    o["twin"] = [list(hist), dict(op, fault=None)]
                    hist = hist + [strip(c) for c in (w.trace[-1][1] if w.trace else [])]
                    dirty = False
                else:
                    dirty = True
                obs.append(o)
            elif not op.get("void") and not dirty:
                obs.append(dict(k=k, ask=strip(op), out=out, recipe=list(hist)))
        sys.stdout = old
        return dict(log=log, obs=obs, stats=w.stats)

    @staticmethod
    def value(w, op, out):
        """What the function's question answers now, without configuring anything."""
        if out[0] != "n":
            return None
        return w.raw(put(op["ask"], out[1]))

    def judge(self, case, rec, oracle):
        out = []

        def bad(k, cls, text):
            out.append(dict(cls=cls, detail="op %d: %s" % (k, text)))

        def stat(name):
            rec["stats"][name] = rec["stats"].get(name, 0) + 1
        for o in rec["obs"]:
            k = o["k"]
            if not o.get("solve"):
                stat("probe:answers compared")
                want = oracle.expect(o["recipe"], o["ask"])
                if not close(o["out"], want, 1e-6, 1e-7):
                    bad(k, "not-at-solution", "%s%s returned %s; a model configured at the solution returns %s" % (
                        o["ask"]["m"], jkey(o["ask"]["kw"]), short(o["out"]), short(want)))
                continue
            if o["fired"]:
                if o["fault"]["kind"] != "stream" and o["out"][0] != "raise":
                    bad(k, "failure-swallowed", "solve returned %s although %s" % (short(o["out"]), o["fired"]))
                elif o["out"][0] == "raise" and o["fault"]["exc"] in INTERRUPTS and o["out"][1] != o["fault"]["exc"]:
                    bad(k, "failure-converted", "solve raised %s although %s" % (o["out"][1], o["fired"]))
                if o["out"][0] == "raise":
                    continue
            if o["out"][0] != "n":
                bad(k, "no-root", "solve returned %s (target %r)" % (short(o["out"]), o["goal"]))
                continue
            z = o["out"][1]
            if not o["trace"] or abs(o["trace"][-1] - z) > 1e-12 * abs(z):
                bad(k, "not-left-at-root", "solve returned %r; its last evaluation was at %r" % (z, o["trace"][-1:]))
            stat("probe:roots checked")
            tol = (1e-3 if o["mad"] else 1e-6) * max(abs(o["goal"]), 1e-3)
            if o["again"][0] != "n" or abs(o["again"][1] - o["goal"]) > tol:
                bad(k, "target-not-reproduced", "after solving for %r (root %r) the model answers %s" % (o["goal"], z, short(o["again"])))
            hist, op = o["twin"]
            want = forked(lambda: undisturbed(hist, op), 40.0)
            if not close(["n", z], want, 1e-7, 1e-9):
                bad(k, "root-differs", "solve returned %r; undisturbed it returns %s" % (z, short(want)))
        return out

    def nontrivial(self, case, rec):
        return rec["stats"].get("probe:roots checked", 0) >= 1 and rec["stats"].get("probe:answers compared", 0) >= 3


def needs(o):
    """Objects a case element refers to."""
    out = set()
    if isinstance(o, dict):
        for k, v in o.items():
            if k in ("id", "via", "$obj"):
                if v is not None:
                    out.add(v)
            else:
                out |= needs(v)
    elif isinstance(o, list):
        for v in o:
            out |= needs(v)
    return out


def undisturbed(hist, op):
    w = SolveWorld()
    sys.stdout = w.out
    w.build(hist)
    return w.perform(op)


CHECK = C14()
