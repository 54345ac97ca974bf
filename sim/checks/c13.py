"""C13: reserve tables keep what was given and satisfy the yearly recursion."""
import math, sys
from ..core import Check
from ..world import World, jkey, effective_i
from ..outcome import short
from .. import catalog as cat
from .. import loads
from .. import scene as sc
from ..fns import MAKERS
from . import c09

D = cat.D
TERMS = ("premium", "initial_policy", "initial_premium", "renewal_policy", "renewal_premium", "settlement_policy", "benefit", "endowment", "T")


def models(rng):
    """-> (new op fields, configuration calls, description of the one-year mortality, ages, last usable duration)."""
    kind = rng.choice(["ConstantForce", "Uniform", "Gompertz", "Makeham", "Reserves", "Reserves", "PV", "LifeTable", "LifeTable", "SelectLife", "SelectLife", "SULT", "Recursion", "Recursion"])
    kw, conf, x = {}, [], rng.choice([20, 40, 50])
    if kind == "ConstantForce":
        kw = dict(mu=rng.choice([0.01, 0.05, 0.2]))
        m = ["S", ["S_exp", kw["mu"]]]
    elif kind == "Uniform":
        kw = dict(omega=rng.choice([80, 100]))
        m = ["S", ["S_unif", kw["omega"]]]
    elif kind == "Gompertz":
        kw = dict(B=rng.choice([3e-5, 3e-4]), c=rng.choice([1.07, 1.1]))
        m = ["S", ["S_mk", 0.0, kw["B"], kw["c"]]]
    elif kind == "Makeham":
        kw = dict(A=rng.choice([0.0002, 0.002]), B=rng.choice([3e-6, 3e-5]), c=rng.choice([1.08, 1.124]))
        m = ["S", ["S_mk", kw["A"], kw["B"], kw["c"]]]
    elif kind in ("Reserves", "PV"):
        kind = "Reserves"
        S = rng.choice([["S_exp", 0.03], ["S_unif", 100], ["S_mk", 0.001, 0.00003, 1.1]])
        conf = [("set_survival", dict(S={"$fn": S}))]
        m = ["S", S]
    elif kind == "LifeTable":
        q = cat.table_q(rng, n=rng.choice([6, 12]))
        x = min(q)
        kw = dict(udd=rng.random() < 0.5)
        conf = [("set_table", dict(q=D(q)))]
        m = ["q", [[a, 0, v] for a, v in q.items()], 0]
    elif kind == "SelectLife":
        b = loads.sel_basis(rng)
        while len(b["qu"]) < 3:
            b = loads.sel_basis(rng)
        x, n = b["lo"], b["n"]
        ref = loads.SelRef(b)
        kw = dict(periods=n, udd=rng.random() < 0.5)
        conf = [("set_table", dict(q={"$d": [[a, [ref.q(a, s) for s in range(n + 1)]] for a in range(ref.lo, ref.hi + 1)]}))]
        m = ["q", [[a, s, ref.q(a, s)] for a in range(ref.lo, ref.hi + 1) for s in range(n + 1)], n]
    elif kind == "SULT":
        kw = dict(udd=rng.random() < 0.5)
        m = ["S", ["S_mk", 0.00022, 2.7e-6, 1.124]]
    else:
        x = 50
        q = cat.table_q(rng, 50, 12)
        kw = dict(depth=1, verbose=rng.random() < 0.3)
        for a, v in q.items():
            conf.append(rng.choice([("set_q", dict(val=v, x=a)), ("set_p", dict(val=1 - v, x=a))]))
        rng.shuffle(conf)
        m = ["q", [[a, 0, v] for a, v in q.items()], 0]
    last = 12
    if m[0] == "q":
        n = m[2]
        ages = [a for a, s, _ in m[1]]
        last = max(ages) + n - x                       # the one-year mortality is known at durations x+0 .. x+last
    return dict(kind=kind, kw=kw), conf, m, x, last


class Mort:
    def __init__(self, m):
        self.m = m
        if m[0] == "S":
            self.S = MAKERS[m[1][0]](*m[1][1:])
        else:
            self.tab, self.n = {(a, s): q for a, s, q in m[1]}, m[2]

    def q(self, x, s):
        if self.m[0] == "S":
            return 1 - self.S(x, s, 1)
        if s > self.n:
            x, s = x + s - self.n, self.n
        return self.tab.get((x, s))


class C13(Check):
    id = "C13"
    quick_runs = 3000
    thorough_runs = 60000
    rule = ("a run configures one model (a mortality law, survival function, life, select or standard table, or recursion solver), performs up to 12 set_reserves and fill_reserves calls "
            "with varying terms, endowments, supplied reserves, contracts and reserve benefits, some interrupted at a chosen line, bytecode, callback or verbose write and some "
            "repeated, between changes of interest or mortality and queries; frames and t_V, forward and backward answers are compared with an independent dictionary model; "
            "non-trivial: a reserve was filled in and 5 values compared")
    assumptions = ["set_reserves() with a term T pins the reserves at 0 and at T (to zero and the endowment), as shipped, overriding values supplied for them",
                   "fill_reserves works forward from the reserve before, as it stands at that moment; a contract's term is the table's term or beyond (or a duration already given)"]

    def generate(self, rng, tier):
        new, conf, m, x, last = models(rng)
        ops = [dict(op="new", id="a", **new)]
        ops += [dict(op="do", id="a", m=c, kw=kw) for c, kw in conf]
        if new["kind"] == "SULT" and rng.random() < 0.3:
            ops.append(dict(op="do", id="a", m="set_interest", kw=dict(i=0.05)))
        else:
            ops.append(dict(op="do", id="a", m="set_interest", kw=cat.gen_interest(rng, custom=0)))
        Q = cat.Q(rng, dict(kind=new["kind"], ages=[x, x + 1], top=x + last, udd=True, depth=1))
        fault_p = rng.choice([0, 0.3])
        custom = bool(conf) and sc.has_fn(conf[0][1])
        verbose = bool(new["kw"].get("verbose"))
        T = min(rng.choice([1, 2, 3, 5, 8]), last + 1)

        def put(op):
            if rng.random() < fault_p:
                for _ in range(rng.choice([1, 1, 2])):
                    ops.append(dict(op, fault=loads.load_fault(rng, verbose, custom), void=True))
                    if op["m"] == "fill_reserves" and rng.random() < 0.5:
                        ops.append(dict(op="ask", id="a", m="reserves_frame", a=[], kw={}))
                if op["m"] == "fill_reserves" and rng.random() < 0.3:
                    return                             # never repeated as such
            ops.append(op)
            if rng.random() < 0.15:
                ops.append(dict(op))

        def set_():
            nonlocal T
            kw = {}
            if rng.random() < 0.4:
                kw["T"] = T = min(rng.choice([1, 2, 3, 4, 5, 8]), last + 1)
            if rng.random() < 0.5:
                kw["endowment"] = rng.choice([0, 100, 1000.0, 1])
            if rng.random() < 0.6:
                ks = rng.sample(range(0, last + 2), rng.choice([1, 1, 2, 3]) if last > 1 else 1)
                kw["V"] = D({k: rng.choice([0.5, 12.25, 321.5, 753.72, -4.5, 0]) for k in ks})
                T = max(T, len(ks) - 1)
            put(dict(op="do", id="a", m="set_reserves", kw=kw))

        def fill():
            c = cat.contract(rng)["$c"]
            c.pop("T", None)
            if rng.random() < 0.3:
                c["T"] = rng.choice([T, T, T + 1])
            kw = dict(x=x)
            s = rng.choice([0, 0, 0, 1, 2])
            if s:
                kw["s"] = s
            if rng.random() < 0.5:
                kw["reserve_benefit"] = rng.random() < 0.7
            if rng.random() < 0.9:
                kw["contract"] = {"$c": c}
            put(dict(op="do", id="a", m="fill_reserves", kw=kw))

        def ask():
            r = rng.random()
            if r < 0.35:
                ops.append(dict(op="ask", id="a", m="reserves_frame", a=[], kw={}))
            elif r < 0.5:
                op = dict(op="ask", id="a", a=[], **norm_ask(Q))
                if rng.random() < 0.3:
                    op["fault"] = loads.load_fault(rng, verbose, custom)
                ops.append(op)
            else:
                kw = dict(x=x, t=rng.randint(0, last + 1))
                if rng.random() < 0.2:
                    kw["s"] = 1
                if rng.random() < 0.6:
                    kw["premium"] = rng.choice([0, 0.5, 12.0])
                if rng.random() < 0.6:
                    kw["benefit"] = {"$fn": rng.choice([["b1_const", 100], ["b1_const", 0], ["b1_lin", 10, 2.5]])}
                if rng.random() < 0.4:
                    kw["per_premium"] = rng.choice([0.1, 0.35])
                if rng.random() < 0.4:
                    kw["per_policy"] = rng.choice([0.5, -2.0])
                if rng.random() < 0.4:
                    kw["reserve_benefit"] = rng.random() < 0.7
                ops.append(dict(op="ask", id="a", m=rng.choice(["t_V", "t_V", "t_V_forward", "t_V_backward"]), a=[], kw=kw))
        if rng.random() < 0.9:
            set_()
        for _ in range(rng.choice([3, 5, 8, 12])):
            r = rng.random()
            if r < 0.25:
                set_()
            elif r < 0.55:
                fill()
            elif r < 0.62:
                ops.append(dict(op="do", id="a", m="set_interest", kw=cat.gen_interest(rng, custom=0)))
            else:
                ask()
        for _ in range(4):
            ask()
        ops.append(dict(op="ask", id="a", m="reserves_frame", a=[], kw={}))
        return dict(ops=ops, mort=m)

    def execute(self, case):
        return c09.run(case)

    def judge(self, case, rec, oracle):
        return judge(case, rec)

    def nontrivial(self, case, rec):
        return rec["stats"].get("probe:values compared", 0) >= 5 and rec["stats"].get("probe:reserves filled in", 0) >= 1


def norm_ask(Q):
    for _ in range(30):
        a = Q.ask()
        if a["m"] not in ("t_V", "r_V_forward", "r_V_backward", "V_plot"):
            return dict(m=a["m"], kw=a.get("kw", {}))
    return dict(m="reserves_frame", kw={})


def near(a, b, scale):
    return abs(a - b) <= 2e-5 * max(abs(b), scale) + 1e-9


def judge(case, rec):
    mort = Mort(case["mort"])
    V, T, v = {}, 0, 1.0
    filled, out = set(), []
    scale = 1e-3

    def stat(name, n=1):
        rec["stats"][name] = rec["stats"].get(name, 0) + n

    def bad(k, cls, text):
        out.append(dict(cls=cls, detail="op %d: %s" % (k, text)))

    def forward(V, x, s, t, premium=0, benefit=1, per_premium=0, per_policy=0, rb=False):
        q = mort.q(x, s + t - 1)
        if q is None:
            raise KeyError
        r = (V[t - 1] + premium * (1 - per_premium) - per_policy) / v - q * benefit
        return r if rb else r / (1 - q)

    def backward(V, x, s, t, premium=0, benefit=1, per_premium=0, per_policy=0, rb=False):
        q = mort.q(x, s + t)
        if q is None:
            raise KeyError
        r = V[t + 1] * (1 - q) + q * (benefit + (V[t + 1] if rb else 0))
        return r * v - (premium * (1 - per_premium) - per_policy)

    def fill(op):
        """The table after filling, or None where the mortality says nothing."""
        kw = op["kw"]
        c = dict(dict(premium=1, initial_policy=0, initial_premium=0, renewal_policy=0, renewal_premium=0, benefit=1, endowment=0, T=-999),
                 **kw.get("contract", {}).get("$c", {}))
        new = dict(V)
        for t in range(T + 1):
            if t in new:
                continue
            if t == 0:
                new[t] = 0
                continue
            if t == c["T"]:
                return None
            first = t == 1
            new[t] = forward(new, kw["x"], kw.get("s", 0), t, c["premium"], c["benefit"], c["initial_premium" if first else "renewal_premium"],
                             c["initial_policy" if first else "renewal_policy"], kw.get("reserve_benefit", False))
        return new
    maybe = None                                       # reserves an interrupted filling may have put in
    for k, kind, m, got, fired in rec["log"]:
        op = case["ops"][k]
        kw = op.get("kw", {})
        if kind == "new":
            if got[0] == "raise":
                bad(k, "load-raised", "construction raised")
                return out
            if op["kind"] == "SULT":
                v = 1 / 1.05
            continue
        if m == "set_interest":
            if got[0] == "raise":
                return out
            if "v_t" in kw:
                f = kw["v_t"]["$fn"]
                v = MAKERS[f[0]](*f[1:])(1)
            else:
                v = 1 / (1 + effective_i(kw))
            continue
        if m == "set_reserves":
            if got[0] == "raise":
                if fired:
                    continue                           # repeated next
                bad(k, "load-raised", "set_reserves%s raised %s" % (jkey(kw), got[1]))
                return out
            if kw.get("T"):
                T = kw["T"]
            for a, b in kw.get("V", {"$d": []})["$d"]:
                V[a] = b
                filled.discard(a)
            if kw.get("V"):
                T = max(T, len(kw["V"]["$d"]) - 1)
            V[0] = 0
            V[T] = kw.get("endowment", 0)
            filled -= {0, T}
            scale = max([scale] + [abs(a) for a in V.values()])
            continue
        if m == "fill_reserves":
            try:
                new = fill(op)
            except KeyError:
                new = None
            if new is None:
                stat("runs given up: mortality or contract term ran out")
                return out
            c = kw.get("contract", {}).get("$c", {})
            scale = max([scale, abs(c.get("benefit", 1)), abs(c.get("premium", 1))] + [abs(a) for a in new.values()])
            if got[0] == "raise":
                if not fired:
                    bad(k, "load-raised", "fill_reserves%s raised %s" % (jkey(kw), got[1]))
                    return out
                maybe = {t: y for t, y in new.items() if t not in V}
                nxt = case["ops"][k + 1] if k + 1 < len(case["ops"]) else None
                if nxt is not None and nxt.get("m") == "reserves_frame":
                    continue
                if nxt is not None and nxt.get("m") == "fill_reserves" and nxt["kw"] == kw:
                    continue
                return out                             # which of them is not known
            stat("probe:reserves filled in", len(new) - len(V))
            filled |= set(new) - set(V)
            V, maybe = new, None
            continue
        if kind == "do":
            if got[0] == "raise":
                bad(k, "load-raised", "%s raised %s" % (m, got[1]))
                return out
            continue
        if fired:
            continue
        if m == "reserves_frame":
            if got[0] != "df":
                if V:
                    bad(k, "lookup-raised", "reserves_frame returned %s" % short(got))
                continue
            have = {}
            for t, row in zip(got[2], got[3]):
                if row and row[0][0] == "n":
                    have[int(float(t))] = row[0][1]
            for t, y in sorted(have.items()):
                stat("probe:values compared")
                if t in V:
                    if t in filled:
                        if not near(y, V[t], scale):
                            bad(k, "recursion-broken", "reserve %d is %r; the yearly recursion from the reserve before gives %.12g" % (t, y, V[t]))
                    elif y != V[t]:
                        bad(k, "given-reserve-changed", "reserve %d is %r; %r was given" % (t, y, V[t]))
                elif maybe and t in maybe:
                    if not near(y, maybe[t], scale):
                        bad(k, "recursion-broken", "reserve %d after an interrupted filling is %r; the yearly recursion gives %.12g" % (t, y, maybe[t]))
                    V[t] = maybe[t]
                    filled.add(t)
                else:
                    bad(k, "reserve-appeared", "reserve %d is %r; none was given or filled in" % (t, y))
            miss = sorted(set(V) - set(have))
            if miss:
                bad(k, "reserve-missing", "no reserve at %s; the table should hold them" % miss[:5])
            maybe = None
            if out:
                return out
            continue
        if m in ("t_V", "t_V_forward", "t_V_backward"):
            t, x, s = kw["t"], kw["x"], kw.get("s", 0)
            if maybe:
                continue
            f = kw.get("benefit", {"$fn": ["b1_const", 1]})["$fn"]
            b = MAKERS[f[0]](*f[1:])
            a = (kw.get("premium", 0), None, kw.get("per_premium", 0), kw.get("per_policy", 0), kw.get("reserve_benefit", False))
            at = lambda t: (a[0], b(t)) + a[2:]
            try:
                if m == "t_V" and t in V:
                    want = V[t]
                elif m != "t_V_backward" and t - 1 in V:
                    want = forward(V, x, s, t, *at(t))
                elif m != "t_V_forward" and t + 1 in V:
                    want = backward(V, x, s, t, *at(t + 1))
                else:
                    want = None
            except KeyError:
                continue
            stat("probe:values compared")
            if want is None:
                if got[0] != "none":
                    bad(k, "wrong-value", "%s%s returned %s; no neighbouring reserve is known" % (m, jkey(kw), short(got)))
            elif got[0] != "n" or not near(got[1], want, max(scale, abs(b(t)), abs(b(t + 1)))):
                bad(k, "wrong-value", "%s%s returned %s; the one-year recursion gives %.12g" % (m, jkey(kw), short(got), want))
    return out


CHECK = C13()
