"""C11: recursion never returns a wrong value."""
import sys
from ..core import Check
from ..world import World, jkey
from ..outcome import short
from .. import basis as bs
from .. import loads
from ..ticks import Budget

WHOLE = bs.WHOLE
REL = 1e-6
STEPS = 60000
SET = dict(p="set_p", q="set_q", e="set_e", E="set_E", A="set_A", a="set_a", IA="set_IA", DA="set_DA")


def gen_kw(rng, label, ages):
    """Arguments of a fact or question about `label`."""
    kw = dict(x=rng.choice(ages))
    if rng.random() < 0.25:
        s = rng.choice([1, 1, 2])
        kw["x"] -= s
        kw["s"] = s
    t = rng.choice([1, 1, 2, 2, 3, 4])
    w = rng.choice([WHOLE, WHOLE, 1, 2, 2, 3])
    b = rng.choice([1, 1, 1, 10, 1000, 0.5])
    if label == "p":
        kw["t"] = t
    elif label == "q":
        kw["t"] = t
        if rng.random() < 0.3:
            kw["u"] = rng.choice([1, 2])
    elif label == "e":
        kw["t"] = rng.choice([w, w, 5])
        kw["curtate"] = rng.random() < 0.5
        if rng.random() < 0.15:
            kw["moment"] = rng.choice([2, -2])
    elif label == "E":
        kw["t"] = t
        if rng.random() < 0.3:
            kw["endowment"] = b
        if rng.random() < 0.3:
            kw["moment"] = rng.choice([2, 2, -2])
    elif label == "A":
        kw["t"] = w
        if rng.random() < 0.4:
            kw["b"] = b
        if w > 0 and rng.random() < 0.5:
            kw["endowment"] = rng.choice([-1, kw.get("b", 1), kw.get("b", 1), 1, 300, 0])
            if rng.random() < 0.1:
                kw["b"], kw["endowment"] = 0, b
        elif rng.random() < 0.2:
            kw["u"] = rng.choice([1, 2])
        if rng.random() < 0.25:
            kw["moment"] = rng.choice([2, 2, -2])
        if rng.random() < 0.15:
            kw["discrete"] = False
    elif label == "a":
        kw["t"] = w
        if rng.random() < 0.35:
            kw["b"] = b
        if rng.random() < 0.25:
            kw["u"] = rng.choice([1, 2])
        if rng.random() < 0.15:
            kw["discrete"] = False
        elif "u" not in kw and rng.random() < 0.12:
            kw["variance"] = True
    elif label in ("IA", "DA"):
        kw["t"] = w if label == "IA" else t
        if rng.random() < 0.3:
            kw["b"] = b
        if rng.random() < 0.15:
            kw["discrete"] = False
    if kw.get("t") == WHOLE and label in ("A", "a", "IA", "e") and rng.random() < 0.5:
        kw.pop("t")
    return kw


def recipe(rng, ages):
    """Premises of one textbook relation and the question it answers: (facts, question)."""
    x, t = rng.choice(ages), rng.choice([1, 2, 3])
    w = rng.choice([WHOLE, WHOLE, t + 1])
    b = rng.choice([1, 1, 10, 1000])
    c = dict(curtate=rng.random() < 0.5)
    m = rng.choice([1, 1, 2])
    less = w if w == WHOLE else w - 1
    more = w if w == WHOLE else w + 1
    return rng.choice([
        lambda: ([("e", dict(x=x, **c)), ("e", dict(x=x + t, **c)), ("p", dict(x=x, t=t))], ("e", dict(x=x, t=t, **c))),
        lambda: ([("e", dict(x=x - 1, **c)), ("e", dict(x=x - 1, t=1, **c)), ("p", dict(x=x - 1, t=1))], ("e", dict(x=x, **c))),
        lambda: ([("e", dict(x=x, t=t, **c)), ("e", dict(x=x + t, **c)), ("p", dict(x=x, t=t))], ("e", dict(x=x, **c))),
        lambda: ([("a", dict(x=x - 1, u=2, t=w)), ("p", dict(x=x - 1, t=1))], ("a", dict(x=x, u=1, t=w, b=b))),
        lambda: ([("a", dict(x=x + 1, u=1, t=w)), ("p", dict(x=x, t=1))], ("a", dict(x=x, u=2, t=w, b=b))),
        lambda: ([("a", dict(x=x, t=t)), ("a", dict(x=x, t=t + 2))], ("a", dict(x=x, u=t, t=2, b=b))),
        lambda: ([("a", dict(x=x, t=t)), ("a", dict(x=x))], ("a", dict(x=x, u=t, b=b))),
        lambda: ([("A", dict(x=x)), ("A", dict(x=x, moment=2))], ("A", dict(x=x, moment=-2, b=b))),
        lambda: ([("A", dict(x=x, t=t, u=1)), ("A", dict(x=x, t=t, u=1, moment=2))], ("A", dict(x=x, t=t, u=1, moment=-2, b=b))),
        lambda: ([("A", dict(x=x, t=t, endowment=1)), ("A", dict(x=x, t=t, moment=2, endowment=1))], ("A", dict(x=x, t=t, endowment=-1, moment=-2, b=b))),
        lambda: ([("A", dict(x=x, t=t)), ("A", dict(x=x, t=t, moment=2))], ("A", dict(x=x, t=t, moment=-2, b=b))),
        lambda: ([("A", dict(x=x + 1, t=less, moment=m)), ("q", dict(x=x, t=1))], ("A", dict(x=x, t=w, moment=m, b=b))),
        lambda: ([("A", dict(x=x - 1, t=more, moment=m)), ("q", dict(x=x - 1, t=1))], ("A", dict(x=x, t=w, moment=m, b=b))),
        lambda: ([("A", dict(x=x, t=t, moment=m)), ("E", dict(x=x, t=t, moment=m))], ("A", dict(x=x, t=t, moment=m, b=b, endowment=rng.choice([-1, 300])))),
        lambda: ([("A", dict(x=x, t=t, endowment=1, moment=m)), ("E", dict(x=x, t=t, moment=m))], ("A", dict(x=x, t=t, moment=m, b=b))),
        lambda: ([("A", dict(x=x, t=t, moment=m)), ("A", dict(x=x, t=t, endowment=1, moment=m))], ("E", dict(x=x, t=t, moment=m, endowment=b))),
        lambda: ([("E", dict(x=x, t=1, moment=m)), ("E", dict(x=x + 1, t=t, moment=m))], ("E", dict(x=x, t=t + 1, moment=m, endowment=b))),
        lambda: ([("E", dict(x=x, t=1))], ("p", dict(x=x, t=1))),
        lambda: ([("a", dict(x=x, t=w)), ("a", dict(x=x + 1, t=less))], ("p", dict(x=x, t=1))),
        lambda: ([("A", dict(x=x, t=w)), ("A", dict(x=x + 1, t=less))], ("p", dict(x=x, t=1))),
        lambda: ([("a", dict(x=x + 1, t=less)), ("E", dict(x=x, t=1))], ("a", dict(x=x, t=w, b=b))),
        lambda: ([("a", dict(x=x - 1, t=more)), ("E", dict(x=x - 1, t=1))], ("a", dict(x=x, t=w, b=b))),
        lambda: ([("a", dict(x=x, t=w))], ("A", dict(x=x, t=w, b=b, endowment=-1) if w > 0 else dict(x=x, b=b))),
        lambda: ([("A", dict(x=x, t=w, endowment=1) if w > 0 else dict(x=x))], ("a", dict(x=x, t=w, b=b))),
        lambda: ([("a", dict(x=x, discrete=False))], ("A", dict(x=x, b=b, discrete=False))),
        lambda: ([("A", dict(x=x, t=t)), ("DA", dict(x=x, t=t))], ("IA", dict(x=x, t=t, b=b))),
        lambda: ([("A", dict(x=x, t=t)), ("IA", dict(x=x, t=t))], ("DA", dict(x=x, t=t, b=b))),
        lambda: ([("A", dict(x=x, t=w)), ("IA", dict(x=x + 1, t=less)), ("p", dict(x=x, t=1))], ("IA", dict(x=x, t=w, b=b))),
        lambda: ([("DA", dict(x=x + 1, t=t)), ("p", dict(x=x, t=1))], ("DA", dict(x=x, t=t + 1, b=b))),
        lambda: ([("p", dict(x=x, t=t + 1)), ("p", dict(x=x, t=1))], ("p", dict(x=x + 1, t=t))),
        lambda: ([("p", dict(x=x, t=t + 1)), ("p", dict(x=x + t, t=1))], ("p", dict(x=x, t=t))),
        lambda: ([("p", dict(x=x, t=t)), ("q", dict(x=x + t, t=1))], ("q", dict(x=x, t=1, u=t))),
        lambda: ([("q", dict(x=x, t=t)), ("q", dict(x=x, t=t + 1))], ("q", dict(x=x, t=1, u=t))),
    ])()


def ask_of(rng, label, kw):
    """The public question matching (label, kw)."""
    t = kw.get("t", WHOLE)
    kw = dict(kw)
    if label in "pqeE":
        return label + "_x", kw
    if label == "IA":
        return "increasing_insurance", kw
    if label == "DA":
        return "decreasing_insurance", kw
    if label == "A":
        if "u" in kw:
            kw.pop("endowment", None)
            return "deferred_insurance", kw
        if kw.get("endowment", 0) != 0:
            return "endowment_insurance", kw
        kw.pop("endowment", None)
        if t == WHOLE and rng.random() < 0.7:
            kw.pop("t", None)
            return "whole_life_insurance", kw
        kw["t"] = t
        return "term_insurance", kw
    if "u" in kw:
        kw.pop("variance", None)
        return "deferred_annuity", kw
    if t == WHOLE and rng.random() < 0.7:
        kw.pop("t", None)
        return "whole_life_annuity", kw
    return "temporary_annuity", kw


DEFAULT_T = dict(term_insurance=1, endowment_insurance=1, E_x=1, p_x=1, q_x=1)
LABEL = dict(p_x="p", q_x="q", e_x="e", E_x="E", increasing_insurance="IA", decreasing_insurance="DA", whole_life_insurance="A",
             term_insurance="A", deferred_insurance="A", endowment_insurance="A", whole_life_annuity="a", temporary_annuity="a", deferred_annuity="a")


def truth(B, m, kw):
    if m in LABEL:
        kw = dict(kw)
        if m == "endowment_insurance":
            kw.setdefault("endowment", -1)
        return bs.fact_value(B, LABEL[m], kw)
    x, t = kw["x"] + kw.get("s", 0), kw.get("t", WHOLE)
    b = kw.get("b", 1)
    if m == "immediate_annuity":
        return b * (B.a(x, t) - 1 + B.E(x, t))
    if m == "increasing_annuity":
        return B.Ia(x, t, b)
    if m == "decreasing_annuity":
        return b * ((t + 1) * B.a(x, t) - B.Ia(x, t))
    if m == "certain_life_annuity":
        u = kw["u"]
        return B.a(x, t, u) + sum(B.v ** k for k in range(u))
    return None


class C11(Check):
    id = "C11"
    quick_runs = 6000
    thorough_runs = 80000
    rule = ("a run draws a mortality (yearly forces) and an interest rate, tells a solver 2-10 facts true of them (any quantity, term, deferral, moment, benefit) with overwrites "
            "and withdrawals, switches of display form and aborted queries in between, and puts 4-14 questions at depth limits 1-3; every number returned is compared with the "
            "basis by independent sums; non-trivial: at least one number was returned that is not one of the facts given")
    assumptions = ["None and exceptions count as 'no value'", "facts are exact to double precision, answers compared to 1e-6 relative",
                   "ages well below the solver's limiting age"]

    def generate(self, rng, tier):
        b = bs.gen(rng)
        B = bs.Basis(b)
        depth = rng.choice([1, 1, 2, 2, 2, 2, 3])
        verbose = rng.random() < 0.4
        ops = [dict(op="new", id="a", kind="Recursion", kw=dict(depth=depth, verbose=verbose)),
               dict(op="do", id="a", m="set_interest", kw=self.rate(rng, b["i"]))]
        ages = rng.choice([[50, 51], [50, 51, 52], [50, 51, 52, 53], [51]])
        labels = rng.choice([["p", "q"], ["p", "q", "A"], ["q", "a"], ["A", "a"], ["p", "E", "A", "a"], ["p", "q", "IA", "DA", "A"],
                             ["p", "q", "e"], ["p", "q", "e", "E", "A", "a", "IA", "DA"], ["p", "q", "E", "A", "a"], ["A", "E"]])
        facts = []

        def fact():
            if facts and rng.random() < 0.3:           # next to a fact already given
                label, kw = rng.choice(facts)
                kw = dict(kw, x=kw["x"] + rng.choice([-1, 0, 0, 1, 1, 2]))
                if kw.get("t", WHOLE) > 0:
                    kw["t"] = max(1, kw["t"] + rng.choice([-1, 0, 0, 1]))
                if "u" in kw:
                    kw["u"] = max(1, kw["u"] + rng.choice([-1, 0, 1]))
                if "moment" in kw and rng.random() < 0.3:
                    kw["moment"] = rng.choice([1, 2, -2])
            else:
                label = rng.choice(labels)
                kw = gen_kw(rng, label, ages)
            val = bs.fact_value(B, label, kw)
            if val is None:
                return
            facts.append((label, kw))
            if label == "E" and kw.get("endowment") == 0:
                return
            ops.append(dict(op="do", id="a", m=SET[label], kw=dict(kw, val=val)))

        def ask():
            r = rng.random()
            if r < 0.08:
                x = rng.choice(ages)
                m = rng.choice(["immediate_annuity", "increasing_annuity", "decreasing_annuity", "certain_life_annuity"])
                kw = dict(x=x, t=rng.choice([1, 2, 3]))
                if m == "certain_life_annuity":
                    kw["u"] = rng.choice([1, 2])
                elif rng.random() < 0.4:
                    kw["b"] = rng.choice([10, 1000])
            else:
                if facts and r < 0.35:                 # a neighbour of a known fact
                    label, kw = rng.choice(facts)
                    kw = dict(kw)
                    k = rng.choice(["x", "b", "moment", "t", "none"])
                    if k == "x":
                        kw["x"] += rng.choice([-1, 1])
                    elif k == "b" and "b" in kw:
                        kw["b"] = rng.choice([2, 1000])
                    elif k == "moment" and "moment" in kw:
                        kw["moment"] = rng.choice([1, 2, -2])
                    elif k == "t" and kw.get("t", -1) > 0:
                        kw["t"] += rng.choice([0, 1])
                else:
                    label = rng.choice(labels + ["p", "A", "a", "E"])
                    kw = gen_kw(rng, label, ages)
                if label == "e" and depth > 1 and not (depth == 2 and rng.random() < 0.15):
                    label, kw = "p", gen_kw(rng, "p", ages)
                if rng.random() < 0.03 and label != "e":
                    kw["t"] = 0
                m, kw = ask_of(rng, label, kw)
            op = dict(op="ask", id="a", m=m, a=[], kw=kw)
            if rng.random() < 0.08:
                ops.append(dict(op, fault=loads.load_fault(rng, verbose)))
            ops.append(op)
        def tell(label, kw):
            if rng.random() < 0.2:
                kw = dict(kw, x=kw["x"] - 1, s=1)
            val = bs.fact_value(B, label, kw)
            if val is not None:
                facts.append((label, kw))
                ops.append(dict(op="do", id="a", m=SET[label], kw=dict(kw, val=val)))
        if rng.random() < 0.5:                         # the premises of some relations, then its conclusion
            for _ in range(rng.choice([1, 1, 2])):
                given, (label, kw) = recipe(rng, ages)
                for f in given:
                    if rng.random() < 0.95:
                        tell(*f)
                m, kw = ask_of(rng, label, kw)
                ops.append(dict(op="ask", id="a", m=m, a=[], kw=kw))
            if rng.random() < 0.5:
                return dict(ops=ops, basis=b)
        for _ in range(rng.choice([2, 3, 4, 6, 8, 10])):
            fact()
        for _ in range(rng.randint(4, 12)):
            r = rng.random()
            if r < 0.12:
                fact()
            elif r < 0.2 and facts:
                label, kw = rng.choice(facts)
                ops.append(dict(op="do", id="a", m=SET[label], kw=dict(kw, val=None)))
            elif r < 0.25 and facts:                   # the same fact again, possibly stated for another benefit
                label, kw = rng.choice(facts)
                ops.append(dict(op="do", id="a", m=SET[label], kw=dict(kw, val=bs.fact_value(B, label, kw))))
            elif r < 0.29:
                ops.append(dict(op="do", id=None, kind="Recursion", m="blog_options", kw=dict(latex=rng.random() < 0.5, notebook=rng.random() < 0.5)))
            else:
                ask()
        ask()
        return dict(ops=ops, basis=b)

    def rate(self, rng, i):
        import math
        f = rng.choice(["i", "i", "v", "d", "delta"])
        return dict(i=dict(i=i), v=dict(v=1 / (1 + i)), d=dict(d=i / (1 + i)), delta=dict(delta=math.log1p(i)))[f]

    def execute(self, case):
        w = World()
        stub_display(w)
        old, sys.stdout = sys.stdout, w.out
        log = []
        for k, op in enumerate(case["ops"]):
            if op["op"] != "new" and op.get("id") is not None and op["id"] not in w.objs:
                continue
            w.count("ops")
            fired = None
            with Budget(STEPS) as left:
                if op.get("fault"):
                    out, exc, fired = w.perform_faulted(op, op["fault"])
                else:
                    out = w.perform(op)
            if left.over:                              # exponential search cut short at a fixed step
                out = ["raise", "gave up", []]
                w.count("probe:gave up")
            if op["op"] == "ask":
                w.count("probe:" + ("number" if out[0] == "n" else "none" if out[0] == "none" else "raised"))
            log.append([k, op["op"], op.get("m"), out, fired])
        sys.stdout = old
        return dict(log=log, stats=w.stats)

    def judge(self, case, rec, oracle):
        B = bs.Basis(case["basis"])
        out = []
        for k, kind, m, got, fired in rec["log"]:
            op = case["ops"][k]
            if kind == "new" and got[0] == "raise":
                out.append(dict(cls="fact-refused", detail="Recursion() raised"))
            if kind == "do" and m.startswith("set_") and got[0] == "raise":
                out.append(dict(cls="fact-refused", detail="op %d: %s%s raised %s" % (k, m, jkey(op["kw"]), got[1])))
            if kind != "ask" or fired:
                continue
            if got[0] in ("raise", "none"):
                continue
            want = truth(B, m, op["kw"])
            if want is None:
                continue
            rec["stats"]["probe:values compared"] = rec["stats"].get("probe:values compared", 0) + 1
            if got[0] != "n" or abs(got[1] - want) > REL * max(abs(want), abs(got[1])) + 1e-8 * scale(op["kw"]):
                out.append(dict(cls="wrong-value", detail="op %d: %s%s returned %s; the facts imply %.12g" % (k, m, jkey(op["kw"]), short(got), want)))
        return out

    def nontrivial(self, case, rec):
        return rec["stats"].get("probe:values compared", 0) >= 1


def scale(kw):
    s = max(abs(kw.get("b", 1)), abs(kw.get("endowment", 1)), 1)
    return s ** (2 if kw.get("moment", 1) != 1 or kw.get("variance") else 1)


def stub_display(w):
    """The notebook display functions are replaced by writes to the simulated output stream."""
    import actuarialmath.recursion as rec
    rec.display_latex = lambda s, raw=True: w.out.write(str(s))
    rec.display_pretty = lambda s, raw=True: w.out.write(str(s))


CHECK = C11()
