"""C12: the recursion fact store behaves like a map, scaled by benefit."""
import sys
from ..core import Check
from ..world import World, jkey, strip
from ..outcome import short, close
from ..ticks import Budget
from .. import basis as bs
from .. import loads
from .c11 import gen_kw, ask_of, recipe, SET, LABEL, DEFAULT_T, STEPS

WHOLE = bs.WHOLE
LAB = {m: l for l, m in SET.items()}


def full(label, kw):
    """Fact arguments with the documented defaults spelt out."""
    k = dict(dict(p=dict(t=1), q=dict(t=1, u=0), e=dict(t=WHOLE, curtate=False, moment=1), E=dict(t=1, endowment=1, moment=1),
                  A=dict(t=WHOLE, u=0, b=1, endowment=0, moment=1, discrete=True), a=dict(t=WHOLE, u=0, b=1, variance=False, discrete=True),
                  IA=dict(t=WHOLE, b=1, discrete=True), DA=dict(t=WHOLE, b=1, discrete=True))[label], **kw)
    k["x"] += k.pop("s", 0)
    k.pop("val", None)
    return k


def key(label, kw):
    """(identity of the quantity, scale of its value)"""
    k = full(label, kw)
    scale = 1
    if label == "E":
        scale = abs(k.pop("endowment")) ** abs(k["moment"])
    elif label in ("IA", "DA"):
        scale = k.pop("b")
    elif label == "a":
        scale = k.pop("b") ** (2 if k["variance"] else 1)
    elif label == "A":
        b, e = k.pop("b"), k["endowment"]
        e = b if e < 0 else e
        scale = (b or e) ** abs(k["moment"])
        k["endowment"] = "pure" if not b else round(e / b, 12)
    return jkey([label, k]), scale


def by_definition(label, kw):
    """Values that hold whatever the facts say (nothing is looked up for them)."""
    k = full(label, kw)
    if k["t"] == 0 or (label in "pq" and k["t"] < 0):
        return True
    if label == "a":
        return k["t"] == 1 and not k["u"] and k["discrete"]
    if label == "A":
        return k["t"] == 1 and not k["u"] and k["discrete"] and k["b"] == (k["b"] if k["endowment"] < 0 else k["endowment"])
    return False


def question(op):
    """The fact an ask matches."""
    label = LABEL.get(op["m"])
    if label is None:
        return None
    kw = dict(op["kw"])
    if op["m"] in DEFAULT_T:
        kw.setdefault("t", 1)
    if op["m"] == "endowment_insurance":
        kw.setdefault("endowment", -1)
    return label, kw


class C12(Check):
    id = "C12"
    quick_runs = 2500
    thorough_runs = 60000
    rule = ("a run tells a solver up to 16 facts about overlapping quantities (same ages, terms, deferrals, moments and benefits in different statements; values true of a basis or "
            "arbitrary), replaces and withdraws them, with refused and interrupted calls, changes of interest and failing queries in between; the question matching a fact in force "
            "must return it scaled to the benefit asked for, and every answer must equal that of a fresh solver given only the facts in force, in another order; "
            "non-trivial: a replacement or withdrawal happened and 3 answers were compared")
    assumptions = ["values that hold by definition (terms of 0 years, one-year annuities due, one-year endowment insurance) are not facts",
                   "an interrupted call leaves the fact as it was or as it was to be, and is followed by a call about the same fact"]

    def generate(self, rng, tier):
        b = bs.gen(rng)
        B = bs.Basis(b)
        true = rng.random() < 0.5
        depth = rng.choice([1, 1, 1, 2])
        verbose = rng.random() < 0.3
        ops = [dict(op="new", id="a", kind="Recursion", kw=dict(depth=depth, verbose=verbose)),
               dict(op="do", id="a", m="set_interest", kw=dict(i=b["i"]))]
        ages = rng.choice([[50], [50, 51], [50, 51, 52]])
        labels = rng.choice([["A"], ["A", "E"], ["a"], ["E"], ["p", "q"], ["e"], ["IA", "DA", "A"], ["A", "a"], ["A", "a"],
                             ["p", "q", "e", "E", "A", "a", "IA", "DA"], ["p", "q", "E", "A", "a"]])
        facts = []

        def value(label, kw):
            v = bs.fact_value(B, label, kw)
            if v is not None and not true:
                v *= rng.choice([0.5, 0.9, 1.1])
            return v

        def again(kw, label):
            """The same quantity, stated another way."""
            kw = dict(kw)
            if rng.random() < 0.4:
                s = rng.choice([0, 1, 2])
                kw["x"] = kw["x"] + kw.get("s", 0) - s
                kw["s"] = s
            if label == "E":
                if rng.random() < 0.4:
                    kw["endowment"] = rng.choice([1, 2, 1000])
            elif label in ("A", "a", "IA", "DA") and kw.get("b", 1) and not kw.get("endowment") and rng.random() < 0.4:
                kw["b"] = rng.choice([1, 2, 1000])
            elif kw.get("b") and kw.get("endowment", 0) > 0 and rng.random() < 0.4:
                f = rng.choice([2, 10])
                kw["b"], kw["endowment"] = kw["b"] * f, kw["endowment"] * f
            return kw

        def near(label, kw):
            """A different quantity, close by."""
            kw = dict(kw)
            k = rng.choice(["x", "t", "moment", "discrete", "u", "endowment", "curtate", "variance"])
            if k == "x":
                kw["x"] += rng.choice([-1, 1])
            elif k == "t" and kw.get("t", -1) > 0:
                kw["t"] += 1
            elif k == "moment" and label in "eEA":
                kw["moment"] = rng.choice([1, 2, -2])
            elif k == "discrete" and label in ("A", "a", "IA", "DA"):
                kw["discrete"] = not kw.get("discrete", True)
            elif k == "u" and label in "qAa" and not kw.get("endowment") and not kw.get("variance"):
                kw["u"] = kw.get("u", 0) + 1
            elif k == "endowment" and label == "A" and kw.get("t", -1) > 0 and not kw.get("u"):
                b = kw.get("b", 1) or 1
                kw["endowment"] = rng.choice([0, 0, -1, 300, 1, 2, 0.001 * b, 0.004 * b, 1.002 * b, 0.5 * b, 1 / 3 * b, b])
                if kw["endowment"] == 0 and kw.get("b") == 0:
                    kw["b"] = 1
            elif k == "curtate" and label == "e":
                kw["curtate"] = not kw.get("curtate", False)
            elif k == "variance" and label == "a" and not kw.get("u") and kw.get("discrete", True):
                kw["variance"] = not kw.get("variance", False)
            return kw

        def ask(label=None, kw=None):
            if label is None:
                label, kw = rng.choice(facts) if facts and rng.random() < 0.8 else (rng.choice(labels), None)
                kw = again(kw, label) if kw else gen_kw(rng, label, ages)
                if rng.random() < 0.35:
                    kw = near(label, kw)
            if label == "A" and kw.get("b") == 0 and not kw.get("endowment"):
                return
            if label == "e" and depth > 1:
                label, kw = "p", gen_kw(rng, "p", ages)
            m, kw = ask_of(rng, label, kw)
            op = dict(op="ask", id="a", m=m, a=[], kw=kw)
            if rng.random() < 0.06:
                ops.append(dict(op, fault=loads.load_fault(rng, verbose)))
            ops.append(op)

        def fact(label=None, kw=None, val=0):
            if label is None:
                if facts and rng.random() < 0.6:
                    label, kw = rng.choice(facts)
                    kw = again(kw, label) if rng.random() < 0.5 else near(label, kw)
                else:
                    label = rng.choice(labels)
                    kw = gen_kw(rng, label, ages)
            if key(label, kw)[1] == 0 or by_definition(label, kw):
                return
            val = value(label, kw) if val is not None else None
            op = dict(op="do", id="a", m=SET[label], kw=dict(kw, val=val))
            r = rng.random()
            if r < 0.06:                               # refused
                bad = rng.choice(["x", "none"] + (["val", "list"] if label not in "pqe" else []))
                k = dict(op["kw"])
                if bad == "x":
                    k.pop("x")
                elif bad == "none":
                    k["x"] = None
                else:
                    k["val"] = "0.5" if bad == "val" else [0.5]
                ops.append(dict(op, kw=k, refused=True))
            elif r < 0.14:                             # interrupted, then settled
                ops.append(dict(op, fault=loads.load_fault(rng, False)))
                for _ in range(rng.choice([0, 1, 1])):
                    ask(label, kw)
                op = rng.choice([op, op, dict(op, kw=dict(kw, val=None))])
            ops.append(op)
            if op["kw"]["val"] is not None:
                facts.append((label, kw))
            if rng.random() < 0.5:
                ask(label, again(kw, label))
        if rng.random() < 0.25:
            for f in recipe(rng, ages)[0]:
                fact(*f)
        for _ in range(rng.choice([2, 4, 6, 10])):
            fact()
        for _ in range(rng.randint(3, 10)):
            r = rng.random()
            if r < 0.3:
                fact()
            elif r < 0.5 and facts:
                label, kw = rng.choice(facts)
                fact(label, again(kw, label), None)
            elif r < 0.55:
                ops.append(dict(op="do", id="a", m="set_interest", kw=dict(i=rng.choice([0.02, 0.07]))))
            else:
                ask()
        for f in rng.sample(facts, min(3, len(facts))):
            ask(f[0], again(f[1], f[0]))
        return dict(ops=ops)

    def execute(self, case):
        w = World()
        old, sys.stdout = sys.stdout, w.out
        log, obs = [], []
        sure = [dict()]                                # candidate sets of facts in force
        head = None
        rate = None
        for k, op in enumerate(case["ops"]):
            if op["op"] != "new" and op.get("id") is not None and op["id"] not in w.objs:
                continue
            w.count("ops")
            fired = None
            with Budget(STEPS) as left:
                if op.get("fault"):
                    out, exc, fired = w.perform_faulted(op, op["fault"])
                else:
                    out = w.perform(op)
            if left.over:
                out, fired = ["raise", "gave up", []], "gave up"
                w.count("probe:gave up")
            log.append([k, op["op"], op.get("m"), out, fired])
            if op["op"] == "new":
                head = strip(op)
                head = dict(head, kw=dict(head["kw"], verbose=False))
            elif op["op"] == "ask":
                if not fired:
                    rec = [[head] + ([rate] if rate else []) + [f[1] for _, f in sorted(d.items())] for d in sure]
                    obs.append(dict(k=k, ask=strip(op), out=out, recipes=rec,
                                    facts=[{n: f[0] for n, f in d.items()} for d in sure]))
            elif op["m"] == "set_interest":
                if out[0] != "raise":
                    rate = strip(op)
            elif op["m"] in LAB and (out[0] != "raise" or fired):
                label = LAB[op["m"]]
                try:
                    name, scale = key(label, op["kw"])
                    val = op["kw"]["val"]
                    unit = None if val is None else val / scale
                except (TypeError, KeyError):
                    continue
                new = []
                for d in sure:
                    d2 = dict(d)
                    w.count("probe:" + ("replaced" if name in d and unit is not None else "withdrawn" if name in d else "given"))
                    d2.pop(name, None)
                    if unit is not None:
                        d2[name] = [unit, strip(op)]
                    new.append(d2)
                sure = new + (sure if out[0] == "raise" else [])
                if len(sure) > 1:
                    uniq = []
                    for d in sure:
                        if d not in uniq:
                            uniq.append(d)
                    sure = uniq[:4]
        sys.stdout = old
        return dict(log=log, obs=obs, stats=w.stats)

    def judge(self, case, rec, oracle):
        out = []
        for k, kind, m, got, fired in rec["log"]:
            op = case["ops"][k]
            if kind == "new" and got[0] == "raise":
                return [dict(cls="fact-refused", detail="Recursion() raised")]
            if kind == "do" and got[0] == "raise" and not fired and not op.get("refused"):
                out.append(dict(cls="fact-refused", detail="op %d: %s%s raised %s" % (k, m, jkey(op["kw"]), got[1])))
        for o in rec["obs"]:
            q = question(o["ask"])
            if q and not by_definition(*q):
                name, scale = key(*q)
                want = [d[name] * scale for d in o["facts"] if name in d]
                if len(want) == len(o["facts"]):
                    rec["stats"]["probe:facts returned"] = rec["stats"].get("probe:facts returned", 0) + 1
                    if not any(o["out"][0] == "n" and abs(o["out"][1] - v) <= 1e-9 * abs(v) for v in want):
                        out.append(dict(cls="fact-not-returned", detail="op %d: %s%s returned %s; the fact given is %s" % (
                            o["k"], o["ask"]["m"], jkey(o["ask"]["kw"]), short(o["out"]), want)))
                        continue
            exp = [oracle.expect(r, o["ask"]) for r in o["recipes"]]
            rec["stats"]["probe:twins compared"] = rec["stats"].get("probe:twins compared", 0) + 1
            if not any(same(o["out"], e) for e in exp):
                out.append(dict(cls="depends-on-history", detail="op %d: %s%s returned %s; a solver given only the facts in force returns %s" % (
                    o["k"], o["ask"]["m"], jkey(o["ask"]["kw"]), short(o["out"]), short(exp[0]))))
        return out

    def nontrivial(self, case, rec):
        s = rec["stats"]
        return s.get("probe:twins compared", 0) >= 3 and s.get("probe:replaced", 0) + s.get("probe:withdrawn", 0) >= 1


def same(a, b):
    if a[0] == "n" and b[0] == "n":
        return abs(a[1] - b[1]) <= 1e-9 * max(abs(a[1]), abs(b[1]), 1e-6)
    return a[0] == b[0]


CHECK = C12()
