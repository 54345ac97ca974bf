"""C24: a model answers from the survival law and the interest it was last given, in whichever form each was given."""
import math
from ..core import Check
from ..world import effective_i
from .. import catalog as cat
from .. import scene as sc
from . import c09, c18, c22

LAWS = dict(
    exp=dict(S="S_exp", l="l_exp", mu="mu_const", f="f_exp"),
    unif=dict(S="S_unif", l="l_unif", f="f_unif"),
    mk=dict(S="S_mk", l="l_mk", mu="mu_mk", f="f_mk"),
    sel=dict(S="S_sel", l="l_sel", mu="mu_sel", f="f_sel"))
OWN = ["S", "f", "mu", "l", "f_x", "mu_x", "l_x", "d_x", "interest.i", "interest.d", "interest.v", "interest.delta", "interest.v_t", "interest.annuity"]
PARAMETRIC = ["ConstantForce", "Gompertz", "Makeham", "Uniform", "Beta"]


class Law:
    def __init__(self, name, *p):
        self.name, self.p = name, p

    def S(self, x, s, t):
        n, p = self.name, self.p
        if n == "exp":
            return math.exp(-p[0] * t)
        if n in ("unif", "beta"):
            return max(0.0, 1 - t / (p[0] - x - s)) ** (p[1] if n == "beta" else 1) if x + s < p[0] else 0.0
        if n == "mk":
            A, B, c = p
            return math.exp(-A * t - B * c ** (x + s) * (c ** t - 1) / math.log(c))
        return math.exp(-p[0] * (1 + 0.01 * x) * (t - 0.5 * (math.exp(-s) - math.exp(-s - t))))

    def mu(self, x, t):
        n, p = self.name, self.p
        if n == "exp":
            return p[0]
        if n in ("unif", "beta"):
            return (p[1] if n == "beta" else 1) / (p[0] - x - t)
        if n == "mk":
            return p[0] + p[1] * p[2] ** (x + t)
        return p[0] * (1 + 0.01 * x) * (1 - 0.5 * math.exp(-t))

    def f(self, x, s, t):
        if self.end(x) is not None and x + s + t >= self.end(x):
            return None
        return self.S(x, s, t) * self.mu(x, s + t)

    def end(self, x):
        return self.p[0] if self.name in ("unif", "beta") else None

    def l(self, x, s):
        """Up to a factor, for each age of selection."""
        return self.S(0, 0, x + s) if self.name != "sel" else math.exp(-self.p[0] * x) * self.S(x, 0, s)


def gen_law(rng):
    n = rng.choice(["exp", "unif", "mk", "mk", "mk", "sel"])
    if n == "mk":
        p = rng.choice([[0.0, 0.0003, 1.07], [0.001, 0.00003, 1.1], [0.00022, 2.7e-6, 1.124]])
    elif n == "unif":
        p = [rng.choice([90, 100, 110])]
    else:
        p = [rng.choice([0.01, 0.02, 0.04, 0.1])]
    return [n] + p


def gen_survival(rng):
    law = gen_law(rng)
    forms = sorted(LAWS[law[0]])
    use = rng.sample(forms, min(len(forms), rng.choice([1, 1, 1, 2, 2, 3, 4])))
    kw = {f: {"$fn": [LAWS[law[0]][f]] + law[1:]} for f in use}
    kw["maxage"] = law[1] if law[0] == "unif" else rng.choice([130, 130, 120])
    if rng.random() < 0.4:
        kw["minage"] = rng.choice([0, 10, 20])
    return dict(op="do", id="a", m="set_survival", kw=kw, law=law)


class C24(Check):
    id = "C24"
    quick_runs = 1400
    thorough_runs = 40000
    rule = ("a run gives one model (a base class given l, S, mu or f or several of them, or a parametric law) survival and interest in any form, again and again, with refused, "
            "interrupted and failing attempts and failing questions in between, and compares survival, expectation, insurance, annuity, premium, policy-value and random-variable questions "
            "with sums and integrals over the law and interest last accepted; non-trivial: at least two assumptions accepted and 6 values compared")
    assumptions = ["laws: exponential, uniform, Makeham and one select law; whole-life questions are judged only when nobody survives the oldest age",
                   "densities and forces are judged where the law is smooth a year to both sides when they must be had by differentiation"]

    def generate(self, rng, tier):
        ops = []
        kind = rng.choice(["Reserves", "Reserves", "PolicyValues", "Premiums"] + PARAMETRIC)
        ops = [dict(op="new", id="a", kind=kind, kw={})]
        hi = 130
        if kind not in PARAMETRIC:
            if rng.random() < 0.5:
                ops[0]["kw"]["udd"] = rng.random() < 0.5
        else:
            hi = 100
            law = gen_law(rng)
            while law[0] != dict(ConstantForce="exp", Uniform="unif", Beta="unif").get(kind, "mk") or kind == "Gompertz" and law[1]:
                law = gen_law(rng)
            names = dict(ConstantForce=["mu"], Uniform=["omega"], Beta=["omega"], Makeham=["A", "B", "c"], Gompertz=["", "B", "c"])[kind]
            ops[0]["kw"] = {n: v for n, v in zip(names, law[1:]) if n}
            if kind == "Beta":
                ops[0]["kw"]["alpha"] = rng.choice([1, 2, 3])
                law = ["beta", law[1], ops[0]["kw"]["alpha"]]
            ops[0]["law"] = law
            hi = law[1] if law[0] in ("unif", "beta") else 100
        custom = False
        for r in range(rng.choice([1, 2, 2, 3, 4])):
            todo = []
            if kind not in PARAMETRIC and (not r or rng.random() < 0.6):
                op = gen_survival(rng)
                custom = True
                hi = op["kw"]["maxage"]
                todo.append(op)
                if rng.random() < 0.3:
                    todo.insert(rng.randint(0, 1), dict(op="do", id="a", m="set_survival", kw=cat.bad_survival(rng), void=True))
                    if rng.random() < 0.5:
                        todo.append(dict(gen_survival(rng), fault=sc.async_fault(rng)))
                        todo.append(dict(op))
            if not r or rng.random() < 0.6:
                while True:
                    kw = cat.gen_interest(rng, custom=0.1)
                    if "v_t" not in kw or kw["v_t"]["$fn"][0] == "v_pow":
                        break
                op = dict(op="do", id="a", m="set_interest", kw=kw)
                todo.append(op)
                if rng.random() < 0.3:
                    todo.append(dict(op="do", id="a", m="set_interest", kw=cat.bad_interest(rng), void=True))
                if rng.random() < 0.2:
                    todo.append(dict(op="do", id="a", m="set_interest", kw=cat.gen_interest(rng, custom=0), fault=sc.async_fault(rng)))
                    todo.append(dict(op))
            if rng.random() < 0.5:
                todo.reverse()
            ops += todo
            for q in self.asks(rng, hi, rng.choice([4, 8, 14]), kind):
                if rng.random() < 0.1:
                    ops.append(dict(q, fault=sc.gen_fault(rng, q, {}, custom)))
                ops.append(q)
        return dict(ops=ops)

    def asks(self, rng, hi, n, kind):
        out = []
        while len(out) < n:
            lo, top = rng.choice([(20, 60), (20, 60), (60, hi)])
            r = rng.random()
            if r < 0.3:
                op = c09.CHECK.asks(rng, lo, top, 1)[0]
                if op["m"].startswith("[") or op["m"] == "frame":
                    continue
                if op["m"] == "d_x":
                    continue
                if op["m"] == "e_x" and kind == "Beta" and "t" in op["kw"]:
                    op["kw"]["n"] = op["kw"].pop("t")
            elif r < 0.55:
                op = c18.CHECK.asks(rng, lo, min(top, lo + 30), 1)[0]
            elif r < 0.8:
                op = c22.CHECK.asks(rng, lo, min(top, lo + 30), 1)[0]
            else:
                op = self.own(rng, lo, top)
            if kind == "Premiums" and ("policy" in op["m"] or "loss" in op["m"] or op["m"].startswith("L_")):
                continue
            out.append(op)
        return out

    def own(self, rng, lo, hi):
        m = rng.choice(OWN)
        x = rng.randrange(lo, hi)
        s = rng.choice([0, 0, 1, 3, 2.5])
        t = rng.choice([0, 0.5, 1, 2.25, 7])
        if m in ("S", "f"):
            a, kw = [x, s, t], {}
        elif m in ("mu", "l"):
            a, kw = [x, s], {}
        elif m in ("f_x", "mu_x"):
            a, kw = [], dict(x=x, s=int(s), t=int(t))
        elif m in ("l_x", "d_x"):
            a, kw = [], dict(x=x, s=int(s))
        elif m == "interest.v_t":
            a, kw = [t], {}
        elif m == "interest.annuity":
            a, kw = [], dict(t=rng.choice([1, 4, 10]))
            if rng.random() < 0.6:
                kw["m"] = rng.choice([0, 1, 4, 12])
            if rng.random() < 0.6:
                kw["due"] = rng.random() < 0.5
            if rng.random() < 0.2:
                kw.pop("t")
        else:
            a, kw = [], {}
        return dict(op="ask", id="a", m=m, a=a, kw=kw)

    def execute(self, case):
        return c09.run(case)

    def judge(self, case, rec, oracle):
        out = []
        law = i = None
        forms, hi, lo, vt = set(), 100, 0, False
        new = case["ops"][0]
        kind = new["kind"]
        udd = new["kw"].get("udd", True)
        if "law" in new:
            law = Law(*new["law"])
            hi = new["law"][1] if law.end(0) else 100
            forms = {"S", "mu"} | ({"l", "f"} if law.end(0) else set())

        def stat(name):
            rec["stats"][name] = rec["stats"].get(name, 0) + 1
        for k, what, m, got, fired in rec["log"]:
            op = case["ops"][k]
            if what == "new":
                continue
            if what == "do":
                if got[0] == "raise":
                    if not fired and not op.get("void"):
                        out.append(dict(cls="load-raised", detail="op %d: %s%s raised %s" % (k, m, c09.jkey(op["kw"]), got[1])))
                    continue
                stat("assumptions accepted")
                if m == "set_interest":
                    vt = "v_t" in op["kw"]
                    i = op["kw"]["v_t"]["$fn"][1] if vt else effective_i(op["kw"])
                elif "law" not in op:
                    law = None
                else:
                    law, forms = Law(*op["law"]), set(op["kw"]) & set("lSmuf") | ({"mu"} & set(op["kw"]))
                    hi, lo = op["kw"]["maxage"], op["kw"].get("minage", 0)
                continue
            if law is None or i is None or fired and got[0] == "raise":
                continue
            want = worth(m, op, law, forms, i, vt, lo, hi, udd, kind)
            if want is None or got[0] == "raise" and vt:
                continue
            bad = c09.lookup(op, got, want, rec)
            if bad:
                out.append(dict(cls="wrong-answer", detail="op %d: %s" % (k, bad)))
        return out

    def nontrivial(self, case, rec):
        return rec["stats"].get("probe:values compared", 0) >= 6 and rec["stats"].get("assumptions accepted", 0) >= 1


def worth(m, op, law, forms, i, vt, lo, hi, udd, kind):
    """(value, scale) of the question under the law and the interest, or None: not determined."""
    v = 1 / (1 + i)
    if m.startswith("interest."):
        n = m[9:]
        if n == "v_t":
            return v ** op["a"][0], 0
        if vt or i == 0 and n == "annuity":
            return None
        d, delta = i * v, math.log(1 + i)
        if n == "annuity":
            f, due, t = op["kw"].get("m", 1), op["kw"].get("due", True), op["kw"].get("t")
            rate = delta if f == 0 else f * (1 - v ** (1 / f)) if due else f * ((1 + i) ** (1 / f) - 1)
            return (1 if t is None else 1 - v ** t) / rate, 0
        return dict(i=i, d=d, v=v, delta=delta)[n], 1
    if m in c18.GIVEN:
        return None if vt else c18.given(m, op["kw"], i)
    kw = c09.args(op)
    x, s, t = kw.get("x", hi), kw.get("s", 0), kw.get("t", 1)
    end = law.end(x)
    direct = bool(forms & {"mu", "f"})
    smooth = lambda z: end is None or z + 1.01 < end                # a density had by differentiation
    if end is not None and x + s >= end - 1e-9:
        return None
    l = lambda k: law.S(x, 0, k - x)
    if m in ("S", "f", "mu", "l", "f_x", "mu_x", "l_x", "d_x"):
        if m in ("f_x", "mu_x"):
            t = op["kw"].get("t", 0)
        if m == "l_x" or m == "d_x" or m == "l":
            if kind in PARAMETRIC:
                return None
            if "l" in forms:
                base = 1000.0 if law.name != "unif" else law.p[0]
                f = lambda k: base * law.l(x, k)
            elif m == "l" or law.name == "sel" or x < lo:
                return None
            else:
                f = lambda k: 100000.0 * law.S(lo, 0, x + k - lo)
            return (f(s) - f(s + 1) if m == "d_x" else f(s)), f(s)
        if m == "S":
            return law.S(x, s, t), 0
        at = x + s + (t if m != "mu" else 0)
        if not direct and not smooth(at) or end is not None and at >= end - 1e-9 or law.S(x, 0, at - x) < 1e-9 or law.mu(x, at - x) > 1 and "mu" not in forms:
            return None
        if m in ("f", "f_x"):
            return law.f(x, s, t), 1
        return law.mu(x, s + t if m == "mu_x" else s), 1
    if m in ("mu_r", "l_r", "p_r", "q_r", "f_r", "E_r", "e_r"):
        if kind in PARAMETRIC:
            return exact(m, kw, law, i, hi)
        if law.name == "sel" and "l" not in forms or x < lo:
            return None
        if m == "l_r":
            return None
        if law.S(x, 0, max(0, min(hi, x + s + kw.get("r", 0) + t + kw.get("u", 0) + 1) - x)) < 1e-4 and m != "e_r":
            return None
        return c09.value(m, kw, l, udd, i, hi)[2]
    if m == "e_x" and not kw.get("curtate", kind not in ("ConstantForce", "Uniform", "Beta")):
        return complete(kw, law, hi, end)
    if m in ("p_x", "q_x", "e_x", "E_x"):
        if m == "e_x" and "n" in kw:
            kw["t"] = kw.pop("n")
        if m == "e_x":
            kw["curtate"] = True
        return c09.value(m, kw, l, True, i, hi)[2]
    if kind == "Uniform" and m == "term_insurance":
        kw.setdefault("discrete", False)
    con = kw.get("discrete") is False or "contract" in kw and kw["contract"]["$c"].get("discrete") is False
    if m in c22.RV:
        return c22.rv(m, kw, l, True, i, hi, law)[2]
    if m in ("Z_x", "Y_x") and con or con and m in c22.NOT:
        return None
    if con and end is not None and kind not in PARAMETRIC and (not direct or x + s + kw.get("u", 0) + max(kw.get("t") or 1, kw.get("n", 1)) + 1.01 > end):
        return None
    w = c18.price(m, kw, l, True, i, hi, law)[2]
    return w if w is None or not con else (w[0], 20 * max(1, w[1]))


def complete(kw, law, hi, end):
    t = kw.get("t", kw.get("n"))
    x, s = kw["x"], kw.get("s", 0)
    if end is not None and x + s >= end:
        return None
    T = hi - x - s if t is None else t
    if x + s + T > hi or t is None and law.S(x, s, T) > 1e-9:
        return None
    k = kw.get("moment", 1)
    e = e2 = 0.0
    for j in range(math.ceil(T)):
        h = min(1.0, T - j)
        for z, w in c18.GAUSS:
            p = law.S(x, s, j + z * h)
            e += w * h * p
            e2 += w * h * 2 * (j + z * h) * p
    return {1: e, 2: e2, -2: e2 - e * e}[k], 1 if k == 1 else 100 * max(1, e2)


def exact(m, kw, law, i, hi):
    x, s, t, u, r = kw["x"], kw.get("s", 0), kw.get("t", 1), kw.get("u", 0), kw.get("r", 0)
    y = s + r
    end = law.end(x)
    if end is not None and x + y + t + u >= end - 1e-9:
        return None
    if m == "l_r":
        return None
    if m == "p_r":
        return law.S(x, y, t), 0
    if m == "q_r":
        return law.S(x, y, u) - law.S(x, y, u + t), 1
    if m == "E_r":
        return (1 + i) ** -t * law.S(x, y, t), 0
    if m == "mu_r":
        return law.mu(x, y), 1
    if m == "f_r":
        return law.f(x, y, kw.get("t", 0)), 1
    return complete(dict(kw, s=y), law, hi, end)


CHECK = C24()
