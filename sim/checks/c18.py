"""C18: what a life table prices is the sum over its mortality at the interest in force."""
import math
from ..fns import MAKERS
from .. import loads
from . import c09, c10


BEN = [["b_const", 1], ["b_age", 10, 0.5], ["b_const", 1000], ["b_lin", 10, 2], ["b_cut", 3, 100]]
_R = [(0.1834346424956498, 0.3626837833783620), (0.5255324099163290, 0.3137066458778873), (0.7966664774136267, 0.2223810344533745), (0.9602898564975363, 0.1012285362903763)]
GAUSS = [(0.5 + s * z / 2, w / 2) for z, w in _R for s in (-1, 1)]
ONE = ["whole_life_insurance", "term_insurance", "deferred_insurance", "endowment_insurance", "increasing_insurance", "decreasing_insurance", "A_x", "Z_x", "Y_x",
       "whole_life_annuity", "temporary_annuity", "deferred_annuity", "certain_life_annuity", "immediate_annuity", "increasing_annuity", "decreasing_annuity", "a_x",
       "net_premium", "net_premium", "net_policy_value", "net_policy_value", "gross_policy_value", "gross_policy_value", "net_policy_variance", "gross_policy_variance"]
GIVEN = ["annuity_twin", "insurance_twin", "annuity_variance", "insurance_variance", "premium_equivalence", "insurance_equivalence", "annuity_equivalence", "gross_premium",
         "net_future_loss", "net_variance_loss", "gross_future_loss", "gross_variance_loss"]
COSTS = dict(initial_policy=3.0, initial_premium=0.4, renewal_policy=0.7, renewal_premium=0.05, settlement_policy=0.25)


NODISC = ("insurance_variance", "net_future_loss", "net_variance_loss")


def gen_given(rng):
    """A question answered from values given and the interest in force alone."""
    m = rng.choice(GIVEN)
    A, a, b = rng.choice([0.1, 0.35, 0.6]), rng.choice([2.5, 6, 11]), rng.choice([1, 1000, 250.5])
    kw = {}
    some = lambda p=0.5, **k: kw.update({c: v for c, v in k.items() if rng.random() < p})
    either = lambda: kw.update(rng.choice([dict(A=A), dict(a=a), dict(A=A, a=a)]))
    if m == "annuity_twin":
        kw["A"] = A
    elif m == "insurance_twin":
        kw["a"] = a
    elif m in ("annuity_variance", "insurance_variance"):
        kw.update(A1=A, A2=A * A + rng.choice([0.01, 0.07]))
        some(b=b)
    elif m == "premium_equivalence":
        either()
        some(b=b)
    elif m in ("insurance_equivalence", "annuity_equivalence"):
        kw["premium"] = b * rng.choice([0.02, 0.2])
        some(b=b)
    elif m == "gross_premium":
        either()
        some(benefit=b, IA=rng.choice([0.3, 0.9]), **COSTS)
        if rng.random() < 0.4:
            kw.update(E=rng.choice([0.2, 0.7]), endowment=rng.choice([1, 50]))
    elif m == "net_future_loss":
        kw.update(A=A, A1=A + rng.choice([0.0, 0.2]))
        some(b=b)
    elif m == "net_variance_loss":
        kw.update(A1=A + 0.05, A2=(A + 0.05) ** 2 + rng.choice([0.01, 0.07]))
        some(A=A, b=b)
    else:
        c = {}
        for k, v in dict(COSTS, premium=b * 0.1, benefit=b).items():
            if rng.random() < 0.6:
                c[k] = v
        if m == "gross_future_loss":
            either()
        else:
            kw.update(A1=A, A2=A * A + rng.choice([0.01, 0.07]))
        if c or rng.random() < 0.5:
            kw["contract"] = {"$c": c}
    return dict(op="ask", id="a", m=m, a=[], kw=kw)


def given(m, kw, i):
    """(value, scale) under the equivalence principle at interest i, or None."""
    con = kw.get("discrete") is False or kw.get("contract", {"$c": {}})["$c"].get("discrete") is False
    d = math.log(1 + i) if con else i / (1 + i)
    A, a, b = kw.get("A"), kw.get("a"), kw.get("b", 1)
    A1, A2 = kw.get("A1"), kw.get("A2")
    if i == 0 and m not in ("insurance_variance", "insurance_equivalence", "annuity_equivalence", "net_future_loss", "net_variance_loss") and (A is None or a is None):
        return None
    if m == "gross_future_loss" or m == "gross_premium":
        A, a = 1 - d * a if A is None else A, (1 - A) / d if a is None else a
    if m == "annuity_twin":
        w = (1 - A) / d
    elif m == "insurance_twin":
        w = 1 - d * a
    elif m == "annuity_variance":
        w = b * b * (A2 - A1 * A1) / d ** 2
    elif m == "insurance_variance":
        w = b * b * (A2 - A1 * A1)
    elif m == "premium_equivalence":
        w = b * (d * A / (1 - A) if a is None else (1 - d * a) / a if A is None else A / a)
    elif m == "insurance_equivalence":
        w = kw["premium"] / (kw["premium"] + d * b)
    elif m == "annuity_equivalence":
        w = b / (kw["premium"] + d * b)
    elif m == "net_future_loss":
        w = b * (A1 - A) / (1 - A)
    elif m == "net_variance_loss":
        w = b * b * (A2 - A1 * A1) / (1 - (A or A1)) ** 2
    else:
        c = dict({k: 0 for k in COSTS}, premium=1, benefit=1)
        c.update(kw.get("contract", {"$c": kw})["$c"])
        claims, g, r = c["benefit"] + c["settlement_policy"], c["initial_premium"], c["renewal_premium"]
        fixed = c["initial_policy"] + c["renewal_policy"] * (a - 1) if a is not None else 0
        if m == "gross_premium":
            # G a = claims + fixed costs + G (g + r (a - 1)) + G IA + endowment
            bot = a - g - r * (a - 1) - kw.get("IA", 0)
            if abs(bot) < 0.05:
                return None
            w = (A * claims + fixed + kw.get("E", 0) * kw.get("endowment", 0)) / bot
        elif m == "gross_future_loss":
            w = A * claims + fixed + c["premium"] * (g + r * (a - 1)) - c["premium"] * a
        else:
            w = (A2 - A1 * A1) * (claims + (c["premium"] * (1 - r) - c["renewal_policy"]) / d) ** 2
    return w, abs(w)


class C18(c09.C09):
    id = "C18"
    quick_runs = 2000
    thorough_runs = 50000
    rule = ("a run loads one mortality into a life table as in C09 (any split, order, repeats, interrupted and refused attempts; or SULT from a survival function), changes interest in "
            "between, and asks for discrete insurances, annuities, premiums and policy values (moments, variances, terms, deferrals, benefit functions, contracts); each is compared "
            "with the sum over the mortality at the interest in force; non-trivial: at least two loads and 6 values compared")
    assumptions = ["as C09; whole-life questions are judged only when the table reaches an age nobody survives",
                   "annuity variances and the premium identities that divide by the rate of interest are not asked at zero interest"]

    def asks(self, rng, lo, hi, n):
        out = []
        for _ in range(n):
            if rng.random() < 0.15:
                op = gen_given(rng)
                if op["m"] not in NODISC and rng.random() < 0.4:
                    if op["m"].startswith("gross_") and op["m"] != "gross_premium":
                        op["kw"].setdefault("contract", {"$c": {}})["$c"]["discrete"] = False
                    else:
                        op["kw"]["discrete"] = rng.random() < 0.3
                out.append(op)
                continue
            m = rng.choice(ONE)
            x = rng.randrange(lo, hi)
            s = min(rng.choice([0, 0, 1, 2]), hi - 1 - x)
            kw = dict(x=x)
            if s or rng.random() < 0.2:
                kw["s"] = s
            room = hi - x - s
            t = rng.randint(1, room)
            whole = rng.random() < 0.25
            u = rng.randint(0, room - t) if rng.random() < 0.7 else 0
            some = lambda **k: kw.update({a: v for a, v in k.items() if rng.random() < 0.5})
            if m in ("Z_x", "Y_x"):
                kw["t"] = t - 1 + rng.choice([0, 0, 0.5])
            elif m in ("A_x", "a_x"):
                if not whole:
                    kw["t"] = t
                some(u=u if not whole else rng.randint(0, room - 1), benefit={"$fn": rng.choice(BEN)})
                if m == "A_x":
                    some(moment=rng.choice([1, 2]))
                    if not whole and "moment" not in kw:
                        some(endowment=rng.choice([1, 50]))
            elif m.endswith("insurance"):
                some(b=rng.choice([1, 1000, 2.5]))
                if m != "whole_life_insurance" and not (whole and m in ("deferred_insurance", "increasing_insurance")):
                    kw["t"] = t
                if m == "deferred_insurance":
                    kw["u"] = u if "t" in kw else rng.randint(0, room - 1)
                if m == "endowment_insurance":
                    some(endowment=rng.choice([0, 1, 500]))
                if not m.startswith(("inc", "dec")):
                    some(moment=rng.choice([1, 2, -2]))
            elif m.endswith("annuity"):
                some(b=rng.choice([1, 1000, 2.5]))
                if m != "whole_life_annuity" and not (whole and m != "decreasing_annuity"):
                    kw["t"] = t
                if m in ("deferred_annuity", "certain_life_annuity"):
                    kw["u"] = u if "t" in kw else rng.randint(0, room - 1)
                if m in ("whole_life_annuity", "temporary_annuity", "immediate_annuity") and rng.random() < 0.4:
                    kw["variance"] = True
            elif m == "net_premium":
                if not whole:
                    kw["t"] = t
                some(b=rng.choice([1, 1000]), initial_cost=rng.choice([0.5, 20]))
                r = rng.random()
                if r < 0.3:
                    kw["n"] = rng.randint(1, t)
                elif r < 0.5 and u:
                    kw["u"] = u
                if rng.random() < 0.2:
                    kw["annuity"] = True
                elif not whole:
                    some(endowment=rng.choice([1, 1000]))
                if rng.random() < 0.2:
                    kw["return_premium"] = True
            else:
                if not whole:
                    kw["n"] = t
                kw["t"] = rng.randint(0, t - 1)
                if m.startswith("net"):
                    some(b=rng.choice([1, 1000]))
                    if m == "net_policy_variance":
                        kw["endowment"] = kw.get("b", 1)
                    else:
                        some(endowment=rng.choice([0, kw.get("b", 1), 3]))
                else:
                    b = rng.choice([1, 1000, 250.5])
                    c = dict(premium=rng.choice([0.02, 0.3, 40]), benefit=b)
                    for k, v in dict(initial_policy=3.0, initial_premium=0.4, renewal_policy=0.7, renewal_premium=0.05, settlement_policy=0.25).items():
                        if rng.random() < 0.5:
                            c[k] = v
                    if m == "gross_policy_variance" or rng.random() < 0.3:
                        c["endowment"] = c["benefit"] + c.get("settlement_policy", 0)
                    elif rng.random() < 0.5:
                        c["endowment"] = rng.choice([1, 50])
                    kw["contract"] = {"$c": c}
            out.append(dict(op="ask", id="a", m=m, a=[], kw=kw))
        return out

    value = staticmethod(lambda *a: price(*a))

    def generate(self, rng, tier):
        if rng.random() >= 0.3:
            return super().generate(rng, tier)
        basis = loads.sel_basis(rng)
        ref = loads.SelRef(basis)
        verbose = rng.random() < 0.3
        rate = lambda i: dict(op="do", id="a", m="set_interest", kw=dict(i=i))
        hist = loads.sel_loads(rng, basis, fault_p=rng.choice([0, 0.2]), verbose=verbose)
        plain = not any(c in op.get("kw", {}) for op in hist for c in "Aa")
        ops = [dict(op="new", id="a", kind="SelectLife", kw=dict(periods=basis["n"], udd=rng.random() < 0.5, verbose=verbose)), rate(basis["i"])]
        for op in hist:
            if op["op"] != "point":
                ops.append(op)
                continue
            ops += self.sel_asks(rng, ref, rng.choice([0, 2, 4]))
            if plain and rng.random() < 0.3:          # values loaded into the table are values at one rate
                ops.append(rate(rng.choice([0.0, 0.004, 0.03, 0.11, 0.3])))
        return dict(ops=ops + self.sel_asks(rng, ref, 14), basis=basis, select=True)

    def sel_asks(self, rng, ref, n):
        out = []
        while len(out) < n:
            for op in self.asks(rng, ref.lo, ref.hi + ref.n, 1):
                kw = op["kw"]
                if op["m"] in GIVEN:
                    out.append(op)
                    continue
                if kw["x"] > ref.hi:
                    kw.update(s=kw.get("s", 0) + kw["x"] - ref.hi, x=ref.hi)
                kw.pop("moment", None)
                kw.pop("variance", None)
                if op["m"].endswith("_variance") or op["m"] not in select_price.asked:
                    continue
                out.append(op)
        return out

    def judge(self, case, rec, oracle):
        if "select" in case:
            return c10.judge(case, rec, select_price)
        return super().judge(case, rec, oracle)


def select_price(m, kw, ref, known, i, hi):
    """What the question is worth on a select table whose known entries are these, rows up to hi; None: not determined (or not held to it)."""
    if m in GIVEN:
        return given(m, kw, i)
    x, s = kw["x"], kw.get("s", 0)
    if hi is None:
        return None
    end = hi + ref.n
    cells = [ref.wrap(x, k) for k in range(s, end - x + 1)]
    if not cells or cells[-1][0] > hi or s + x > end or (known["A"] or known["a"]) and i != ref.i or s + x + kw.get("u", 0) + max(kw.get("t", 0), kw.get("n", 0)) > end:
        return None
    col = lambda c: all(y in known[c] for y in cells) or (None if not any(y in known[c] for y in cells) else "part")
    A, a = col("A"), col("a")
    if m == "whole_life_insurance" or m == "A_x" and set(kw) <= {"x", "s"}:
        return (kw.get("b", 1) * ref.val("A", *ref.wrap(x, s)), kw.get("b", 1)) if cells[0] in known["A"] else None
    if m == "whole_life_annuity" or m == "a_x" and set(kw) <= {"x", "s"}:
        b = kw.get("b", 1)
        if cells[0] in known["a"]:
            return b * ref.val("a", *ref.wrap(x, s)), 20 * b
        if m == "whole_life_annuity" and cells[0] in known["A"] and i > 0:
            return b * (1 - ref.val("A", *ref.wrap(x, s))) * (1 + i) / i, 20 * b
        return None
    if "part" in (A, a) or i == 0 and (col("e") == "part" or not a and A):
        return None
    if not all(y in known["q"] for y in cells[:-1]) or i == 0 and cells[-1] not in known["q"] or not all(y in known["l"] for y in cells):
        return None
    return price(m, kw, lambda k: ref.l(x, k - x), True, i, end)[2]


select_price.asked = {m for m in ONE if "variance" not in m} | set(GIVEN)


def price(m, kw, l, udd, i, hi, law=None):
    if m in GIVEN:
        return 0, [0] if hi is None else [hi], given(m, kw, i)
    kw = dict(kw)
    x, s = kw.pop("x"), kw.pop("s", 0)
    y, v = x + s, 1 / (1 + i)
    con = "contract" in kw and kw["contract"]["$c"].get("discrete") is False or kw.pop("discrete", True) is False     # paid at once, or continuously
    d = math.log(1 + i) if con else 1 - v
    ages = range(y, hi + 1)
    base = l(y)
    if base <= 0:
        return y, [y], None
    ended = l(hi) <= 1e-9 * base
    reach = [y]

    def P(k, at=0):
        reach.append(y + at + k)
        return l(y + at + k) / l(y + at)

    def T(t, at=0):
        return hi - y - at if t < 0 else t

    def year(g, u, t, at):                            # integral, year by year, of g(whole years, fraction, surviving, dying)
        out = 0.0
        for k in range(u, u + t):
            p0, p1 = P(k, at), P(k + 1, at)
            for z, w in GAUSS:
                if law:
                    p = p0 * law.S(x, s + at + k, z)
                    out += w * g(k, z, p, p and p * law.mu(x, s + at + k + z))
                    continue
                p = p0 + z * (p1 - p0) if udd else p0 * (p1 / p0) ** z
                out += w * g(k, z, p, p0 - p1 if udd else -p * math.log(p1 / p0))
        return out

    def A(t=-1, u=0, b=1, e=0, mom=1, at=0, ben=None):
        t = T(t, at + u) if t < 0 else t
        ben = ben or (lambda k: b)
        if con:
            end = (e * v ** (u + t)) ** mom * P(u + t, at) if e else 0
            return year(lambda k, h, p, f: (ben(k + h) * v ** (k + h)) ** mom * f, u, t, at) + end
        out = sum((ben(k + 1) * v ** (k + 1)) ** mom * (P(k, at) - P(k + 1, at)) for k in range(u, u + t))
        return out + ((e * v ** (u + t)) ** mom * P(u + t, at) if e else 0)

    def a(t=-1, u=0, b=1, at=0, ben=None):
        t = T(t, at + u) if t < 0 else t
        ben = ben or (lambda k: b)
        if con:
            return year(lambda k, h, p, f: ben(k + h) * v ** (k + h) * p, u, t, at)
        return sum(ben(k) * v ** k * P(k, at) for k in range(u, u + t))

    def a_var(t, b):                                  # variance of the present value of b a year while alive, at most t years
        t = T(t)
        if con:
            A1, A2 = A(t, 0, 1, 1), A(t, 0, 1, 1, 2)
            return (A2 - A1 * A1) * (b / d) ** 2, (b / d) ** 2
        y1 = y2 = 0.0
        for k in range(t):
            q = P(k) - P(k + 1) if k < t - 1 else P(k)
            z = b * sum(v ** j for j in range(k + 1))
            y1, y2 = y1 + q * z, y2 + q * z * z
        return y2 - y1 * y1, y2
    t, u, b = kw.pop("t", None), kw.pop("u", 0), kw.pop("b", 1)
    mom = kw.pop("moment", 1)
    w, scale = None, abs(b)
    whole = t is None and m != "term_insurance" and m != "endowment_insurance" and not m.startswith(("net", "gross"))
    n = -1 if t is None else t
    fn = MAKERS[kw["benefit"]["$fn"][0]](*kw["benefit"]["$fn"][1:]) if "benefit" in kw else None
    if whole and not ended or con and not udd and any(l(k + 1) < 1e-4 * l(k) for k in ages[:-1]):
        return y, ages, None
    if m in ("Z_x", "Y_x"):
        k = math.floor(t)
        if con:
            p0, p1, h = P(k), P(k + 1), t - k
            p = p0 + h * (p1 - p0) if udd else p0 * (p1 / p0) ** h
            if h < 1e-9 and m == "Z_x":               # the density jumps
                return y, ages, None
            w = v ** t * ((p0 - p1 if udd else -p * math.log(p1 / p0)) if m == "Z_x" else p)
            return y, ages, (w, 1)
        w = v ** (k + 1) * (P(k) - P(k + 1)) if m == "Z_x" else v ** k * P(k)
    elif m == "A_x":
        w = A(n, u, 1, kw.get("endowment", 0), mom, ben=fn and (lambda k: fn(x + s, k)))
        scale = 1e4
    elif m == "a_x":
        w, scale = a(n, u, 1, ben=fn and (lambda k: fn(x + s, k))), 1e4
    elif m in ("whole_life_insurance", "term_insurance", "deferred_insurance", "endowment_insurance"):
        e = 0
        if m == "endowment_insurance":
            e = kw.get("endowment", b)
        f = lambda k: A(n, u, b, e, k)
        w = f(2) - f(1) ** 2 if mom == -2 else f(mom)
        scale = max(b, e) ** (1 if mom == 1 else 2)
    elif m == "increasing_insurance":
        w, scale = A(n, ben=lambda k: k * b), 20 * b
    elif m == "decreasing_insurance":
        w, scale = A(n, ben=lambda k: (n + (not con) - k) * b), 20 * b
    elif m == "increasing_annuity":
        w, scale = a(n, ben=lambda k: (k + 1) * b), 100 * b
    elif m == "decreasing_annuity":
        w, scale = a(n, ben=lambda k: (n - k) * b), 100 * b
    elif m in ("whole_life_annuity", "temporary_annuity", "immediate_annuity") and kw.get("variance"):
        if i == 0:
            return y, ages, None
        if m == "immediate_annuity" and n >= 0:
            n += 1
            if n > hi - y:
                return y, ages, None
        w, scale = a_var(n, b)
        scale = max(scale, (b / d) ** 2)
    elif m in ("whole_life_annuity", "temporary_annuity", "deferred_annuity"):
        w, scale = a(n, u, b), 20 * b
    elif m == "immediate_annuity":
        k = T(n)
        w, scale = b * sum(v ** j * P(j) for j in range(1, k + 1)), 20 * b
    elif m == "certain_life_annuity":
        if i == 0:
            return y, ages, None
        w, scale = b * ((1 - v ** u) / d if con else sum(v ** j for j in range(u))) + a(n, u, b), 20 * b
    elif m == "net_premium":
        n = -1 if t is None else t
        if kw.get("annuity"):
            top = a(n, u, b)
        else:
            top = A(n, u, b) + (kw["endowment"] * v ** (u + n) * P(u + n) if kw.get("endowment") else 0)
        pay = kw.get("n", 0) or u or n
        bot = a(pay)
        if kw.get("return_premium"):
            bot -= A(pay, ben=lambda k: k)
        if (t is None and not ended) or pay < 0 and not ended or abs(bot) < 0.05:
            return y, ages, None
        w = (top + kw.get("initial_cost", 0)) / bot
        scale = 20 * (b + kw.get("endowment", 0) + kw.get("initial_cost", 0)) / abs(bot)
    elif m in ("net_policy_value", "net_policy_variance"):
        t, n, e = t or 0, kw.get("n", -1), kw.get("endowment", 0)
        whole = n < 0
        if whole:
            e = 0
        elif m == "net_policy_variance" and e != b:
            return y, ages, None
        if whole and not ended or t >= T(n) or i == 0 and (whole or e == b) or l(y + t) <= 0:
            return y, ages, None
        prem = A(n, 0, b, e) / a(n)
        left = T(n) - t
        if m == "net_policy_value":
            w, scale = A(left, 0, b, e, at=t) - prem * a(left, at=t), 20 * max(b, e)
        else:
            A1, A2 = A(left, 0, 1, int(not whole), at=t), A(left, 0, 1, int(not whole), 2, at=t)
            w, scale = (A2 - A1 * A1) * (b + prem / d) ** 2, (b + prem / d) ** 2
    elif m in ("gross_policy_value", "gross_policy_variance"):
        c = dict(premium=1, benefit=1, endowment=0, initial_policy=0, initial_premium=0, renewal_policy=0, renewal_premium=0, settlement_policy=0)
        c.update(kw["contract"]["$c"])
        t, n = t or 0, kw.get("n", -1)
        whole = n < 0
        claims = c["benefit"] + c["settlement_policy"]
        e = 0 if whole else c["endowment"]
        if whole and not ended or t >= T(n) or i == 0 or l(y + t) <= 0:
            return y, ages, None
        left = T(n) - t
        profit = c["premium"] * (1 - c["renewal_premium"]) - c["renewal_policy"]
        if m == "gross_policy_value":
            w = A(left, 0, claims, e, at=t) - profit * a(left, at=t)
            if t == 0:
                w += c["initial_policy"] - c["renewal_policy"] + c["premium"] * (c["initial_premium"] - c["renewal_premium"])
            scale = 20 * (claims + e + abs(profit))
        else:
            if not whole and e != claims:
                return y, ages, None
            A1, A2 = A(left, 0, 1, int(not whole), at=t), A(left, 0, 1, int(not whole), 2, at=t)
            w, scale = (A2 - A1 * A1) * (claims + profit / d) ** 2, (claims + profit / d) ** 2
    if max(reach) > hi or w is None:
        return y, ages, None
    return y, ages, (w, scale)


CHECK = C18()
