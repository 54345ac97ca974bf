"""C22: continuous values, times and percentiles are those of the mortality and interest in force."""
import math
from .. import loads
from . import c18

RV = ["Z_from_t", "Y_from_t", "Z_to_t", "Y_to_t", "Z_to_prob", "Y_to_prob", "Z_t", "Y_t", "Z_from_prob", "Y_from_prob", "L_from_t", "L_from_prob", "L_to_t", "L_to_prob"]
NOT = ("immediate_annuity", "increasing_annuity", "decreasing_annuity")


def gen_contract(rng, discrete):
    b = rng.choice([1, 1000, 250.5])
    c = dict(premium=b * rng.choice([0.02, 0.1, 0.4]), benefit=b)
    if not discrete or rng.random() < 0.7:
        c["discrete"] = discrete
    for k, v in dict(initial_policy=3.0, initial_premium=0.4, renewal_policy=0.7 * b / 1000, renewal_premium=0.05, settlement_policy=0.25).items():
        if rng.random() < 0.4:
            c[k] = v
    return {"$c": c}


class C22(c18.C18):
    id = "C22"
    quick_runs = 3000
    thorough_runs = 50000
    rule = ("a run loads one mortality into a life table as in C09 (any split, order, repeats, interrupted and refused attempts; or SULT from a survival function), changes interest in "
            "between, and asks for continuous insurances, annuities, premiums and policy values, and for present values from times and probabilities and back; each is compared with "
            "integrals over, and inverses of, the mortality at the interest in force; non-trivial: at least two loads and 6 values compared")
    assumptions = ["as C18; continuous increasing and decreasing annuities are not asked (what they pay is not documented)",
                   "percentiles are asked only where they fall inside the table, curtate ones only where the time is not within 1e-4 of a whole year"]
    mixed = False

    def generate(self, rng, tier):
        case = c18.c09.C09.generate(self, rng, tier)
        if "basis" in case:
            ref = loads.LTRef(case["basis"])
            for op in case["ops"]:
                if op["op"] == "ask" and "prob" in op["kw"] and rng.random() < 0.4:        # about the turn of a year
                    x = op["kw"]["x"]
                    t = rng.randint(1, ref.hi - x) - rng.choice([0.003, 0.03, 0.0005, -0.003, 0.5])
                    k = math.floor(t)
                    if x + k >= ref.hi:
                        continue
                    p = (ref.l(x + k) + (t - k) * (ref.l(x + k + 1) - ref.l(x + k))) / ref.l(x)
                    op["kw"]["prob"] = 1 - p if op["m"][0] == "Y" else p
        return case

    def asks(self, rng, lo, hi, n):
        out = []
        while len(out) < n:
            if rng.random() < 0.5:
                out.append(self.rv(rng, lo, hi))
                continue
            for op in super().asks(rng, lo, hi, 1):
                if op["m"] in NOT or op["m"] in c18.NODISC:
                    continue
                if op["m"].startswith("gross_") and op["m"] != "gross_premium":
                    op["kw"].setdefault("contract", {"$c": {}})
                    op["kw"]["contract"]["$c"]["discrete"] = False
                else:
                    op["kw"]["discrete"] = False
                if op["m"] in ("Z_x", "Y_x"):
                    op["kw"]["t"] += rng.choice([0, 0.25])
                out.append(op)
        return out

    def rv(self, rng, lo, hi):
        m = rng.choice(RV)
        kw = {}
        d = rng.random() < 0.5
        t = rng.choice([0.0, 0.5, 1.25, 2.75, 4.0, 7.5])
        if m in ("Z_from_t", "Y_from_t"):
            kw = dict(t=t, discrete=d)
        elif m == "L_from_t":
            kw = dict(t=t, contract=gen_contract(rng, d))
        elif m in ("Z_to_t", "Z_to_prob"):
            kw = dict(Z=rng.choice([0.97, 0.9, 0.8, 0.7]))
        elif m in ("Y_to_t", "Y_to_prob"):
            kw = dict(Y=rng.choice([0.5, 1.5, 2.9, 4.0]))
        elif m in ("Z_t", "Y_t", "Z_from_prob", "Y_from_prob"):
            kw = dict(prob=rng.choice([0.95, 0.8, 0.6, 0.5, 0.3, 0.1]), discrete=d)
        elif m == "L_from_prob":
            kw = dict(prob=rng.choice([0.95, 0.8, 0.6, 0.5, 0.3, 0.1]), contract=gen_contract(rng, d))
        else:
            c = gen_contract(rng, False)
            b = c["$c"]["benefit"]
            c["$c"]["premium"] = b * rng.choice([0.1, 0.1, 0.05, 0.02])
            kw = dict(L=b * rng.choice([0.8, 0.6, 0.4, 0.2, 0.1]) + c["$c"].get("initial_policy", 0) * rng.choice([0, 1]), contract=c)
        if kw.get("discrete") and rng.random() < 0.3:
            kw.pop("discrete")
        if m in ("L_from_t", "L_from_prob") and rng.random() < 0.4:
            kw["contract"]["$c"]["T"] = rng.choice([1, 2, 4, 6])
            if rng.random() < 0.7:
                kw["contract"]["$c"]["endowment"] = rng.choice([1, 77, 250.5])
        if m.endswith("_prob") or m in ("Z_t", "Y_t"):
            kw["x"] = rng.randrange(lo, hi)
        return dict(op="ask", id="a", m=m, a=[], kw=kw)

    value = staticmethod(lambda m, kw, l, udd, i, hi: rv(m, kw, l, udd, i, hi) if m in RV else loose(c18.price(m, kw, l, udd, i, hi)))


def loose(w):
    """Room for numerical integration over the table's kinks."""
    return w if w[2] is None else (w[0], w[1], (w[2][0], 20 * max(1, w[2][1])))


def rv(m, kw, l, udd, i, hi, law=None):
    x = kw.get("x", hi)
    v = 1 / (1 + i)
    delta = math.log(1 + i)
    need = range(x, hi + 1) if "x" in kw else [hi]
    D = (kw["contract"]["$c"] if "contract" in kw else kw).get("discrete", m not in ("Z_to_t", "Y_to_t", "Z_to_prob", "Y_to_prob"))
    if "x" in kw and (l(x) <= 0 or not udd and any(l(k + 1) < 1e-4 * l(k) for k in range(x, hi))):
        return x, need, None

    def Z(t):
        return v ** (math.floor(t) + 1 if D else t)

    def Y(t):
        n = math.floor(t) + 1 if D else t
        return n if i == 0 else (1 - v ** n) / (1 - v if D else delta)

    def S(t):
        if law:
            return law.S(x, 0, t) if t >= 0 else 1.0
        k = math.floor(t + 1e-9)
        if t < 0:
            return 1.0
        if x + k >= hi:
            return l(hi) / l(x) if t <= hi - x else None
        h = t - k
        p0, p1 = l(x + k) / l(x), l(x + k + 1) / l(x)
        return p0 + h * (p1 - p0) if udd else p0 * (p1 / p0) ** h

    def inv(p):                                        # time when survival falls to p
        if law:
            a, b = 0.0, float(hi - x)
            if not law.S(x, 0, b) < p < 1:
                return None
            for _ in range(80):
                t = (a + b) / 2
                a, b = (t, b) if law.S(x, 0, t) > p else (a, t)
            return t
        for k in range(hi - x):
            p0, p1 = l(x + k) / l(x), l(x + k + 1) / l(x)
            if p1 <= p <= p0 and p0 > p1:
                return k + ((p0 - p) / (p0 - p1) if udd else math.log(p / p0) / math.log(p1 / p0))

    def L(t):
        c = dict(T=-1, endowment=0, initial_policy=0, initial_premium=0, renewal_policy=0, renewal_premium=0, settlement_policy=0)
        c.update(kw["contract"]["$c"])
        profit = c["premium"] * (1 - c["renewal_premium"]) - c["renewal_policy"]
        first = c["initial_policy"] - c["renewal_policy"] + c["premium"] * (c["initial_premium"] - c["renewal_premium"])
        if 0 < c["T"] <= t:                            # survives the term
            return c["endowment"] * v ** c["T"] + first - profit * Y(c["T"] - D)
        return (c["benefit"] + c["settlement_policy"]) * Z(t) + first - profit * Y(t)
    big = kw["contract"]["$c"]["benefit"] * 20 if "contract" in kw else 1
    if m in ("Z_from_t", "Y_from_t", "L_from_t"):
        return x, need, (dict(Z=Z, Y=Y, L=L)[m[0]](kw["t"]), big)
    if m in ("Z_t", "Y_t", "Z_from_prob", "Y_from_prob", "L_from_prob"):
        t = inv(1 - kw["prob"] if m[0] == "Y" else kw["prob"])
        T = kw["contract"]["$c"].get("T", -1) if "contract" in kw else -1
        if t is None or abs(t - T) < 1e-4 or D and abs(t - round(t)) < 1e-4:
            return x, need, None
        if D:                                          # the library's convention: insurances round the time down, annuities up
            t = math.ceil(t) if m[0] == "Y" else math.floor(t)
        return x, need, (t if m.endswith("_t") else dict(Z=Z, Y=Y, L=L)[m[0]](t), big * (1 if D and m.endswith("_t") else 10))
    if i == 0 and m[0] == "Z":
        return x, need, None
    if m[0] == "Z":
        t = -math.log(kw["Z"]) / delta
    elif m[0] == "Y":
        if 1 - delta * kw["Y"] <= 1e-3:
            return x, need, None
        t = -math.log(1 - delta * kw["Y"]) / delta if i else kw["Y"]
    else:
        a, b = -200.0, 200.0                           # the loss falls as death is put off
        for _ in range(80):
            t = (a + b) / 2
            a, b = (t, b) if L(t) > kw["L"] else (a, t)
        if t < 0 or t > 60:
            return x, need, None
    if m.endswith("_t"):
        return x, need, (t, 20)
    if not law and abs(t - (hi - x)) < 1e-3 and l(hi) > 0:         # the table stops there, not the lives
        return x, need, None
    w = S(t)
    return x, need, w if w is None else (w if m[0] != "Y" else 1 - w, 20)


CHECK = C22()
