"""C21: a view prices its payments over the table's mortality and interest as they stand."""
import math
from ..fns import MAKERS
from . import c09, c18

MTH = {"Mthly": ["p_m", "q_m", "q_m", "Z_m", "v_m", "E_x", "A_x", "A_x", "whole_life_insurance", "term_insurance", "deferred_insurance", "endowment_insurance",
                 "whole_life_annuity", "temporary_annuity", "deferred_annuity", "immediate_annuity", "annuity_twin", "insurance_twin"],
       "UDD": ["whole_life_insurance", "term_insurance", "deferred_insurance", "endowment_insurance", "whole_life_annuity", "temporary_annuity", "deferred_annuity",
               "immediate_annuity", "alpha_m", "beta_m", "E_x"],
       "Woolhouse": ["whole_life_insurance", "term_insurance", "deferred_insurance", "endowment_insurance", "whole_life_annuity", "temporary_annuity", "deferred_annuity", "mu_x"],
       "ExtraRisk": ["p_x", "q_x", "[p]", "[q]"]}
NOKW = ("alpha_m", "beta_m", "[p]", "[q]")


def gen_view(rng):
    kind = rng.choice(["Mthly", "Mthly", "UDD", "UDD", "Woolhouse", "ExtraRisk"])
    kw = dict(life={"$obj": "a"})
    if kind == "ExtraRisk":
        kw["risk"] = rng.choice(["ADD_FORCE", "MULTIPLY_FORCE", "ADD_AGE", "MULTIPLY_RATE"])
        kw["extra"] = rng.choice([1, 2]) if kw["risk"] == "ADD_AGE" else rng.choice([0.01, 0.5, 1.3])
    else:
        kw["m"] = rng.choice([1, 2, 4, 12, 12])
        if kind == "UDD" and rng.random() < 0.2:
            kw["m"] = 0
        if kind == "Woolhouse":
            if rng.random() < 0.6:
                kw["three_term"] = True
            if rng.random() < 0.4:
                kw["approximate_mu"] = rng.choice([True, {"$fn": ["mu2", 0.0005]}])
    return dict(op="new", kind=kind, kw=kw)


class C21(c09.C09):
    id = "C21"
    ended = 0.65
    quick_runs = 2200
    thorough_runs = 60000
    rule = ("a run builds one to three views (m-thly, uniform deaths, Woolhouse, extra risk) on a life table before, between or after the loads of C09 (any split and order, faults, refused "
            "attempts) and changes of interest, and asks them for probabilities, insurances, annuities, moments and variances; each value is compared with the sum over the m-thly payments "
            "(or Woolhouse's formula, or the adjusted rate) at the mortality and interest in force; non-trivial: at least two loads and 6 values compared")
    assumptions = ["as C18; m-thly annuities, and Woolhouse and uniform-deaths values, are not asked at zero interest",
                   "under constant force, years which nobody survives are not judged at fractional ages"]

    def generate(self, rng, tier):
        case = super().generate(rng, tier)
        views = {}
        at = 0
        for k in range(rng.choice([1, 2, 2, 3])):
            views["v%d" % k] = v = gen_view(rng)
        out = []
        todo = [dict(v, id=i) for i, v in views.items()]
        for op in case["ops"]:
            if op["op"] == "ask":
                while todo and (rng.random() < 0.3 or len(todo) == len(views)):
                    out.append(todo.pop(0))
                made = [i for i in views if i not in {t["id"] for t in todo}]
                a = self.view_ask(rng, op, rng.choice(made), views)
                out.append(a)
                continue
            out.append(op)
            while todo and op["op"] == "new" and rng.random() < 0.4:
                out.append(todo.pop(0))
        case["ops"] = out
        return case

    def asks(self, rng, lo, hi, n):
        return [dict(op="ask", lo=lo, hi=hi) for _ in range(n)]

    def view_ask(self, rng, op, i, views):
        lo, hi, v = op["lo"], op["hi"], views[i]
        kind, m = v["kind"], v["kw"].get("m")
        q = rng.choice(MTH[kind])
        x = rng.randrange(lo, hi)
        s = min(rng.choice([0, 0, 1, 2]), hi - 1 - x)
        room = hi - x - s
        t = rng.randint(1, room)
        whole = rng.random() < 0.25
        u = rng.randint(0, room - t) if rng.random() < 0.7 else 0
        kw = dict(x=x)
        if s or rng.random() < 0.2:
            kw["s"] = s
        some = lambda **k: kw.update({a: b for a, b in k.items() if rng.random() < 0.5})
        mom = [1, 2, -2] if kind != "Woolhouse" else []
        if q in NOKW:
            kw = {}
        elif kind == "ExtraRisk" or q == "mu_x":
            pass
        elif q in ("p_m", "q_m"):
            kw.pop("s", None)
            end = (hi - x) * m
            a = rng.randint(0, end)
            b = rng.randint(0, end - a)
            some(s_m=a)
            if "s_m" not in kw:
                a = 0
            kw["t_m"] = b
            if q == "q_m":
                some(u_m=rng.randint(0, end - a - b))
        elif q == "v_m":
            kw = dict(k=rng.choice([1, 5, 13]))
        elif q == "annuity_twin":
            kw = dict(A=rng.choice([0.2, 0.55]))
        elif q == "insurance_twin":
            kw = dict(a=rng.choice([3.0, 11.5]))
        elif q == "Z_m":
            kw["t"] = t
            some(moment=rng.choice([1, 2]), benefit={"$fn": rng.choice(c18.BEN)})
        elif q == "E_x":
            kw["t"] = t
            some(moment=rng.choice([1, 2]), endowment=rng.choice([1, 50]))
        elif q == "A_x":
            kw["t"] = t if not whole else -1
            some(u=u if not whole else 0, moment=rng.choice([1, 2]), benefit={"$fn": rng.choice(c18.BEN)})
        else:
            some(b=rng.choice([1, 1000, 2.5]))
            if q.startswith("deferred"):
                kw["n" if q.endswith("insurance") and kind != "Woolhouse" else "u"] = u
            if not q.startswith("whole"):
                if not whole:
                    kw["t"] = t
                elif q in ("term_insurance", "endowment_insurance") and kind != "Woolhouse":
                    kw["t"] = t
            if kind == "Woolhouse" and q != "endowment_insurance" and rng.random() < 0.3:
                some(mu=0.02)
                if not q.startswith("whole"):
                    some(mu1=0.05)
            if q == "endowment_insurance":
                some(endowment=rng.choice([0, 1, 500]))
            if q.endswith("insurance") and mom:
                some(moment=rng.choice(mom))
            if q in ("whole_life_annuity", "temporary_annuity") and mom and rng.random() < 0.3:
                kw["variance"] = True
        return dict(op="ask", id=i, m=q, a=[], kw=kw)

    def judge(self, case, rec, oracle):
        lo = case["sult"]["lo"] if "sult" in case else case["basis"]["lo"]
        views = {op["id"]: dict(op, lo=lo) for op in case["ops"] if op["op"] == "new" and op["id"] != "a"}
        log = rec["log"]
        lost = {i for i in views if not any(case["ops"][e[0]].get("id") == i and e[1] == "new" and e[3][0] != "raise" for e in log)}
        out = []
        for i in sorted(lost & {case["ops"][e[0]]["id"] for e in log}):
            out.append(dict(cls="view-raised", detail="building view %s raised" % i))
        rest = dict(rec, log=[e for e in rec["log"] if e[1] != "new" or case["ops"][e[0]]["id"] == "a"])
        val = lambda m, kw, l, udd, i, hi: price(views[kw["view"]], m, kw, l, udd, i, hi)
        lo = case["sult"]["lo"] if "sult" in case else case["basis"]["lo"]
        hi = case["sult"]["hi"] if "sult" in case else lo + len(case["basis"]["q"])
        udd = case["ops"][0]["kw"].get("udd", True)
        frames = lambda k, op, got, l, known, i: self.table(k, op, got, l, known, i, views[op["id"]], lo, hi, udd, rec["stats"])
        return out + (c09.judge_sult if "sult" in case else c09.judge)(case, rest, val, frames)

    def table(self, k, op, got, l, known, i, v, lo, hi, udd, stats):
        """Frames of m-thly payments and columns of adjusted rates."""
        m = op["m"]
        if not all(x in known for x in range(lo, hi + 1)):
            return []
        if got[0] == "raise":
            return [dict(cls="lookup-raised", detail="op %d: %s raised %s" % (k, m, got[1]))]
        if m == "Z_m":
            want = z_m(v, op["kw"], l, udd, i, hi)
            if want is None:
                return []
            have = [[c[1] if c[0] == "n" else None for c in row] for row in got[3]]
        else:
            last = hi - (v["kw"]["extra"] if v["kw"]["risk"] == "ADD_AGE" else 0)
            want = [adjusted(v, m[1], l, x) for x in range(lo, last)]
            cells = {int(float(x)): c[1] for x, c in got[1] if c[0] == "n"}
            have = [cells.get(x) for x in range(lo, last)]
            have, want = [[h] for h, w in zip(have, want) if w is not None], [[w] for w in want if w is not None]
        stats["probe:values compared"] = stats.get("probe:values compared", 0) + 1
        near = lambda a, b: a is not None and abs(a - b) <= 4e-6 * max(abs(a), abs(b), 0.01) + 1e-6
        same = [len(h) == len(w) and all(near(a, b) for a, b in zip(h, w)) for h, w in zip(have, want)]
        if len(have) == len(want) and all(same):
            return []
        at = same.index(False) if False in same else min(len(have), len(want))
        return [dict(cls="wrong-table", detail="op %d: %s %s row %d is %s; the mortality and interest give %s" % (
            k, v["kind"], m, at, have[at] if at < len(have) else None, want[at] if at < len(want) else None))]


def adjusted(v, c, l, x):
    risk, extra = v["kw"]["risk"], v["kw"]["extra"]
    y = x + extra if risk == "ADD_AGE" else x
    if l(y) <= 0 or l(y + 1) < 1e-6 * l(y):
        return None
    p = l(y + 1) / l(y)
    if risk == "ADD_FORCE":
        p *= math.exp(-extra)
    if risk == "MULTIPLY_FORCE":
        p **= extra
    if risk == "MULTIPLY_RATE":
        p = 1 - extra * (1 - p)
    return p if c == "p" else 1 - p


def survival(l, y, udd):
    """Survivors at any age from y on."""
    def fr(z):
        k = math.floor(z + 1e-9)
        h = z - k
        if h < 1e-9:
            return l(k)
        return l(k) * (1 - h) + l(k + 1) * h if udd else l(k) ** (1 - h) * l(k + 1) ** h
    return lambda t: fr(y + t) / l(y)


def z_m(v, kw, l, udd, i, hi):
    m, x, s, t = v["kw"]["m"], kw["x"], kw.get("s", 0), kw["t"]
    y = x + s
    if l(y) <= 0 or y + t > hi or not udd and any(l(z + 1) < 1e-4 * l(z) for z in range(y, y + t)):
        return None
    S = survival(l, y, udd)
    fn = MAKERS[kw["benefit"]["$fn"][0]](*kw["benefit"]["$fn"][1:]) if "benefit" in kw else lambda x, t: 1
    return [[(fn(y, k / m) * (1 + i) ** (-(k + 1) / m)) ** kw.get("moment", 1), S(k / m) - S((k + 1) / m)] for k in range(t * m)]


def price(view, q, kw, l, udd, i, hi):
    kind, m = view["kind"], view["kw"].get("m")
    kw = {a: b for a, b in kw.items() if a != "view"}
    v = 1 / (1 + i)
    delta = math.log(1 + i)
    if q in ("v_m", "annuity_twin", "insurance_twin", "alpha_m", "beta_m"):
        if q == "v_m":
            return 0, [view["lo"]], (v ** (kw["k"] / m), 1)
        if i == 0:
            return 0, [view["lo"]], None
        im, dm = (m * ((1 + i) ** (1 / m) - 1), m * (1 - v ** (1 / m))) if m else (delta, delta)
        d = i * v
        return 0, [view["lo"]], ({"annuity_twin": lambda: (1 - kw["A"]) / dm, "insurance_twin": lambda: 1 - dm * kw["a"], "alpha_m": lambda: i * d / im / dm,
                        "beta_m": lambda: (i - im) / im / dm}[q](), 1)
    x, s = kw["x"], kw.get("s", 0)
    y = x + s
    if y > hi:
        return y, [y], None
    if kind == "ExtraRisk":
        a = y + (view["kw"]["extra"] if view["kw"]["risk"] == "ADD_AGE" else 0)
        ages = [a, a + 1]
        if a + 1 > hi or not ages:
            return y, [y], None
        w = adjusted(view, q[0], l, y)
        return y, ages, w if w is None else (w, 1)
    ages = range(y, hi + 1)
    base = l(y)
    if base <= 0 or y >= hi:
        return y, [y], None
    ended = l(hi) <= 1e-9 * base
    if q in ("p_m", "q_m"):
        a, t, u = kw.get("s_m", 0), kw.get("t_m", 1), kw.get("u_m", 0)
        ages = range(x, hi + 1)
        if x + (a + t + u) / m > hi or l(x) <= 0:
            return y, ages, None
        z = math.floor(a / m)
        S = survival(l, x + z, udd)
        if l(x + z) <= 0 or S(a / m - z) <= 1e-9 or not udd and any(l(k + 1) < 1e-4 * l(k) for k in range(x, hi)):
            return y, ages, None
        P = lambda t: S((a + t) / m - z) / S(a / m - z)
        return y, ages, (P(t) if q == "p_m" else P(u) - P(u + t), 1)
    if kind == "UDD":
        udd = True
    if kind != "Woolhouse" and not udd and any(l(k + 1) < 1e-4 * l(k) for k in range(y, hi)) and q != "E_x":
        return y, ages, None
    T = lambda t, u=0: hi - y - u if t < 0 else t
    t = kw.get("t", -1)
    u = kw.get("u", kw.get("n", 0))
    b = kw.get("b", 1)
    mom = kw.get("moment", 1)
    P = lambda k: l(y + k) / base
    if q == "E_x":
        k = kw.get("t")
        return y, ages, ((kw.get("endowment", 1) * v ** k) ** mom * P(k), kw.get("endowment", 1) ** mom)
    if t < 0 and not ended or T(t, u) + u + y > hi:
        return y, ages, None
    t = T(t, u)
    if q.endswith("annuity") and i == 0:
        return y, ages, None
    if kind == "Woolhouse":
        ages = range(max(view["lo"], y - 1), hi + 1)
        return y, ages, woolhouse(view, q, kw, l, i, hi, y, x, s, t, u, b, v, delta, ended)
    if kind == "UDD" and i == 0:
        return y, ages, None
    S = survival(l, y, udd)
    n = m or 1

    def A(t, u=0, e=0.0, k=1, ben=None):
        w = 0.0
        if m:
            for j in range(u * m, (u + t) * m):
                w += ((ben(y, j / m) if ben else 1) * v ** ((j + 1) / m)) ** k * (S(j / m) - S((j + 1) / m))
        else:
            for j in range(u, u + t):                  # uniform deaths, paid at once
                w += v ** (k * j) * (P(j) - P(j + 1)) * (1 - v ** k) / (k * delta)
        return w + (e * v ** (u + t)) ** k * P(u + t)

    def a(t, u=0):
        if m:
            return sum(v ** (j / m) * S(j / m) for j in range(u * m, (u + t) * m)) / m
        w = 0.0
        for j in range(u, u + t):
            full, part = (1 - v) / delta, (1 - v * (1 + delta)) / delta ** 2
            w += v ** j * (P(j) * full - (P(j) - P(j + 1)) * part)
        return w
    if q == "A_x":
        ben = MAKERS[kw["benefit"]["$fn"][0]](*kw["benefit"]["$fn"][1:]) if "benefit" in kw else None
        return y, ages, (A(t, u, 0.0, mom, ben), 1e4 if mom == 1 else 1e6)
    if q.endswith("insurance"):
        e = 0
        if q == "endowment_insurance":
            e = kw.get("endowment", b)
        f = lambda k: b ** k * A(t, u, 0.0, k) + e ** k * v ** (k * (u + t)) * P(u + t) * (e != 0)
        if q == "endowment_insurance" and kw["t"] < 0:
            return y, ages, None
        return y, ages, (f(2) - f(1) ** 2 if mom == -2 else f(mom), max(b, e, 1) ** (1 if mom == 1 else 2))
    if kw.get("variance"):
        dm = m * (1 - v ** (1 / m)) if m else delta
        A1, A2 = A(t) + v ** t * P(t), A(t, k=2) + v ** (2 * t) * P(t)
        return y, ages, (b * b * (A2 - A1 * A1) / dm ** 2, (b / dm) ** 2)
    w = a(t, u)
    if q == "immediate_annuity":
        w -= (1 - (v ** t * P(t) if "t" in kw else 0)) / m if m else 0
    return y, ages, (b * w, 20 * b)


def woolhouse(view, q, kw, l, i, hi, y, x, s, t, u, b, v, delta, ended):
    m = view["kw"]["m"]
    if i == 0:
        return None
    mk = view["kw"].get("approximate_mu", True)

    def mu(z):                                         # z years after age y
        if mk is True:
            if y + z - 1 < view["lo"] or y + z + 1 > hi or l(y + z - 1) <= 0 or l(y + z + 1) < 1e-6 * l(y + z - 1):
                raise LookupError
            return -0.5 * (math.log(l(y + z + 1) / l(y + z)) + math.log(l(y + z) / l(y + z - 1)))
        return MAKERS[mk["$fn"][0]](*mk["$fn"][1:])(x, s + z)

    def W(z, given=None):
        if y + z >= hi:
            raise LookupError
        base = l(y + z)
        a = sum(v ** k * l(y + z + k) / base for k in range(hi - y - z))
        a -= (m - 1) / (2 * m)
        if view["kw"].get("three_term"):
            a -= ((kw.get(given) or mu(z)) + delta) * (m * m - 1) / (12 * m * m)
        return a
    P = lambda k: l(y + k) / l(y)
    dm = m * (1 - v ** (1 / m))
    E = lambda k: v ** k * P(k)
    try:
        if q == "mu_x":
            return mu(0), 1
        if not ended:                                  # Woolhouse works from whole-life annuities
            return None
        lim = "t" in kw and kw["t"] > 0
        if q == "whole_life_annuity":
            return b * W(0, "mu"), 20 * b
        if q in ("temporary_annuity", "deferred_annuity"):
            return b * E(u) * (W(u, "mu") - (v ** t * P(u + t) / P(u) * W(u + t, "mu1") if lim else 0)), 20 * b
        Z = lambda z, g: 1 - dm * W(z, g)
        w = E(u) * (Z(u, "mu") - (v ** t * P(u + t) / P(u) * Z(u + t, "mu1") if lim else 0)) * b
        if q == "endowment_insurance":
            w += kw.get("endowment", b) * E(t) if lim else 0
        return w, 20 * max(b, kw.get("endowment", 1))
    except (LookupError, ZeroDivisionError):
        return None


CHECK = C21()
