"""Generators of models, assumptions and queries (plain JSON)."""
WHOLE = -999

# ---- assumptions ----------------------------------------------------------------------------------------------
RATES = [0.0, 0.01, 0.03, 0.04, 0.05, 0.06, 0.08, 0.1]


def gen_interest(rng, custom=0.15, zero=True):
    """An acceptable set_interest argument set, in any form."""
    if rng.random() < custom:
        return dict(v_t={"$fn": rng.choice([["v_pow", 0.05], ["v_pow", 0.08], ["v_step", 0.03, 0.06, 5], ["v_lin", 0.05]])})
    i = rng.choice(RATES if zero else RATES[1:])
    if rng.random() < 0.25:                              # close to another rate, not equal to it
        i = rng.choice([0.05, 0.05, 0.06]) * (1 + rng.choice([1e-5, 1e-4, -1e-3, 4e-3]))
    form = rng.choice(["i", "i", "delta", "d", "v", "i_m", "d_m"])
    if i == 0 and form in ("i_m", "d_m"):
        form = "i"
    import math
    m = rng.choice([1, 2, 4, 12])
    if form == "i":
        return dict(i=i)
    if form == "delta":
        return dict(delta=math.log(1 + i))
    if form == "d":
        return dict(d=i / (1 + i))
    if form == "v":
        return dict(v=1 / (1 + i))
    if form == "i_m":
        return dict(i_m=m * ((1 + i) ** (1 / m) - 1), m=m)
    return dict(d_m=m * (1 - (1 + i) ** (-1 / m)), m=m)


def bad_interest(rng):
    return rng.choice([dict(i=-0.02), dict(), dict(d=-1.0), dict(v=0.0), dict(d=1.0), dict(v_t={"$fn": ["v_bad", 0.9]}), dict(v_t=3),
                       dict(v_t={"$fn": ["fail", "SimError"]}), dict(v_t={"$fn": ["fail", "KeyboardInterrupt"]}), dict(rate=0.05),
                       dict(i="x"), dict(i_m=0.05), dict(i_m=0.05, m=-2), dict(delta=-0.01, v=-1.0),
                       dict(d=1.5), dict(d=2.0), dict(d=3.5), dict(delta=800.0), dict(d_m=2.5, m=1), dict(i_m=0.05, m=0),
                       dict(v_t={"$fn": ["v_bad", 1.0001]}), dict(delta="0.05"), dict(v=[0.9])])


def gen_survival(rng, maxage=True):
    form = rng.choice(["S", "S", "S", "l", "mu", "f", "Smu"])
    kw = {}
    mu = rng.choice([0.01, 0.02, 0.04, 0.1])
    w = rng.choice([90, 100, 120])
    mk = rng.choice([[0.0, 0.0003, 1.07], [0.001, 0.00003, 1.1], [0.00022, 2.7e-6, 1.124]])
    if form == "S":
        kw["S"] = {"$fn": rng.choice([["S_exp", mu], ["S_unif", w], ["S_mk"] + mk, ["S_sel", mu]])}
    elif form == "l":
        kw["l"] = {"$fn": rng.choice([["l_unif", w], ["l_exp", mu], ["l_sel", mu]])}
    elif form == "mu":
        kw["mu"] = {"$fn": rng.choice([["mu_const", mu], ["mu_mk"] + mk, ["mu_sel", mu]])}
    elif form == "f":
        kw["f"] = {"$fn": rng.choice([["f_exp", mu], ["f_unif", w]])}
    else:
        kw["S"] = {"$fn": ["S_exp", mu]}
        kw["mu"] = {"$fn": ["mu_const", mu]}
    if maxage:
        kw["maxage"] = rng.choice([90, 100, 110]) if form != "f" else 95
        if rng.random() < 0.3:
            kw["minage"] = rng.choice([0, 10, 20])
    return kw


def bad_survival(rng):
    return rng.choice([dict(), dict(S=3), dict(l=[1, 2]), dict(mu="x"), dict(f=5.0), dict(S={"$fn": ["S_exp", 0.02]}, mu=3),
                       dict(l=7, maxage=50), dict(S="S", minage=30)])


def table_q(rng, lo=None, n=None):
    lo = rng.choice([0, 20, 50, 95]) if lo is None else lo
    n = rng.choice([4, 6, 12, 30]) if n is None else n
    q, base, g = {}, rng.choice([0.005, 0.02, 0.1]), rng.choice([1.02, 1.08, 1.2])
    for k in range(n):
        q[lo + k] = min(0.9, round(base * g ** k, 6))
    return q


def D(d):
    return {"$d": [[k, v] for k, v in sorted(d.items())]}


def gen_model(rng, kinds=None):
    """-> (new op fields, list of configuration calls, meta) for a life model."""
    kind = rng.choice(kinds or KINDS)
    kw, conf, ages, top = {}, [], None, 100
    udd = rng.random() < 0.6
    if kind == "ConstantForce":
        kw = dict(mu=rng.choice([0.01, 0.02, 0.05, 0.1]))
        ages = [0, 20, 50]
    elif kind == "Uniform":
        kw = dict(omega=rng.choice([60, 80, 100]))
        ages, top = [0, 20, 40], kw["omega"]
    elif kind == "Beta":
        kw = dict(omega=rng.choice([60, 80, 100]), alpha=rng.choice([0.5, 1.0, 2.0]))
        if rng.random() < 0.3:
            kw["radix"] = rng.choice([1000, 50000])
        ages, top = [0, 20, 40], kw["omega"]
    elif kind == "Makeham":
        kw = dict(A=rng.choice([0.0, 0.0002, 0.002]), B=rng.choice([3e-6, 3e-5]), c=rng.choice([1.08, 1.1, 1.124]))
        ages = [20, 40, 60]
        conf = []
    elif kind == "Gompertz":
        kw = dict(B=rng.choice([3e-6, 3e-5, 3e-4]), c=rng.choice([1.07, 1.1, 1.124]))
        ages = [20, 40, 60]
    elif kind in ("Reserves", "PolicyValues"):
        kw = dict(udd=udd)
        conf = [("set_survival", gen_survival(rng))]
        ages, top = [20, 30, 50], conf[0][1].get("maxage", 100)
    elif kind == "MortalityLaws":
        conf = [("set_survival", gen_survival(rng))]
        ages, top = [20, 30, 50], conf[0][1].get("maxage", 100)
    elif kind == "LifeTable":
        q = table_q(rng)
        kw = dict(udd=udd)
        conf = [("set_table", dict(q=D(q)))]
        lo, hi = min(q), max(q) + 1
        if rng.random() < 0.25:                      # the same table in two loads
            cut = rng.randint(lo + 1, hi - 1)
            parts = [{x: v for x, v in q.items() if x < cut}, {x: v for x, v in q.items() if x >= cut}]
            conf = [("set_table", dict(q=D(parts[0]), fill=False)), ("set_table", dict(q=D(parts[1])))]
        ages, top = [lo, lo + 1, (lo + hi) // 2], hi
        if rng.random() < 0.3:
            conf[-1][1].update(radix=rng.choice([1000, 50000]))
        if rng.random() < 0.2:
            conf[-1][1].update(minage=lo, maxage=hi)
    elif kind == "SULT":
        kw = dict(udd=udd)
        if rng.random() < 0.5:
            kw["i"] = rng.choice([0.03, 0.05])
        if rng.random() < 0.25:
            kw["radix"] = rng.choice([1000, 1000000])
        if rng.random() < 0.2:
            kw["S"] = {"$fn": ["S2", rng.choice([0.01, 0.03])]}
        if rng.random() < 0.2:
            kw["maxage"] = 120
        ages, top = [20, 50, 80, 100], 130
    elif kind == "SelectLife":
        periods = rng.choice([1, 2, 3])
        lo, n = rng.choice([30, 50]), rng.choice([3, 5, 8])
        b, g = rng.choice([0.01, 0.05]), rng.choice([1.05, 1.2])
        q = {}
        for x in range(lo, lo + n):
            q[x] = [round(b * g ** (x - lo + s) * (0.6 + 0.4 * s / periods), 6) for s in range(periods + 1)]
        kw = dict(periods=periods, udd=udd)
        conf = [("set_table", dict(q={"$d": [[k, v] for k, v in sorted(q.items())]}))]
        if rng.random() < 0.3:
            kw.pop("periods")                        # told by the widest row
        elif rng.random() < 0.4:                     # column by column
            conf = [("set_select", dict(s=s, age_selected=True, q=D({x: r[s] for x, r in q.items()}))) for s in range(periods + 1)]
            if rng.random() < 0.7:
                conf.append(("fill_table", dict(radix=rng.choice([1000, 100000]))))
        ages, top = [lo, lo + 1, lo + 2], lo + n
    elif kind == "Recursion":
        kw = dict(depth=rng.choice([1, 2, 2]), verbose=rng.random() < 0.3)
        if rng.random() < 0.6:
            return true_recursion(rng, kw)
        x, q = 50, table_q(rng, 50, 6)
        for a in sorted(rng.sample(sorted(q), rng.randint(3, 6))):
            conf.append(rng.choice([("set_q", dict(val=q[a], x=a)), ("set_p", dict(val=1 - q[a], x=a))]))
        conf.append(("set_A", dict(val=rng.choice([0.5, 0.6]), x=rng.choice([50, 52]))))
        if rng.random() < 0.5:
            conf.append(("set_a", dict(val=rng.choice([5.1, 6.2]), x=rng.choice([51, 53]), t=rng.choice([WHOLE, 3]))))
        if rng.random() < 0.4:
            conf.append(("set_E", dict(val=0.7, x=51, t=2)))
        if rng.random() < 0.3:
            conf.append(("set_e", dict(val=12.0, x=51)))
        ages, top = [50, 51, 52, 53], 56
    else:
        raise ValueError(kind)
    if kind in ("LifeTable", "SULT", "Reserves") and rng.random() < 0.3:
        T = rng.choice([3, 4, 5])
        conf.append(("set_reserves", dict(T=T, endowment=rng.choice([0, 0, 100]))))
        if rng.random() < 0.8:
            conf.append(("fill_reserves", dict(x=ages[0], contract={"$c": dict(premium=rng.choice([0.5, 12.0]), benefit=rng.choice([1, 100]), renewal_policy=0.1)})))
    return dict(kind=kind, kw=kw), conf, dict(kind=kind, ages=ages, top=top, udd=udd, depth=kw.get("depth"))


def true_recursion(rng, kw):
    """A solver told facts true of one mortality, most of them premises of textbook relations."""
    from . import basis as bs
    from .checks import c11
    b = bs.gen(rng)
    B, depth = bs.Basis(b), kw["depth"]
    ages = rng.choice([[50, 51], [50, 51, 52]])
    labels = rng.choice([["p", "q"], ["p", "q", "A"], ["A", "a"], ["p", "E", "A", "a"], ["p", "q", "IA", "DA", "A"], ["p", "E", "A", "a", "IA", "DA"], ["A", "E"]])
    if depth == 1 and rng.random() < 0.4:                # the lifetime search is exponential in the depth limit
        labels = labels + ["e", "e"]
    facts, wanted = [], []
    for _ in range(rng.randint(1, 3)):
        for _ in range(20):
            f, q = c11.recipe(rng, ages)
            if depth == 1 or all(l != "e" for l, _ in f + [q]):
                facts += f
                wanted.append(q)
                break
    for _ in range(rng.randint(0, 4)):
        l = rng.choice(labels)
        facts.append((l, c11.gen_kw(rng, l, ages)))
    conf = [("set_interest", dict(i=b["i"]))]
    rng.shuffle(facts)
    for l, k in facts:
        v = bs.fact_value(B, l, k)
        if v is not None:
            conf.append((c11.SET[l], dict(k, val=v)))
    return dict(kind="Recursion", kw=kw), conf, dict(kind="Recursion", ages=ages, top=56, udd=False, depth=depth, labels=labels, wanted=wanted)


KINDS = ["ConstantForce", "Uniform", "Beta", "Makeham", "Gompertz", "Reserves", "PolicyValues", "MortalityLaws",
         "LifeTable", "LifeTable", "SULT", "SULT", "SelectLife", "Recursion"]

VIEWS = ["Mthly", "UDD", "Woolhouse", "ExtraRisk"]


def gen_view(rng, id):
    kind = rng.choice(VIEWS)
    kw = dict(life={"$obj": id})
    if kind == "ExtraRisk":
        kw["risk"] = rng.choice(["ADD_FORCE", "MULTIPLY_FORCE", "ADD_AGE", "MULTIPLY_RATE"])
        kw["extra"] = rng.choice([1, 2]) if kw["risk"] == "ADD_AGE" else rng.choice([0.01, 0.5, 2])
    else:
        kw["m"] = rng.choice([1, 2, 4, 12])
        if kind == "Woolhouse":
            if rng.random() < 0.5:
                kw["three_term"] = True
            if rng.random() < 0.4:
                kw["approximate_mu"] = rng.choice([False, {"$fn": ["mu2", 0.0005]}])
    return dict(kind=kind, kw=kw)


# ---- queries --------------------------------------------------------------------------------------------------
def benefit(rng):
    return {"$fn": rng.choice([["b_const", 1], ["b_const", 1000], ["b_lin", 1, 0.5], ["b_lin", 1000, -10], ["b_exp", 0.02],
                               ["b_cut", 1, 3], ["b_age", 0, 0.1]])}


def contract(rng, T=None):
    c = dict(premium=rng.choice([1, 0.02, 15]), initial_policy=rng.choice([0, 0.1, 30]), initial_premium=rng.choice([0, 0.2, 0.5]),
             renewal_policy=rng.choice([0, 0.05, 2]), renewal_premium=rng.choice([0, 0.03]), settlement_policy=rng.choice([0, 0.1]),
             benefit=rng.choice([1, 1000]), endowment=rng.choice([0, 0, 1, 1000]), discrete=rng.random() < 0.7)
    if rng.random() < 0.5:
        c["T"] = rng.choice([2, 5, 10])
    for k in rng.sample(sorted(c), rng.randint(0, 6)):
        c.pop(k)
    return {"$c": c}


class Q:
    """Query generator for one model."""
    def __init__(self, rng, meta):
        self.rng, self.meta, self.made = rng, meta, {}
        r = rng
        rec = meta["kind"] == "Recursion"
        rare = lambda common, uncommon, p=0.12: (lambda: r.choice(uncommon if not rec and r.random() < p else common))
        span = list(range(min(meta["ages"]), max(min(meta["ages"]) + 1, meta["top"])))
        self.x = rare(meta["ages"], span)
        self.s = rare([0, 0, 0, 1, 2], [3, 5])
        self.t = rare([WHOLE, 1, 2, 3, 5, 10], [4, 6, 7, 12, 15, 20, 25, 30])
        self.tt = rare([1, 2, 3, 5], [4, 8, 10, 20])
        self.u = rare([0, 1, 2, 3], [4, 5, 7, 10])
        self.b = rare([1, 1, 2, 1000], [0.5, 3, 10, 100, 50000])
        slow = meta["kind"] in ("LifeTable", "SULT", "MortalityLaws", "Reserves", "PolicyValues")
        disc_only = meta["kind"] in ("SelectLife", "Recursion")
        self.disc = lambda: True if disc_only else r.random() < (0.85 if slow else 0.6)

    def opt(self, kw, name, val, p=0.5):
        if self.rng.random() < p:
            kw[name] = val
        return kw

    def base(self, s=0.5):
        return self.opt(dict(x=self.x()), "s", self.s(), s)

    def ask(self):
        r = self.rng
        for _ in range(50):
            name = r.choice(self.names())
            kw = getattr(self, "g_" + name)() if hasattr(self, "g_" + name) else None
            if kw is not None:
                out = norm(name, kw)
                self.made[out["m"]] = name
                return out
        raise RuntimeError

    def like(self, m):
        """Another question of the kind m, or None."""
        for _ in range(6 if m in self.made else 0):
            kw = getattr(self, "g_" + self.made[m])()
            if kw is not None:
                out = norm(self.made[m], kw)
                if out["m"] == m:
                    return out

    def names(self):
        if self.meta.get("labels"):
            return TRUE_Q
        return RECURSION_Q if self.meta["kind"] == "Recursion" else LIFE_Q

    # lifetimes
    def g_p_x(self):
        return self.opt(self.base(), "t", self.rng.choice([0, 1, 2, 3, 5]))

    def g_q_x(self):
        return self.opt(self.opt(self.base(), "t", self.tt()), "u", self.u())

    def g_l_x(self):
        return self.base()

    g_d_x = g_l_x

    def g_f_x(self):
        return self.opt(self.base(), "t", self.tt())

    g_mu_x = g_f_x

    def g_e_x(self):
        tname = "n" if self.meta["kind"] in ("LifeTable", "SULT", "Beta") else "t"
        kw = self.opt(self.opt(self.base(), tname, self.t()), "curtate", self.rng.random() < 0.6)
        return self.opt(kw, "moment", self.rng.choice([1, 2, -2]), 0.3)

    def g_l_r(self):
        return self.opt(self.base(), "r", self.rng.choice([0.0, 0.25, 0.5, 1.4]))

    g_mu_r = g_l_r

    def g_p_r(self):
        return self.opt(self.g_l_r(), "t", self.rng.choice([0.0, 0.3, 0.5, 1.0, 2.5]))

    g_f_r = g_p_r
    g_E_r = g_p_r

    def g_q_r(self):
        return self.opt(self.g_p_r(), "u", self.rng.choice([0.0, 0.2, 1.0]))

    def g_e_r(self):
        return self.opt(self.base(), "t", self.rng.choice([WHOLE, 0.5, 1, 2.5, 4]))

    # insurances
    def g_E_x(self):
        kw = self.opt(self.opt(self.base(), "t", self.t(), 0.8), "moment", self.rng.choice([1, 2, -2]), 0.4)
        return self.opt(kw, "endowment", self.b(), 0.3)

    def g_A_x(self):
        kw = self.opt(self.opt(self.base(), "t", self.t(), 0.8), "u", self.u(), 0.4)
        self.opt(kw, "benefit", benefit(self.rng), 0.7)
        self.opt(kw, "endowment", self.b(), 0.2)
        self.opt(kw, "moment", self.rng.choice([1, 2]), 0.4)
        return self.opt(kw, "discrete", self.disc(), 0.5)

    def ins(self, t=True, u=False, moment=True):
        kw = self.base()
        if t:
            self.opt(kw, "t", self.t() if u else self.rng.choice([1, 2, 3, 5, WHOLE]), 0.9)
        if u:
            self.opt(kw, "u", self.u(), 0.8)
        self.opt(kw, "b", self.b(), 0.4)
        if moment:
            self.opt(kw, "moment", self.rng.choice([1, 2, -2]), 0.4)
        return self.opt(kw, "discrete", self.disc(), 0.5)

    def g_whole_life_insurance(self):
        return self.ins(t=False)

    def g_term_insurance(self):
        return self.ins()

    def g_deferred_insurance(self):
        return self.ins(u=True)

    def g_endowment_insurance(self):
        kw = self.opt(self.ins(), "endowment", self.b(), 0.3)
        kw.setdefault("t", 3)
        if kw["t"] < 0:
            kw["t"] = 4
        return kw

    def g_increasing_insurance(self):
        return self.ins(moment=False)

    def g_decreasing_insurance(self):
        kw = self.ins(moment=False)
        kw["t"] = self.rng.choice([1, 2, 3, 5])
        return kw

    def g_Z_x(self):
        return self.opt(self.opt(self.base(), "t", self.rng.choice([0, 1, 2.5])), "discrete", self.disc())

    g_Y_x = g_Z_x

    def g_Z_t(self):
        return dict(x=self.x(), prob=self.rng.choice([0.2, 0.5, 0.8]), discrete=self.rng.random() < 0.5)

    g_Y_t = g_Z_t
    g_Z_from_prob = g_Z_t
    g_Y_from_prob = g_Z_t

    def g_Z_from_t(self):
        return dict(t=self.rng.choice([0, 1.5, 3, 10]), discrete=self.rng.random() < 0.5)

    g_Y_from_t = g_Z_from_t

    def g_Z_to_t(self):
        return dict(Z=self.rng.choice([0.3, 0.7]))

    def g_Z_to_prob(self):
        return dict(x=self.x(), Z=self.rng.choice([0.3, 0.7]))

    def g_Y_to_t(self):
        return dict(Y=self.rng.choice([0.8, 2.0, 5.5]))

    def g_Y_to_prob(self):
        return dict(x=self.x(), Y=self.rng.choice([0.8, 2.0, 5.5]))

    # annuities
    def g_a_x(self):
        kw = self.opt(self.opt(self.base(), "t", self.t(), 0.8), "u", self.u(), 0.4)
        self.opt(kw, "benefit", benefit(self.rng), 0.7)
        return self.opt(kw, "discrete", self.disc(), 0.5)

    def ann(self, t=True, u=False, variance=True):
        kw = self.base()
        if t:
            self.opt(kw, "t", self.t(), 0.8)
        if u:
            self.opt(kw, "u", self.u(), 0.8)
        self.opt(kw, "b", self.b(), 0.4)
        if variance:
            self.opt(kw, "variance", True, 0.2)
        return self.opt(kw, "discrete", self.disc(), 0.4)

    def g_immediate_annuity(self):
        kw = self.ann()
        kw.pop("discrete", None)
        return kw

    def g_whole_life_annuity(self):
        return self.ann(t=False)

    def g_temporary_annuity(self):
        return self.ann()

    def g_deferred_annuity(self):
        return self.ann(u=True, variance=False)

    g_certain_life_annuity = g_deferred_annuity

    def g_increasing_annuity(self):
        return self.ann(variance=False)

    def g_decreasing_annuity(self):
        kw = self.ann(variance=False)
        kw["t"] = self.rng.choice([1, 2, 3, 5])
        return kw

    def g_annuity_twin(self):
        return dict(A=self.rng.choice([0.2, 0.5]), discrete=self.rng.random() < 0.5)

    def g_insurance_twin(self):
        return dict(a=self.rng.choice([3.5, 8.0]), discrete=self.rng.random() < 0.5)

    def g_annuity_variance(self):
        return dict(A2=0.2, A1=self.rng.choice([0.3, 0.4]), b=self.b(), discrete=self.rng.random() < 0.5)

    # premiums and policy values
    def g_net_premium(self):
        kw = self.opt(self.base(), "t", self.t())
        self.opt(kw, "u", self.u(), 0.3)
        self.opt(kw, "n", self.rng.choice([2, 3]), 0.3)
        self.opt(kw, "b", self.b(), 0.4)
        self.opt(kw, "endowment", self.b(), 0.2)
        self.opt(kw, "annuity", True, 0.2)
        self.opt(kw, "return_premium", True, 0.2)
        self.opt(kw, "initial_cost", self.rng.choice([0.1, 5]), 0.2)
        return self.opt(kw, "discrete", self.disc(), 0.4)

    def g_gross_premium(self):
        kw = dict(a=self.rng.choice([5.0, 8.0]), A=self.rng.choice([0.2, 0.4]), benefit=self.b())
        if self.rng.random() < 0.5:
            kw.pop(self.rng.choice(["a", "A"]))
        self.opt(kw, "initial_policy", 2, 0.4)
        self.opt(kw, "renewal_policy", 0.5, 0.4)
        self.opt(kw, "initial_premium", 0.5, 0.4)
        self.opt(kw, "renewal_premium", 0.05, 0.4)
        return self.opt(kw, "discrete", self.rng.random() < 0.5, 0.4)

    def g_premium_equivalence(self):
        return self.rng.choice([dict(A=0.3), dict(a=6.0), dict(A=0.3, a=6.0)]) | dict(b=self.b(), discrete=self.rng.random() < 0.5)

    def g_insurance_equivalence(self):
        return dict(premium=self.rng.choice([0.02, 0.1]), b=self.b(), discrete=self.rng.random() < 0.5)

    g_annuity_equivalence = g_insurance_equivalence

    def pv(self, gross=False):
        kw = self.opt(self.base(0.3), "t", self.u(), 0.7)
        if self.rng.random() < 0.5:
            kw["n"] = self.rng.choice([4, 5, 8])
        if gross:
            self.opt(kw, "contract", contract(self.rng), 0.9)
        else:
            self.opt(kw, "b", self.b(), 0.4)
            self.opt(kw, "endowment", self.b(), 0.4)
            self.opt(kw, "discrete", self.disc(), 0.4)
        return kw

    def g_net_policy_value(self):
        return self.pv()

    g_net_policy_variance = g_net_policy_value

    def g_gross_policy_value(self):
        return self.pv(True)

    g_gross_policy_variance = g_gross_policy_value

    def g_gross_future_loss(self):
        return self.rng.choice([dict(A=0.3), dict(a=6.0), dict(A=0.3, a=5.0)]) | dict(contract=contract(self.rng))

    def g_gross_variance_loss(self):
        return dict(A1=0.3, A2=0.2, contract=contract(self.rng))

    def g_net_future_loss(self):
        return dict(A=0.3, A1=self.rng.choice([0.4, 0.5]), b=self.b())

    def g_net_variance_loss(self):
        return dict(A1=0.3, A2=0.2, A=self.rng.choice([0, 0.2]), b=self.b())

    def g_L_from_t(self):
        return self.opt(dict(t=self.rng.choice([1, 2.5, 7])), "contract", contract(self.rng), 0.9)

    def g_L_from_prob(self):
        return self.opt(dict(x=self.x(), prob=self.rng.choice([0.3, 0.6])), "contract", contract(self.rng), 0.9)

    def g_L_to_t(self):
        return self.opt(dict(L=self.rng.choice([0, 0.4, -1])), "contract", contract(self.rng), 0.9)

    def g_L_to_prob(self):
        return self.opt(dict(x=self.x(), L=self.rng.choice([0, 0.4, -1])), "contract", contract(self.rng), 0.7)

    def g_FPT_premium(self):
        return self.opt(self.opt(dict(x=self.x()), "n", self.rng.choice([4, 6, WHOLE])), "first", True, 0.3)

    def g_FPT_policy_value(self):
        return dict(x=self.x(), t=self.rng.choice([0, 1, 2, 3]), n=self.rng.choice([4, 6, WHOLE]))

    def g_reserves_frame(self):
        return {}

    def g_t_V(self):
        kw = dict(x=self.x(), t=self.rng.choice([0, 1, 2, 3, 4]))
        self.opt(kw, "premium", self.rng.choice([0.5, 12.0]))
        return self.opt(kw, "benefit", {"$fn": self.rng.choice([["b1_const", 100], ["b1_lin", 1, 10]])})

    def g_r_V(self):
        kw = dict(x=self.x(), s=self.rng.choice([0, 1, 2]), r=self.rng.choice([0, 0.5, 1.25]), benefit=self.rng.choice([1, 100]))
        if self.rng.random() < 0.5:
            return ("r_V_forward", [], dict(kw, premium=self.rng.choice([0, 12.0])))
        return ("r_V_backward", [], kw)

    def g_interest(self):
        r = self.rng
        w = r.choice(["i", "d", "v", "delta", "v_t", "annuity"])
        if w == "v_t":
            return ("interest.v_t", [r.choice([0, 1, 2.5, 10])], {})
        if w == "annuity":
            return ("interest.annuity", [], dict(t=r.choice([-1, 5, 10]), m=r.choice([0, 1, 4]), due=r.random() < 0.5))
        return ("interest." + w, [], {})

    def g_max_term(self):
        return dict(x=self.x(), t=self.t())

    def g_invalid(self):
        r = self.rng
        return r.choice([("p_x", [], dict(x=-1)), ("E_x", [], dict()), ("A_x", [], dict(x=self.x(), t=3, moment=0)),
                         ("A_x", [], dict(x=self.x(), t=3, benefit={"$fn": ["fail", "SimError"]})),
                         ("a_x", [], dict(x=self.x(), t=3, benefit={"$fn": ["fail", "ValueError"]})),
                         ("whole_life_insurance", [], dict(x="a")), ("q_x", [], dict(x=self.x(), s=-5)),
                         ("decreasing_insurance", [], dict(x=self.x(), t=-1)), ("e_x", [], dict(x=self.x(), moment=7)),
                         ("gross_premium", [], dict()), ("net_policy_variance", [], dict(x=self.x(), n=4, endowment=0.5)),
                         ("solve", [], dict(fun={"$fn": ["fail", "SimError"]}, target=0.5, grid=1.0))])

    def g_solve(self):
        r = self.rng
        return ("solve", [], dict(fun={"$fn": r.choice([["b1_lin", 1, 0.5], ["b1_lin", -2, 3.0]])}, target=r.choice([0.5, 2.0]),
                                  grid=r.choice([1.0, [0, 10], {"$t": [0, 4]}])))

    def g_static(self):
        r = self.rng
        return r.choice([("variance", [], dict(a=2, b=r.choice([1, 3]), var_a=0.5, var_b=0.2, cov_ab=0.1)),
                         ("covariance", [], dict(a=0.2, b=0.3, ab=r.choice([0.1, 0.2]))),
                         ("bernoulli", [], dict(p=r.choice([0.2, 0.6]), a=2, b=1, variance=r.random() < 0.5)),
                         ("binomial", [], dict(p=r.choice([0.2, 0.6]), N=r.choice([10, 100]), variance=r.random() < 0.5)),
                         ("mixture", [], dict(p=r.choice([0.2, 0.6]), p1=0.3, p2=0.4, N=r.choice([1, 10]), variance=r.random() < 0.5)),
                         ("conditional_variance", [], dict(p=r.choice([0.2, 0.6]), p1=0.3, p2=0.4, N=r.choice([1, 10]))),
                         ("portfolio_percentile", [], dict(mean=r.choice([10, 20]), variance=4, prob=r.choice([0.9, 0.95]), N=r.choice([1, 5]))),
                         ("portfolio_cdf", [], dict(mean=r.choice([10, 20]), variance=4, value=r.choice([11, 12.5]), N=1)),
                         ("quantiles_frame", [], {}),
                         ("insurance_variance", [], dict(A2=0.3, A1=r.choice([0.4, 0.5]), b=self.b()))])

    def g_frame(self):
        k = self.meta["kind"]
        if k == "LifeTable":
            return ("frame", [], {})
        if k == "SelectLife":
            return ("frame", [], dict(table=self.rng.choice("lqdaAe")))
        if k == "SULT":
            if self.rng.random() < 0.3:
                return ("frame", [], self.rng.choice([{}, dict(minage=40, maxage=60), dict(maxage=30), dict(minage=85)]))
            return ("[" + self.rng.choice("qpqpaA") + "]", [], {})
        return None

    def g_item(self):
        k = self.meta["kind"]
        if k == "LifeTable":
            return ("[" + self.rng.choice("lqdp") + "]", [], {})
        if k == "SelectLife":
            return ("[" + self.rng.choice("lqd") + "]", [], {})
        return None

    # recursion
    def g_R_p_x(self):
        return ("p_x", [], self.opt(self.base(0.2), "t", self.rng.choice([1, 2, 3])))

    def g_R_q_x(self):
        return ("q_x", [], self.opt(self.opt(self.base(0.2), "t", self.rng.choice([1, 2, 3])), "u", self.rng.choice([0, 1, 2])))

    def g_R_A(self):
        kw = self.opt(self.opt(self.base(0.2), "b", self.rng.choice([1, 1000]), 0.3), "moment", self.rng.choice([1, 2]), 0.2)
        n = self.rng.choice(["whole_life_insurance", "term_insurance", "endowment_insurance", "deferred_insurance"])
        if n != "whole_life_insurance":
            kw["t"] = self.rng.choice([1, 2, 3])
        if n == "deferred_insurance":
            kw["u"] = self.rng.choice([1, 2])
        return (n, [], kw)

    def g_R_a(self):
        kw = self.opt(self.base(0.2), "b", self.rng.choice([1, 1000]), 0.2)
        n = self.rng.choice(["whole_life_annuity", "temporary_annuity", "deferred_annuity", "increasing_annuity"])
        if n != "whole_life_annuity":
            kw["t"] = self.rng.choice([1, 2, 3])
        if n == "deferred_annuity":
            kw["u"] = self.rng.choice([1, 2])
        return (n, [], kw)

    def g_R_E(self):
        return ("E_x", [], self.opt(self.base(0.2), "t", self.rng.choice([1, 2, 3])))

    def g_R_true(self):
        from .checks import c11
        r = self.rng
        label = r.choice(self.meta["labels"])
        m, kw = c11.ask_of(r, label, c11.gen_kw(r, label, self.meta["ages"]))
        return (m, [], kw)

    def g_R_wanted(self):
        from .checks import c11
        r = self.rng
        label, kw = r.choice(self.meta["wanted"])
        kw = dict(kw)
        if r.random() < 0.2 and "b" in kw:
            kw["b"] = r.choice([1, 2, 1000])
        m, kw = c11.ask_of(r, label, kw)
        return (m, [], kw)

    def g_R_e(self):                              # the lifetime search is exponential in the depth limit
        if self.meta["depth"] > 1:
            return None
        return ("e_x", [], self.opt(self.opt(self.base(0.2), "t", self.rng.choice([1, 2, WHOLE])), "curtate", True))


LIFE_Q = [n[2:] for n in dir(Q) if n.startswith("g_") and not n.startswith("g_R_")]
RECURSION_Q = [n[2:] for n in dir(Q) if n.startswith("g_R_")] + ["interest", "R_A", "R_a", "R_p_x"]
RECURSION_Q = [n for n in RECURSION_Q if n not in ("R_true", "R_wanted")]
TRUE_Q = ["R_true"] * 4 + ["R_wanted"] * 5 + ["R_p_x", "R_A", "interest"]


def norm(name, kw):
    if isinstance(kw, tuple):
        m, a, k = kw
        return dict(op="ask", m=m, a=a, kw=k)
    return dict(op="ask", m=name, a=[], kw=kw)


# queries whose result may jump when an assumption moves by a rounding error
JUMPY = {"L_to_t", "L_to_prob", "L_from_prob", "Z_t", "Y_t", "Z_from_prob", "Y_from_prob"}


class VQ:
    """Query generator for a view."""
    def __init__(self, rng, kind, meta, m):
        self.rng, self.kind, self.meta, self.m = rng, kind, meta, m

    def ask(self):
        r, k = self.rng, self.kind
        x = r.choice(self.meta["ages"])
        kw = dict(x=x)
        if r.random() < 0.4:
            kw["s"] = r.choice([0, 1, 2])
        if k == "ExtraRisk":
            if r.random() < 0.15:
                return dict(op="ask", m="[" + r.choice("qp") + "]", a=[], kw={})
            return dict(op="ask", m=r.choice(["p_x", "q_x"]), a=[], kw=kw)
        t = r.choice([1, 2, 3, 5])
        b = r.choice([1, 2, 1000])
        low = [("E_x", dict(t=t, moment=r.choice([1, 2]))), ("A_x", dict(t=t, benefit=benefit(r), moment=r.choice([1, 2]))),
               ("p_m", dict(s_m=r.choice([0, 1, 5]), t_m=r.choice([1, 3]))), ("q_m", dict(s_m=r.choice([0, 1, 5]), t_m=r.choice([1, 3]), u_m=r.choice([0, 2]))),
               ("Z_m", dict(t=min(t, 2), moment=r.choice([1, 2])))]
        if k == "Mthly":
            name, ex = r.choice(low + [("v_m", None), ("insurance_twin", None), ("annuity_twin", None), ("annuity_variance", None),
                                       ("term_insurance", dict(t=t)), ("whole_life_insurance", dict(b=b, moment=r.choice([1, 2, -2]))),
                                       ("whole_life_annuity", dict(b=b, variance=r.random() < 0.3)), ("temporary_annuity", dict(t=t, b=b, variance=r.random() < 0.3)),
                                       ("deferred_insurance", dict(n=r.choice([1, 2]), t=t)), ("immediate_annuity", dict(t=t, b=b)), ("deferred_annuity", dict(u=1, t=t)),
                                       ("endowment_insurance", dict(t=t, b=b, moment=r.choice([1, 1, -2])))])
        elif k == "UDD":
            name, ex = r.choice(low + 3 * [("whole_life_insurance", dict(b=b, moment=r.choice([1, 1, 2]))), ("endowment_insurance", dict(t=t, b=b)),
                                           ("term_insurance", dict(t=t, b=b)), ("whole_life_annuity", dict(b=b)), ("temporary_annuity", dict(t=t, b=b)),
                                           ("immediate_annuity", dict(t=t)), ("deferred_insurance", dict(n=r.choice([1, 2]), t=t))] +
                                [("annuity_twin", None), ("insurance_twin", None), ("alpha_m", "prop"), ("beta_m", "prop"), ("deferred_annuity", dict(u=1, t=t))])
        else:
            name, ex = r.choice(low + 3 * [("whole_life_insurance", dict(b=b)), ("endowment_insurance", dict(t=t, b=b)), ("term_insurance", dict(t=t, b=b)),
                                           ("whole_life_annuity", dict(b=b)), ("temporary_annuity", dict(t=t, b=b)), ("deferred_annuity", dict(t=t, u=r.choice([1, 2]))),
                                           ("deferred_insurance", dict(t=t, u=1)), ("mu_x", {})] + [("annuity_twin", None)])
        if ex == "prop":
            return dict(op="ask", m=name, a=[], kw={})
        if ex is None:
            kw = {"v_m": dict(k=r.choice([1, 5])), "insurance_twin": dict(a=r.choice([5.0, 7.5])), "annuity_twin": dict(A=r.choice([0.4, 0.25])),
                  "annuity_variance": dict(A2=r.choice([0.3, 0.2]), A1=r.choice([0.4, 0.35]))}[name]
        else:
            if name in ("p_m", "q_m"):
                kw.pop("s", None)
            kw.update(ex)
        return dict(op="ask", m=name, a=[], kw=kw)


def mutate(rng, ask, gen):
    """A neighbour of an earlier query: one argument redrawn."""
    fresh = getattr(gen, "__self__", None)
    fresh = fresh.like(ask["m"]) if isinstance(fresh, Q) else None
    for _ in range(0 if fresh else 12):
        fresh = gen()
        if fresh["m"] == ask["m"]:
            break
    if fresh is None or fresh["m"] != ask["m"] or not fresh["kw"]:
        kw = dict(ask["kw"])
        if "x" in kw and isinstance(kw["x"], int):
            kw["x"] = kw["x"] + 1
        return dict(ask, kw=kw)
    kw = dict(ask["kw"])
    k = rng.choice(sorted(fresh["kw"]))
    kw[k] = fresh["kw"][k]
    return dict(ask, kw=kw)


def asks(rng, gen, n):
    """A query history with repeats and near-repeats."""
    out = []
    for _ in range(n):
        r = rng.random()
        if out and r < 0.22:
            out.append(dict(rng.choice(out)))
        elif out and r < 0.55:
            out.append(mutate(rng, rng.choice(out[-4:]), gen))
        else:
            out.append(gen())
    return out
