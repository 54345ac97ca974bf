"""C16: arguments stay the caller's."""
import copy, sys
from ..core import Check
from ..world import World, jkey, strip
from ..outcome import canon, close, short
from .. import catalog as cat
from .. import loads
from .. import scene as sc
from . import c08, c09, c10, c13

D = cat.D
DEFAULTS = dict(premium=1, initial_policy=0, initial_premium=0, renewal_policy=0, renewal_premium=0, settlement_policy=0, benefit=1, endowment=0, T=-999, discrete=True)          # a negative term: for life
POLICY = ["gross_policy_value", "gross_policy_value", "gross_policy_variance", "gross_future_loss", "gross_variance_loss", "L_from_t", "L_from_prob", "L_to_t", "L_to_prob"]


def renewed(c, t):
    """Terms of the contract after t years, as documented (independent of the library)."""
    return dict(c, initial_policy=c["renewal_policy"], initial_premium=c["renewal_premium"], T=c["T"] - t)


def exact(a, b):
    """Same content, of the same types, in the same order."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(exact(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


class Owner:
    """Things that belong to the caller, next to what the caller made of them."""
    def __init__(self, w):
        self.w, self.real, self.model, self.kind = w, {}, {}, {}

    def create(self, name, kind, value):
        self.kind[name] = kind
        if kind == "contract":
            m = dict(DEFAULTS, **value)
            self.real[name], self.model[name] = self.w.am.Contract(**value), m
        else:
            m = self.plain(kind, value)
            self.real[name], self.model[name] = copy.deepcopy(m), m

    @staticmethod
    def plain(kind, value):
        if kind in ("dict", "rows"):
            return {k: (list(v) if isinstance(v, list) else v) for k, v in value}
        return list(value)

    def change(self, name, how, arg):
        kind = self.kind[name]
        for o in (self.model[name], self.real[name]):
            if kind == "contract":
                if o is self.model[name]:
                    o.update(arg)
                elif how == "set_contract":
                    o.set_contract(**arg)
                else:
                    for k, v in arg.items():
                        setattr(o, k, v)
            elif how == "clear":
                o.clear()
            elif how == "become":
                o.clear()
                new = self.plain(kind, arg)
                o.update(new) if isinstance(o, dict) else o.extend(new)
            elif how == "scale":                       # every value, and inner rows in place
                for k in (list(o) if isinstance(o, dict) else range(len(o))):
                    if isinstance(o[k], list):
                        o[k][:] = [None if v is None else v * arg for v in o[k]]
                    elif o[k] is not None:
                        o[k] = o[k] * arg
            elif how == "drop":
                for k in (list(o)[:1] if isinstance(o, dict) else ([0] if o else [])):
                    if isinstance(o[k], list) and len(o[k]) > 1:
                        o[k].pop()
                    else:
                        o.pop(k)
            elif how == "more":
                if isinstance(o, dict):
                    top = max([k for k in o], default=40)
                    o[top + 1] = [0.5, 0.6] if kind == "rows" else 0.5
                else:
                    o.append(arg)

    def derive(self, name, of, t):
        self.kind[name] = "contract"
        self.real[name], self.model[name] = self.real[of].renewals(t), renewed(self.model[of], t)

    def literal(self, name):
        m, kind = self.model[name], self.kind[name]
        if kind == "contract":
            return {"$c": dict(m)}
        if kind in ("dict", "rows"):
            return {"$d": [[k, copy.deepcopy(v)] for k, v in m.items()]}
        return copy.deepcopy(m)

    def spoilt(self):
        """The first thing that is not what the caller made of it."""
        for n in self.real:
            have = self.real[n]
            if self.kind[n] == "contract":
                have = {k: getattr(have, k, "(missing)") for k in self.model[n]}
                if all(have[k] == self.model[n][k] or k == "T" and have[k] != "(missing)" and max(have[k], self.model[n][k]) < 0 for k in have):
                    continue
            elif exact(have, self.model[n]):
                continue
            return n, repr(have)[:150], repr(self.model[n])[:150]


class OwnWorld(World):
    def __init__(self):
        super().__init__()
        self.owner = Owner(self)

    def dec(self, v):
        if isinstance(v, dict) and "$own" in v:
            return self.owner.real[v["$own"]]
        return super().dec(v)

    def lit(self, v):
        if isinstance(v, dict):
            if "$own" in v:
                return self.owner.literal(v["$own"])
            return {k: self.lit(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.lit(x) for x in v]
        return v

    def known(self, v):
        if isinstance(v, dict):
            if "$own" in v:
                return v["$own"] in self.owner.real
            if "$obj" in v:
                return v["$obj"] in self.objs
            return all(self.known(x) for x in v.values())
        if isinstance(v, list):
            return all(self.known(x) for x in v)
        return True


def vandalise(v, how):
    """The caller does as it likes with something it was given."""
    import pandas as pd
    if isinstance(v, pd.DataFrame):
        if how == 0 and v.size:
            v.iloc[:, :] = -1.0
        elif how == 1:
            v.drop(index=list(v.index), inplace=True)
        elif how == 2:
            for c in list(v.columns):
                v.drop(columns=[c], inplace=True)
        else:
            for c in list(v.columns):
                try:
                    v[c].to_numpy()[:] = -1.0          # the memory underneath, where it is writable
                except ValueError:
                    v[c] = -1.0
    elif isinstance(v, dict):
        v.clear()
    elif isinstance(v, list):
        v[:] = []


class C16(Check):
    id = "C16"
    quick_runs = 1300
    thorough_runs = 50000
    rule = ("a run has one to three models (life tables and select tables loaded in several calls, reserve tables, policy values on any model) which share dicts of table columns, select "
            "rows, reserves, guess lists and contracts that belong to the caller; between the calls - some rejected or interrupted - the caller changes, clears, refills and "
            "reuses them, derives contracts by renewals and spoils returned frames; after every call everything the caller owns is compared with what the caller made of it, and "
            "every answer with that of a pristine twin that was given literals; non-trivial: something shared was changed after use and 4 answers compared")
    assumptions = ["an interrupted load is repeated with the same arguments", "lt['q'] and sel['q'] hand out the live column, as documented by use; columns so obtained are not changed"]

    def generate(self, rng, tier):
        self.rng, self.n = rng, 0
        self.owned = {}                               # name -> kind
        self.ops = []
        for k in range(rng.choice([1, 1, 2])):
            getattr(self, "gen_" + rng.choice(["lt", "sel", "res", "res", "pol", "pol"]))("abc"[k])
        ops = self.ops
        del self.rng, self.ops, self.owned
        return dict(ops=ops)

    # ---- the caller's things ------------------------------------------------------------------------------
    def own(self, kind, value):
        """A thing of that content: a new one, or an earlier one refilled."""
        rng = self.rng
        old = [n for n, k in self.owned.items() if k == kind]
        if kind != "contract" and old and rng.random() < 0.4:
            n = rng.choice(old)
            self.ops.append(dict(op="mut", name=n, how="become", arg=value))
            return {"$own": n}
        if kind == "contract" and old and rng.random() < 0.6:
            n = rng.choice(old)
            r = rng.random()
            if r < 0.3:
                self.ops.append(dict(op="mut", name=n, how=rng.choice(["set_contract", "attr"]), arg=value))
            elif r < 0.55:
                new = "c%d" % self.n
                self.n += 1
                self.ops.append(dict(op="derive", name=new, of=n, t=rng.choice([0, 1, 2])))
                self.owned[new] = "contract"
                if rng.random() < 0.6:
                    self.ops.append(dict(op="mut", name=rng.choice([n, new]), how=rng.choice(["set_contract", "attr"]), arg=value))
                n = rng.choice([n, new])
            return {"$own": n}
        n = "%s%d" % (kind[0], self.n)
        self.n += 1
        self.owned[n] = kind
        self.ops.append(dict(op="own", name=n, kind=kind, value=value))
        return {"$own": n}

    def ownify(self, kw):
        """Literals in a call replaced by things of the caller's."""
        out = {}
        here = []
        for k, v in kw.items():
            if isinstance(v, dict) and "$d" in v:
                v = v["$d"]
                kind = "rows" if v and isinstance(v[0][1], list) else "dict"
                mark = len(self.ops)
                ref = self.own(kind, v)
                if ref["$own"] in here:                # already an argument of this very call
                    del self.ops[mark:]
                    n = "%s%d" % (kind[0], self.n)
                    self.n += 1
                    self.owned[n] = kind
                    self.ops.append(dict(op="own", name=n, kind=kind, value=v))
                    ref = {"$own": n}
                here.append(ref["$own"])
                v = ref
            elif isinstance(v, dict) and "$c" in v:
                v = self.own("contract", v["$c"])
            elif k == "grid" and isinstance(v, list):
                v = self.own("list", v)
            out[k] = v
        return out

    def meddle(self, p=0.6):
        rng = self.rng
        if self.owned and rng.random() < p:
            n = rng.choice(sorted(self.owned))
            if self.owned[n] == "contract":
                c = cat.contract(rng)["$c"] or dict(premium=3)
                self.ops.append(dict(op="mut", name=n, how=rng.choice(["set_contract", "attr"]), arg=c))
            else:
                how = rng.choice(["clear", "scale", "scale", "drop", "more", "more"])
                self.ops.append(dict(op="mut", name=n, how=how, arg=rng.choice([0.5, 2.0])))

    def load(self, op, ids, verbose=False, custom=False):
        rng = self.rng
        op = dict(op, kw=self.ownify(op["kw"]))
        for i in ids:
            o = dict(op, id=i)
            if rng.random() < 0.2:
                self.ops.append(dict(o, fault=loads.load_fault(rng, verbose, custom), void=True))
            if rng.random() < 0.05:
                self.ops.append(dict(o, kw=dict(o["kw"], radix="many", nonsense=1), void=True))
            self.ops.append(o)
            if rng.random() < 0.3:
                self.meddle()
        self.meddle()

    def ask(self, q, i, meta=None):
        rng = self.rng
        q = dict(q, id=i, kw=self.ownify(q.get("kw", {})))
        if rng.random() < 0.15:
            self.ops.append(dict(q, fault=sc.gen_fault(rng, q, meta or {}, False)))
        self.ops.append(q)
        self.meddle(0.4)

    def spoil(self, i, q):
        self.ops.append(dict(op="spoil", id=i, m=q["m"], a=q.get("a", []), kw=q.get("kw", {}), how=self.rng.randrange(4)))

    # ---- scenes -------------------------------------------------------------------------------------------
    def pair(self, id):
        return [id] if self.rng.random() < 0.5 else [id, id + id]

    def gen_lt(self, id):
        rng = self.rng
        basis = loads.lt_basis(rng)
        lo, hi = basis["lo"], basis["lo"] + len(basis["q"])
        ids = self.pair(id)
        for i in ids:
            self.ops.append(dict(op="new", id=i, kind="LifeTable", kw=dict(udd=rng.random() < 0.5, verbose=False)))
            self.ops.append(dict(op="do", id=i, m="set_interest", kw=dict(i=rng.choice([0.0, 0.04]))))
        ref = loads.LTRef(basis)
        for op in loads.lt_loads(rng, basis):
            if op["op"] == "point":
                for i in ids:
                    for q in c09.CHECK.asks(rng, lo, hi, rng.choice([0, 2])):
                        self.ask(q, i)
                    if rng.random() < 0.3:
                        self.spoil(i, dict(m="frame"))
            elif not op.get("void"):
                self.load(op, ids)
        for i in ids:
            for q in c09.CHECK.asks(rng, lo, hi, 3):
                self.ask(q, i)

    def gen_sel(self, id):
        rng = self.rng
        basis = loads.sel_basis(rng)
        ref = loads.SelRef(basis)
        ids = self.pair(id)
        for i in ids:
            self.ops.append(dict(op="new", id=i, kind="SelectLife", kw=dict(periods=basis["n"], udd=rng.random() < 0.5, verbose=False)))
            self.ops.append(dict(op="do", id=i, m="set_interest", kw=dict(i=basis["i"])))
        for op in loads.sel_loads(rng, basis):
            if op["op"] == "point":
                for i in ids:
                    for q in c10.CHECK.asks(rng, ref, rng.choice([0, 2])):
                        self.ask(q, i)
                    if rng.random() < 0.3:
                        self.spoil(i, dict(m="frame", kw=dict(table=rng.choice("lqd"))))
            else:
                self.load(op, ids)
        for i in ids:
            for q in c10.CHECK.asks(rng, ref, 3):
                self.ask(q, i)

    def gen_res(self, id):
        rng = self.rng
        new, conf, m, x, last = c13.models(rng)
        ids = self.pair(id)
        i_kw = cat.gen_interest(rng, custom=0)
        custom = bool(conf) and sc.has_fn(conf[0][1])
        for i in ids:
            self.ops.append(dict(op="new", id=i, **new))
            mine = [dict(op="do", m=c, kw=kw) for c, kw in conf]
            for op in mine:
                if i == ids[0]:
                    op["kw"] = self.ownify(op["kw"])
                self.ops.append(dict(op, id=i))
            self.ops.append(dict(op="do", id=i, m="set_interest", kw=i_kw))
        if conf and rng.random() < 0.5:
            self.meddle(1.0)
        Q = cat.Q(rng, dict(kind=new["kind"], ages=[x, x + 1], top=x + last, udd=True, depth=1))
        T = min(rng.choice([2, 3, 5, 8]), last + 1)
        first = True
        for _ in range(rng.randint(2, 5)):
            r = rng.random()
            if first or r < 0.45:
                kw = {}
                if first or rng.random() < 0.3:
                    kw["T"] = T = min(rng.choice([2, 3, 5, 8]), last + 1)
                if rng.random() < 0.5:
                    kw["endowment"] = rng.choice([0, 100, 1000.0])
                if rng.random() < 0.75:
                    ks = rng.sample(range(0, T + 1), min(T, rng.choice([1, 1, 2, 3])))
                    kw["V"] = D({k: rng.choice([0.5, 12.25, 321.5, -4.5, 0]) for k in ks})
                self.load(dict(op="do", m="set_reserves", kw=kw), ids, custom=custom)
                first = False
            else:
                c = dict(cat.contract(rng)["$c"])
                c.pop("T", None)
                kw = dict(x=x, contract={"$c": c})
                if rng.random() < 0.3:
                    kw["reserve_benefit"] = True
                self.load(dict(op="do", m="fill_reserves", kw=kw), ids, custom=custom)
            for i in ids:
                if rng.random() < 0.5:
                    self.ask(dict(op="ask", m="reserves_frame", a=[], kw={}), i)
                if rng.random() < 0.4:
                    q = cat.norm("t_V", Q.g_t_V()) if rng.random() < 0.6 else cat.norm(None, Q.g_r_V())
                    self.ask(dict(q, kw=dict(q["kw"], x=x)), i)
                if rng.random() < 0.3:
                    self.spoil(i, dict(m="reserves_frame"))
        for i in ids:
            self.ask(dict(op="ask", m="reserves_frame", a=[], kw={}), i)

    def gen_pol(self, id):
        rng = self.rng
        gens, ops = {}, []
        kinds = [k for k in ("ConstantForce", "Gompertz", "Uniform", "PolicyValues", "Reserves", "SULT", "LifeTable", "SelectLife", "Survival")] if rng.random() < 0 else None
        meta = sc.scene(rng, id, kinds=kinds, views=0, ops=ops, gens=gens)
        for op in ops:
            if op["op"] == "do":
                op = dict(op, kw=self.ownify(op["kw"]))
            self.ops.append(op)
        self.meddle(0.5)
        ask = gens[id][0]
        Q = ask.__self__
        names = [n for n in POLICY if n in Q.names()] or ["gross_future_loss"]
        if meta["kind"] == "Recursion":
            names = ["gross_future_loss", "gross_variance_loss"]
        for _ in range(rng.randint(4, 9)):
            r = rng.random()
            if r < 0.06 and meta["kind"] != "Recursion":
                kw = dict(x=rng.choice(meta["ages"]), stop=rng.choice([0, 3, 6]), contract=cat.contract(rng))
                if rng.random() < 0.5:
                    kw.update(dual=True, T=rng.choice([1, 2.5]))
                q = dict(op="ask", m="L_plot", a=[], kw=kw)
            elif r < 0.7:
                n = rng.choice(names)
                q = cat.norm(n, getattr(Q, "g_" + n)())
            elif r < 0.8:
                q = dict(op="ask", m="solve", a=[], kw=dict(fun={"$fn": rng.choice([["b1_lin", 1, 0.5], ["b1_lin", -2, 3.0]])}, target=rng.choice([0.5, 2.0]),
                                                            grid=rng.choice([[0, 10], [0.0, 1.0, 4.0], [3, 1, 2]]), **(dict(mad=True) if rng.random() < 0.4 else {})))
            else:
                q = ask()
            self.ask(q, id, meta)
            if rng.random() < 0.25:
                cs = [n for n, k in self.owned.items() if k == "contract"]
                if cs:
                    n = rng.choice(cs)
                    m = rng.choice(["premium_terms", "premium_terms", "initial_cost", "claims_cost", "renewal_profit"])
                    self.ops.append(dict(op="terms", name=n, m=m))

    # ---- execution ----------------------------------------------------------------------------------------
    def execute(self, case):
        return run(case)

    def judge(self, case, rec, oracle):
        out = list(rec["bad"])
        for o in rec["obs"]:
            exp = oracle.expect(o["recipe"], o["ask"])
            if exp[0] == "build-raise":
                continue
            rec["stats"]["probe:answers compared"] = rec["stats"].get("probe:answers compared", 0) + 1
            rel, ab = c08.TOL.get(o["kind"], (1e-9, 1e-9)) if o["repeated"] else (1e-9, 1e-9)
            if not close(o["out"], exp, rel, ab):
                out.append(dict(cls="answer-tied-to-argument", detail="op %d: %s.%s%s returned %s; a pristine twin given literals returns %s" % (
                    o["k"], o["id"], o["ask"]["m"], jkey(o["ask"].get("kw", {})), short(o["out"]), short(exp))))
        return out

    def nontrivial(self, case, rec):
        s = rec["stats"]
        return s.get("probe:changed after use", 0) >= 1 and s.get("probe:answers compared", 0) >= 4


def run(case):
    w = OwnWorld()
    old, sys.stdout = sys.stdout, w.out
    obs, log, bad = [], [], []
    own = w.owner
    used, kinds, repeated, kept = set(), {}, set(), []

    def names(v):
        if isinstance(v, dict):
            return [v["$own"]] if "$own" in v else [n for x in v.values() for n in names(x)]
        return [n for x in v for n in names(x)] if isinstance(v, list) else []

    for k, op in enumerate(case["ops"]):
        what = op["op"]
        if what in ("mut", "terms") and op["name"] not in own.real or what == "derive" and op["of"] not in own.real:
            continue
        if what in ("do", "ask", "spoil") and op["id"] not in w.objs or not w.known(op.get("kw", {})):
            continue
        w.count("ops")
        out, fired = ["none"], None
        if what == "own":
            own.create(op["name"], op["kind"], op["value"])
        elif what == "mut":
            own.change(op["name"], op["how"], op["arg"])
            w.count("probe:changed after use", op["name"] in used)
        elif what == "derive":
            own.derive(op["name"], op["of"], op["t"])
        elif what == "terms":
            v = getattr(own.real[op["name"]], op["m"])
            out = canon(v)
            want = canon(facts(own.model[op["name"]], op["m"]))
            w.count("probe:contract terms compared")
            if not close(out, want):
                bad.append(dict(cls="contract-terms", detail="op %d: %s of contract %s is %s; its terms give %s" % (k, op["m"], jkey(own.model[op["name"]]), short(out), short(want))))
            vandalise(v, 0)
        elif what == "spoil":
            try:
                v = w.raw(dict(op, op="ask"))
            except Exception as e:
                v = None
            if v is not None:
                vandalise(v, op["how"])
                kept.append((k, v, canon(v)))
                w.count("probe:returned frames spoilt")
        else:
            lit = dict(op, kw=w.lit(op.get("kw", {})))
            used.update(names(op.get("kw", {})))
            if op.get("fault"):
                out, exc, fired = w.perform_faulted(op, op["fault"])
            else:
                out = w.perform(op)
            if what == "new" and out[0] != "raise":
                kinds[op["id"]] = op["kind"]
                w.accepted(lit)
            elif what == "do":
                if out[0] != "raise":
                    w.accepted(lit)
                elif op.get("fault"):
                    repeated.add(op["id"])
            elif what == "ask" and not fired:
                obs.append(dict(k=k, id=op["id"], kind=kinds[op["id"]], ask=strip(lit), recipe=w.recipe(op["id"], False), out=out, repeated=op["id"] in repeated))
        log.append([k, what, op.get("m") or op.get("name"), out, fired])
        sp = own.spoilt()
        if sp:
            bad.append(dict(cls="argument-modified", detail="op %d (%s %s%s): the caller's %s is now %s; the caller made it %s" % (
                k, what, op.get("m") or "", jkey(op.get("kw", op.get("arg"))), sp[0], sp[1], sp[2])))
            break
        for k0, v, c in kept:
            if not close(canon(v), c, 0, 0):
                bad.append(dict(cls="returned-frame-changed", detail="op %d (%s %s) changed the frame returned at op %d" % (k, what, op.get("m"), k0)))
                kept = []
                break
    sys.stdout = old
    return dict(obs=obs, log=log, bad=bad, stats=w.stats)


def facts(c, m):
    """What a contract's terms give."""
    if m == "premium_terms":
        return {k: c[k] for k in ("benefit", "initial_policy", "initial_premium", "renewal_policy", "renewal_premium", "settlement_policy")}
    if m == "initial_cost":
        return c["initial_policy"] - c["renewal_policy"] + c["premium"] * (c["initial_premium"] - c["renewal_premium"])
    if m == "claims_cost":
        return c["benefit"] + c["settlement_policy"]
    return c["premium"] * (1 - c["renewal_premium"]) - c["renewal_policy"]


CHECK = C16()
