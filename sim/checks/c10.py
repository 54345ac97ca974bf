"""C10: a select table means the select mortality it was loaded with."""
from ..core import Check
from ..world import jkey
from ..outcome import short
from .. import loads
from . import c09

REL = 1e-8


class C10(Check):
    id = "C10"
    quick_runs = 2500
    thorough_runs = 60000
    rule = ("a run draws one select-and-ultimate mortality (1-3 select years, 1-6 ages), loads entries of its l, d, q, e (and A, a) columns by whole tables and single select "
            "columns (by selected or attained age) in any order, with repeats, partial rows, filling on or off and interrupted attempts repeated, and compares every entry and "
            "l, p, q, e lookups with the mortality itself; non-trivial: at least two loads and 6 values compared")
    assumptions = ["a whole-table load starts the table afresh (the shipped behaviour); an interrupted load is followed by the same load (what it leaves otherwise is C08's concern)"]

    def generate(self, rng, tier):
        basis = loads.sel_basis(rng)
        verbose = rng.random() < 0.4
        kw = dict(periods=basis["n"], udd=rng.random() < 0.5, verbose=verbose)
        infer = rng.random() < 0.3
        if infer:
            kw.pop("periods")
        ops = [dict(op="new", id="a", kind="SelectLife", kw=kw), dict(op="do", id="a", m="set_interest", kw=dict(i=basis["i"]))]
        ref = loads.SelRef(basis)
        for op in loads.sel_loads(rng, basis, fault_p=rng.choice([0, 0.3]), verbose=verbose, infer=infer):
            if op["op"] == "point":
                ops += self.asks(rng, ref, rng.choice([0, 2, 4]))
            else:
                ops.append(op)
        ops += self.asks(rng, ref, 14)
        return dict(ops=ops, basis=basis)

    def asks(self, rng, ref, n):
        out = []
        for _ in range(n):
            m = rng.choice(["l_x", "p_x", "q_x", "l_x", "p_x", "q_x", "col", "frame", "e_x", "fr", "fr", "fr", "e_t", "E_x", "d_x", "e_r"])
            x = rng.randint(ref.lo, ref.hi)
            s = rng.randint(0, ref.n + ref.hi - x)
            last = ref.n + ref.hi - x                   # largest duration inside the table
            kw = dict(x=x, s=s)
            if s == 0 and rng.random() < 0.5:
                kw.pop("s")
            if m == "p_x":
                kw["t"] = rng.randint(0, last + 1 - s)
            if m == "q_x":
                u = rng.randint(0, last + 1 - s)
                kw.update(u=u, t=rng.randint(0, last + 1 - s - u))
                if kw["t"] == 1 and rng.random() < 0.5:
                    kw.pop("t")
            if m in ("E_x", "d_x"):
                kw["t"] = rng.randint(0, last - s)
                if m == "E_x" and rng.random() < 0.4:
                    kw["moment"] = rng.choice([2, -2])
            if m == "e_t":
                m = "e_x"
                kw["t"] = rng.randint(1, last + 1 - s)
            if m == "e_r" and rng.random() < 0.7:
                kw["t"] = rng.choice([0.3, 1, 1.6, 2, 2.7])
            if m == "fr":
                m = rng.choice(["l_r", "p_r", "p_r", "q_r", "q_r", "mu_r", "f_r", "E_r", "S", "l", "f", "mu"])
                kw["s"] = s
                r, t = rng.choice([0, 0.25, 0.5, 0.75, 1.3, 2.25]), rng.choice([0, 0.2, 0.4, 1, 1.45, 2, 3.4])
                if m in ("l_r", "p_r", "q_r", "mu_r", "f_r", "E_r"):
                    kw["r"] = r
                    if m in ("p_r", "q_r", "f_r", "E_r"):
                        kw["t"] = t
                    if m == "q_r" and rng.random() < 0.5:
                        kw["u"] = rng.choice([0.1, 0.35, 1, 1.7])
                else:
                    out.append(dict(op="ask", id="a", m=m, a=[x, s, t] if m in "Sf" else [x, s + r], kw={}))
                    continue
            if m == "col":
                out.append(dict(op="ask", id="a", m="[%s]" % rng.choice("ldqeAa"), a=[], kw={}))
            elif m == "frame":
                out.append(dict(op="ask", id="a", m="frame", a=[], kw=dict(table=rng.choice("ldqeAa"))))
            else:
                out.append(dict(op="ask", id="a", m=m, a=[], kw=kw))
        return out

    def execute(self, case):
        return c09.run(case)

    def judge(self, case, rec, oracle):
        return judge(case, rec)

    def nontrivial(self, case, rec):
        return rec["stats"].get("probe:values compared", 0) >= 6 and rec["stats"].get("ops", 0) > 4


def near(a, b):
    return abs(a - b) <= REL * max(abs(a), abs(b)) + 1e-9


def judge(case, rec, price=None):
    ref = loads.SelRef(case["basis"])
    n = ref.n
    empty = lambda: {c: set() for c in "ldqeAa"}
    known, given, lo, hi = empty(), empty(), None, None
    i = ref.i
    out = []

    def stat(name):
        rec["stats"][name] = rec["stats"].get(name, 0) + 1

    def bad(k, cls, text):
        out.append(dict(cls=cls, detail="op %d: %s" % (k, text)))

    def compare(k, c, x, s, v):
        want = ref.val(c, x, s) if ref.has(x, s) else None
        if want is None:
            return bad(k, "wrong-entry", "%s[%d]+%d = %r outside the table supplied" % (c, x, s, v))
        stat("probe:values compared")
        if (x, s) in given[c] and v != want:
            bad(k, "supplied-entry-changed", "%s of [%d]+%d is %r; %r was supplied" % (c, x, s, v, want))
        elif not near(v, want):
            bad(k, "wrong-entry", "%s of [%d]+%d is %r; the mortality supplied gives %.12g" % (c, x, s, v, want))
    for k, kind, m, got, fired in rec["log"]:
        op = case["ops"][k]
        kw = op.get("kw", {})
        if kind == "new":
            if got[0] == "raise":
                bad(k, "load-raised", "SelectLife() raised")
                return out
            continue
        if kind == "do":
            if got[0] == "raise":
                if fired or op.get("void"):
                    continue
                bad(k, "load-raised", "%s%s raised %s" % (m, jkey(kw), got[1]))
                return out
            if m == "set_interest":
                i = kw["i"]
            elif m == "set_table":
                known, given, lo, hi = empty(), empty(), None, None
                for c in "ldqeAa":
                    for x, row in kw.get(c, {"$d": []})["$d"]:
                        lo, hi = (x, x) if lo is None else (min(lo, x), max(hi, x))
                        for s, v in enumerate(row):
                            if v is not None:
                                known[c].add((x, s))
                                given[c].add((x, s))
            elif m == "set_select":
                s = n if kw["s"] < 0 else kw["s"]
                for c in "ldqeAa":
                    for age, v in kw.get(c, {"$d": []})["$d"]:
                        x = age if kw["age_selected"] else age - s
                        lo, hi = (x, x) if lo is None else (min(lo, x), max(hi, x))
                        known[c].add((x, s))
                        given[c].add((x, s))
            if (m == "fill_table" or kw.get("fill", m == "set_table")) and lo is not None:
                known = ref.closure(known, lo, hi)
                if not known["l"]:
                    known["l"].add((lo, 0))
                    known = ref.closure(known, lo, hi)
            continue
        if price and m in price.asked:
            want = price(m, kw, ref, known, i, hi)
            if want is None:
                stat("undetermined lookups")
                continue
            stat("probe:values compared")
            if got[0] != "n" or not abs(got[1] - want[0]) <= 1e-7 * max(abs(want[0]), want[1]) + 1e-9:
                bad(k, "wrong-price", "%s%s returned %s; the mortality supplied gives %.12g" % (m, jkey(kw), short(got), want[0]))
            continue
        if m == "frame" or m.startswith("["):
            if got[0] == "raise":
                bad(k, "lookup-raised", "%s%s raised %s" % (m, jkey(kw), got[1]))
                continue
            c = kw["table"] if m == "frame" else m[1]
            cells = {}
            if m == "frame":
                for x, row in zip(got[2], got[3]):
                    for s, v in zip(got[1], row):
                        if v[0] == "n":
                            cells[int(x), int(s)] = v[1]
            else:
                for x, row in got[1]:
                    for s, v in row[1]:
                        if v[0] == "n":
                            cells[int(x), int(s)] = v[1]
            miss = sorted(known[c] - set(cells))
            if miss:
                bad(k, "entry-missing", "column %s lacks %s that the supplied data determine" % (c, miss[:5]))
            for (x, s), v in sorted(cells.items()):
                compare(k, c, x, s, v)
            continue
        if m not in ("l_x", "p_x", "q_x") and (m != "e_x" or "t" in kw) and (m != "e_r" or "t" in kw):
            x, end = kw["x"] if kw else op["a"][0], n + ref.hi + 1
            along = lambda k: ref.l(x, k - x) if k < end else ref.l(x, k - 1 - x) * (1 - ref.q(x, k - 1 - x))
            _, ages, want = c09.value(m, c09.args(op), along, case["ops"][0]["kw"]["udd"], i, end)
            stretch = m in ("e_x", "e_r", "mu_r", "mu")       # answered from the rates alone
            if want is None or not all(ref.wrap(x, k - x) in known["q"] for k in (ages if m in ("S", "p_r", "q_r", "E_r") else ages[:-1])) or \
                    not stretch and not all(ref.wrap(x, k - x) in known["l"] for k in ages):
                stat("undetermined lookups")
                continue
            stat("probe:values compared")
            if got[0] != "n" or not abs(got[1] - want[0]) <= 1e-7 * max(abs(want[0]), want[1]) + 1e-9:
                bad(k, "wrong-lookup", "%s%s%s returned %s; the mortality supplied gives %.12g" % (m, jkey(op["a"]) if op["a"] else "", jkey(kw), short(got), want[0]))
            continue
        if m == "e_r":
            if not case["ops"][0]["kw"]["udd"] or ref.wrap(kw["x"], kw.get("s", 0)) not in known["e"]:
                continue
        x, s, t, u = kw["x"], kw.get("s", 0), kw.get("t", 1), kw.get("u", 0)
        need = dict(l_x=[0], e_x=[0], e_r=[0], p_x=range(t), q_x=range(u + t))[m]
        col = dict(l_x="l", e_x="e", e_r="e").get(m, "q")
        if not all(ref.wrap(x, s + j) in known[col] for j in need):
            stat("undetermined lookups")
            continue
        p = lambda a, b: 1.0 if a >= b else (1 - ref.q(x, s + a)) * p(a + 1, b)
        want = dict(l_x=lambda: ref.l(x, s), e_x=lambda: ref.val("e", x, s), e_r=lambda: ref.val("e", x, s) + 0.5, p_x=lambda: p(0, t), q_x=lambda: p(0, u) * (1 - p(u, u + t)))[m]()
        stat("probe:values compared")
        if got[0] != "n" or not near(got[1], want):
            bad(k, "wrong-lookup", "%s%s returned %s; the mortality supplied gives %.12g" % (m, jkey(kw), short(got), want))
    return out


CHECK = C10()
