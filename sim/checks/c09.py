"""C09: a life table means the mortality it was loaded with, in any load history."""
import math, sys
from ..core import Check
from ..world import World, jkey, strip
from ..outcome import short
from .. import catalog as cat
from .. import loads

REL = 2e-6


def rate(rng):
    return dict(op="do", id="a", m="set_interest", kw=dict(i=rng.choice([0.0, 0.004, 0.03, 0.05, 0.11, 0.3])))


class C09(Check):
    id = "C09"
    ended = 0.35                                       # share of tables whose last year nobody survives
    quick_runs = 2500
    thorough_runs = 60000
    rule = ("a run draws one mortality (3-14 ages), splits entries of its l, d, q, p columns over up to 10 set_table/fill_table calls (any order and grouping, "
            "repeats, filling on or off, explicit or inferred age ranges, attempts that fail or are interrupted at a chosen line, bytecode or verbose write) and compares "
            "columns and lookups with the mortality itself; a twelfth of the runs load SULT from a survival function; non-trivial: at least two loads and 6 derived values compared")
    assumptions = ["mortality rates of at most six digits between 0.02 and 0.7 (or 1 in the last year) so that the table's 7-digit rounding stays below the tolerance of 2e-6 relative"]

    def generate(self, rng, tier):
        if rng.random() < 0.08:
            S = rng.choice([["S2", 0.02], ["S2", 0.05], ["S2u", 131], ["S2u", 150]])
            lo, hi = rng.choice([(20, 130), (20, 60), (0, 40), (50, 90)])
            kw = dict(S={"$fn": S}, minage=lo, maxage=hi, radix=rng.choice([100000, 1000]))
            if rng.random() < 0.5:
                kw["udd"] = rng.random() < 0.5
            ops = [dict(op="new", id="a", kind="SULT", kw=kw)]
            return dict(ops=ops + self.asks(rng, lo, hi, 16), sult=dict(S=S, lo=lo, hi=hi, radix=kw["radix"]))
        basis = loads.lt_basis(rng, self.ended)
        verbose = rng.random() < 0.4
        ops = [dict(op="new", id="a", kind="LifeTable", kw=dict(udd=rng.random() < 0.5, verbose=verbose)), rate(rng)]
        lo, hi = basis["lo"], basis["lo"] + len(basis["q"])
        for op in loads.lt_loads(rng, basis, fault_p=rng.choice([0, 0.3]), verbose=verbose):
            if op["op"] == "point":
                ops += self.asks(rng, lo, hi, rng.choice([0, 2, 4]))
            else:
                ops.append(op)
                if rng.random() < 0.1:
                    ops.append(rate(rng))
        ops += self.asks(rng, lo, hi, 18)
        return dict(ops=ops, basis=basis)

    def asks(self, rng, lo, hi, n):
        out = []
        for _ in range(n):
            m = rng.choice(["l_x", "p_x", "q_x", "d_x"] * 2 + ["col", "frame", "E_x", "e_x", "e_x", "e_r", "fr", "fr", "fr", "mu_x"])
            x = rng.randrange(lo, hi)
            s = rng.choice([0, 0, 1, 2])
            s = min(s, hi - x)
            kw = dict(x=x)
            if s or rng.random() < 0.3:
                kw["s"] = s
            room = hi - x - s
            t = rng.randint(0, room) if rng.random() < 0.7 else min(1, room)
            if m in ("p_x", "d_x", "E_x"):
                kw["t"] = t
                if m == "E_x" and rng.random() < 0.5:
                    kw["moment"] = rng.choice([1, 2, -2])
            if m == "mu_x":
                kw["t"] = rng.randint(0, max(0, room - 1))
            if m == "q_x":
                u = rng.randint(0, room)
                kw.update(t=rng.randint(0, room - u), u=u)
            if m == "e_x":
                if rng.random() < 0.6:
                    kw["t"] = max(1, t)
                kw["curtate"] = rng.random() < 0.7
                if rng.random() < 0.4:
                    kw["moment"] = rng.choice([2, -2])
            if m == "e_r" and rng.random() < 0.7:
                kw["t"] = rng.choice([0.25, 1, 0.5, 1.75, 3, 2.5])
            if m == "fr":
                m = rng.choice(["l_r", "p_r", "p_r", "q_r", "q_r", "mu_r", "f_r", "E_r", "S", "l", "f", "mu"])
                kw["s"] = s
                r, t = rng.choice([0, 0.25, 0.5, 0.75, 1.3, 2.25]), rng.choice([0, 0.2, 0.4, 1, 1.45, 2, 3.4])
                if m in ("S", "f"):
                    kw["t"] = t
                elif m in ("l", "mu"):
                    kw["s"] = s + r
                else:
                    kw["r"] = r
                    if m in ("p_r", "q_r", "f_r", "E_r"):
                        kw["t"] = t
                    if m == "q_r" and rng.random() < 0.5:
                        kw["u"] = rng.choice([0.1, 0.35, 1, 1.7])
                    if m in ("p_r", "q_r", "E_r") and t == 1 and rng.random() < 0.5:
                        kw.pop("t")
                if m == "f":
                    out.append(dict(op="ask", id="a", m=m, a=[x, s, t], kw={}))
                    continue
                if m in ("S", "l", "mu"):
                    out.append(dict(op="ask", id="a", m=m, a=[x, kw["s"]] + ([t] if m == "S" else []), kw={}))
                    continue
            if m == "col":
                out.append(dict(op="ask", id="a", m="[%s]" % rng.choice("ldqp"), a=[], kw={}))
            elif m == "frame":
                out.append(dict(op="ask", id="a", m="frame", a=[], kw={}))
            else:
                out.append(dict(op="ask", id="a", m=m, a=[], kw=kw))
        return out

    value = staticmethod(lambda *a: value(*a))

    def execute(self, case):
        return run(case)

    def judge(self, case, rec, oracle):
        if "sult" in case:
            return judge_sult(case, rec, self.value)
        return judge(case, rec, self.value)

    def nontrivial(self, case, rec):
        return rec["stats"].get("probe:values compared", 0) >= 6 and rec["stats"].get("ops", 0) > 3


def run(case):
    w = World()
    old, sys.stdout = sys.stdout, w.out
    log = []
    for k, op in enumerate(case["ops"]):
        if op["op"] != "new" and "a" not in w.objs:
            continue
        w.count("ops")
        fired = None
        if op.get("fault"):
            out, exc, fired = w.perform_faulted(op, op["fault"])
        else:
            out = w.perform(op)
        log.append([k, op["op"], op.get("m"), out, fired])
    sys.stdout = old
    return dict(log=log, stats=w.stats)


def near(a, b, scale=0.0):
    return abs(a - b) <= REL * max(abs(a), abs(b), scale) + 1e-6


def judge_sult(case, rec, val, frames=None):
    from ..fns import MAKERS
    p = case["sult"]
    S = MAKERS[p["S"][0]](*p["S"][1:])
    ref = lambda x: p["radix"] * S(p["lo"], x - p["lo"])
    out = []
    for k, kind, m, got, fired in rec["log"]:
        op = case["ops"][k]
        if kind == "new" and got[0] == "raise":
            return [dict(cls="load-raised", detail="SULT(%s) raised %s" % (jkey(op["kw"]), got[1]))]
        if kind == "ask" and op["id"] != "a" and (m == "Z_m" or m.startswith("[")):
            out += frames(k, op, got, ref, range(p["lo"], p["hi"] + 1), 0.05)
            continue
        if kind != "ask" or m.startswith("[") or m == "frame":
            continue
        _, ages, w = val(m, args(op), ref, case["ops"][0]["kw"].get("udd", True), 0.05, p["hi"])
        if w is None or max(ages) > p["hi"]:
            continue
        bad = lookup(op, got, w, rec)
        if bad:
            out.append(dict(cls="wrong-lookup", detail="op %d: %s" % (k, bad)))
    return out


def args(op):
    kw = dict(op["kw"])
    kw.update(zip(["x", "s", "t"], op["a"]))
    if op["id"] != "a":
        kw["view"] = op["id"]
    return kw


def value(m, kw, l, udd, i, hi):
    """What the question is worth under the mortality l (survivors at whole ages up to hi, spread within the year by udd or constant force):
    (first age, ages needed, (value, scale) or None if the question has no answer to hold the library to)."""
    x, s, t, u, r = kw["x"], kw.get("s", 0), kw.get("t", 1), kw.get("u", 0), kw.get("r", 0)
    y = x + s + r
    fl = lambda z: math.floor(z + 1e-9)
    v = 1 / (1 + i)
    whole = m in ("e_x", "e_r") and "t" not in kw
    last = {"l_x": y, "l_r": y, "l": y, "mu_r": y + 1, "mu": y + 1, "f_r": y + t + 1, "f": y + t + 1, "e_r": hi if whole else y + t, "e_x": hi if whole else y + t,
            "mu_x": y + t + 1}.get(m, y + u + t)
    ages = range(fl(y), fl(last) + (1 if last - fl(last) < 1e-6 else 2))
    if not ages or min(ages) < 0:
        return y, [y], None
    if max(ages) > hi:
        return y, ages, None
    if m in ("p_r", "q_r", "S", "E_r"):                # the library looks at the whole years around both ends
        ages = range(ages[0], min(max(ages[-1], fl(y) + 1), hi) + 1)

    def fr(z):
        k = fl(z)
        h = z - k
        if h < 1e-9:
            return l(k)
        return l(k) * (1 - h) + l(k + 1) * h if udd else l(k) ** (1 - h) * l(k + 1) ** h

    def mu(z):
        k = fl(z)
        h = z - k
        if h < 1e-9:
            h = 0.0
        p = l(k + 1) / l(k)
        return (1 - p) / (1 - h * (1 - p)) if udd else -math.log(p)
    rough = any(l(k) > 0 and l(k + 1) < 1e-4 * l(k) for k in ages[:-1])        # nobody survives the year: no constant force
    if m == "l_x" or m == "l_r" or m == "l":
        return y, ages, (fr(y), 0)
    if m == "d_x":
        return y, ages, (l(y) - l(y + t), l(y))
    base = fr(y)
    if base <= 0:
        return y, ages, None
    P = lambda z: fr(z) / base
    w = None
    if m in ("p_x", "p_r", "S"):
        w = P(y + t), 0
    elif m in ("q_x", "q_r"):
        w = P(y + u) - P(y + u + t), 1
    elif m == "E_r":
        w = v ** t * P(y + t), 0
    elif m == "E_x":
        p, k = P(y + t), kw.get("moment", 1)
        w = (v ** (2 * t) * p * (1 - p), 1) if k == -2 else (v ** (k * t) * p, 0)
    elif m == "mu_x":
        if not udd and l(y + t) > 0 and not rough:
            w = mu(y + t), 1
    elif m in ("mu_r", "mu"):
        if (y - fl(y) > 1e-9) and not rough and fr(y) > 0:
            w = mu(y), 1
    elif m in ("f_r", "f"):
        h = r - fl(r) + t
        if fr(y + t) > 0 and not rough and abs(h - 1) > 1e-6:
            w = P(y + t) * mu(y + t), 1
    elif m in ("e_r", "e_x"):
        T = hi - y if whole else t
        if whole and l(hi) > 1e-9 * base:
            return y, ages, None
        if m == "e_x" and kw.get("curtate", True):
            k = kw.get("moment", 1)
            e = sum(P(y + j) for j in range(1, T + 1))
            e2 = sum((2 * j - 1) * P(y + j) for j in range(1, T + 1))
            w = {1: e, 2: e2, -2: e2 - e * e}[k], 1 if k == 1 else max(1, e2)
        elif not (rough and not udd):
            k = kw.get("moment", 1)
            e = e2 = 0.0
            z = 0
            while z < T - 1e-9:
                h = min(1.0, T - z)
                n = 40
                for j in range(n + 1):                 # Simpson within the year
                    c = (1 if j in (0, n) else 4 if j % 2 else 2) * h / n / 3
                    a = z + h * j / n
                    f = P(y + a) if a < T - 1e-9 or not whole else 0.0
                    e += c * f
                    e2 += c * 2 * a * f
                z += 1
            w = {1: e, 2: e2, -2: e2 - e * e}[k], 1 if k == 1 else 100 * max(1, e2)
    return y, ages, w


def lookup(op, got, w, rec):
    want, scale = w
    rec["stats"]["probe:values compared"] = rec["stats"].get("probe:values compared", 0) + 1
    if got[0] == "n":
        dev = abs(got[1] - want) / max(abs(want), scale, 1e-3)
        if dev < 1:
            rec["stats"]["max:deviation"] = max(rec["stats"].get("max:deviation", 0), dev)
    if got[0] != "n" or not near(got[1], want, scale):
        return "%s%s%s returned %s; the mortality supplied gives %.9g" % (op["m"], jkey(op["a"]) if op["a"] else "", jkey(op["kw"]), short(got), want)


def judge(case, rec, val, frames=None):
    ref = loads.LTRef(case["basis"])
    known = {c: set() for c in "ldqp"}                # entries the table must hold now
    given = {c: set() for c in "ldqp"}                # entries given by accepted calls
    lo, hi, i = None, None, 0.0
    out = []

    def stat(name):
        rec["stats"][name] = rec["stats"].get(name, 0) + 1

    def bad(k, cls, text):
        out.append(dict(cls=cls, detail="op %d: %s" % (k, text)))
    for k, kind, m, got, fired in rec["log"]:
        op = case["ops"][k]
        if kind == "new":
            if got[0] == "raise":
                bad(k, "load-raised", "LifeTable() raised")
                return out
            continue
        if kind == "do":
            kw = op["kw"]
            if got[0] == "raise":
                if fired or op.get("void"):
                    continue
                bad(k, "load-raised", "%s%s raised %s" % (m, jkey(kw), got[1]))
                return out
            if m == "set_interest":
                i = kw["i"]
                continue
            if op.get("void") and not any(c in kw for c in "ldqp"):
                continue
            if m == "set_table":
                ages = []
                for c in "ldqp":
                    if c in kw and isinstance(kw[c], dict):
                        ks = [x for x, _ in kw[c]["$d"]]
                        known[c].update(ks)
                        given[c].update(ks)
                        ages += ks
                a, b = kw.get("minage", min(ages)), kw.get("maxage", max(ages) + 1)
                lo = a if lo is None else min(lo, a)
                hi = b if hi is None else max(hi, b)
            if m == "fill_table" or kw.get("fill", True):
                if lo is None:
                    continue
                known = ref.closure(known, lo, hi)
                if not known["l"]:
                    known["l"].add(lo)
                    known = ref.closure(known, lo, hi)
            continue
        if op["id"] != "a" and (m == "Z_m" or m.startswith("[")):
            out += frames(k, op, got, ref.l, known["l"], i)
            continue
        want = None
        if m != "frame" and not m.startswith("["):
            _, ages, want = val(m, args(op), ref.l, case["ops"][0]["kw"]["udd"], i, ref.hi)
            if not all(x in known["l"] for x in ages):
                stat("undetermined lookups")
                continue
            if want is None:
                continue
        if got[0] == "raise":
            bad(k, "lookup-raised", "%s%s raised %s" % (m, jkey(op["kw"]), got[1]))
            continue
        if m == "frame" or m.startswith("["):
            if m == "frame":
                have = {c: {} for c in "ldqp"}
                for x, row in zip(got[2], got[3]):
                    for c, v in zip(got[1], row):
                        if v[0] == "n" and c in have:
                            have[c][int(float(x))] = v[1]
            else:
                have = {m[1]: {int(float(x)): v[1] for x, v in got[1] if v[0] == "n"}}
            for c, cells in have.items():
                miss = sorted(known[c] - set(cells))
                if miss:
                    bad(k, "entry-missing", "column %s lacks ages %s that the supplied data determine" % (c, miss[:5]))
                for x, v in sorted(cells.items()):
                    want = ref.val(c, x)
                    if want is None:
                        bad(k, "wrong-entry", "%s[%d] = %r outside the age range supplied" % (c, x, v))
                        continue
                    stat("probe:values compared")
                    if x in given[c] and v != want:
                        bad(k, "supplied-entry-changed", "%s[%d] = %r; %r was supplied" % (c, x, v, want))
                    elif not near(v, want, dict(d=ref.l(x), l=0).get(c, 0)):
                        bad(k, "wrong-entry", "%s[%d] = %r; the mortality supplied gives %.9g" % (c, x, v, want))
            continue
        t = lookup(op, got, want, rec)
        if t:
            bad(k, "wrong-lookup", t)
    return out


CHECK = C09()
