"""Histories of data loads, and independent reference models of what the loaded data mean."""
from . import catalog as cat
from . import scene as sc

D = cat.D


def load_fault(rng, verbose, custom=False):
    kinds = ["async"] * 3 + (["stream"] * 4 if verbose else []) + (["cb"] * 4 if custom else [])
    k = rng.choice(kinds)
    if k == "stream":
        return dict(kind="stream", exc=rng.choice(sc.STREAM), frac=sc.frac(rng))
    if k == "cb":
        return dict(kind="cb", exc=rng.choice(sc.CB_EXC), frac=sc.frac(rng))
    return sc.async_fault(rng)


def und(v):
    """{"$d": pairs} -> dict."""
    return {k: x for k, x in v["$d"]}


# ---- life table -----------------------------------------------------------------------------------------------
class LTRef:
    """The mortality a life table was loaded with."""
    def __init__(self, basis):
        self.lo, self.q_, self.l0 = basis["lo"], basis["q"], basis["l0"]
        self.hi = self.lo + len(self.q_)
        self.ll = [self.l0]
        for q in self.q_:
            self.ll.append(self.ll[-1] * (1 - q))

    def l(self, x):
        return self.ll[x - self.lo]

    def q(self, x):
        return self.q_[x - self.lo]

    def p(self, x):
        return 1 - self.q(x)

    def d(self, x):
        return self.l(x) * self.q(x)

    def val(self, col, x):
        """Reference entry, or None where the basis says nothing."""
        if not self.lo <= x <= self.hi or (col != "l" and x == self.hi):
            return None
        return getattr(self, col)(x)

    def closure(self, known, lo, hi):
        """Cells derivable from the known ones by the defining relations d = l q, p = 1 - q, l' = l p."""
        k = {c: set(known[c]) for c in "ldqp"}
        ok = lambda x, q=None: self.lo <= x < self.hi
        again = True
        while again:
            again = False

            def add(c, x):
                nonlocal again
                if x not in k[c] and lo <= x <= hi:
                    k[c].add(x)
                    again = True
            for x in range(lo, hi + 1):
                if x in k["p"]:
                    add("q", x)
                if x in k["q"]:
                    add("p", x)
                if x in k["d"] and x in k["l"] and ok(x) and self.l(x) > 0:
                    add("q", x)
                if x + 1 in k["l"] and x in k["q"] and ok(x) and self.q(x) < 1:
                    add("l", x)
                if x - 1 in k["l"] and x - 1 in k["q"]:
                    add("l", x)
                if x in k["d"] and x in k["q"] and ok(x) and self.q(x) > 0:
                    add("l", x)
                if x in k["l"] and x + 1 in k["l"]:
                    add("d", x)
        return k


def lt_basis(rng, ended=0.35):
    n = rng.choice([3, 5, 8, 8, 14])
    q = [round(rng.choice([0.02, 0.05, 0.1, 0.3]) * rng.choice([1, 1.1, 1.37]), 4) for _ in range(n)]
    if rng.random() < 0.4:
        base = rng.choice([0.02, 0.05])
        q = [round(min(0.7, base * 1.15 ** k), 6) for k in range(n)]
    if rng.random() < ended:
        q[-1] = 1.0
    return dict(lo=rng.choice([0, 1, 25, 60, 90]), q=q, l0=rng.choice([1000, 100000, 5000.0]))


def lt_loads(rng, basis, fault_p=0.0, verbose=False, fill_last=True):
    """A history of loads of facts true of the basis.  Yields op dicts (id 'a')."""
    ref = LTRef(basis)
    facts = []
    style = rng.choice(["mix", "mix", "q", "l", "p", "dl"])
    for x in range(ref.lo, ref.hi):
        cols = dict(mix=["l", "d", "q", "p"], q=["q"], l=["l"], p=["p", "q"], dl=["d", "l", "q"])[style]
        take = rng.sample(cols, min(len(cols), rng.choice([1, 1, 2, 3])))
        if rng.random() < 0.08:
            take = []
        facts += [(c, x) for c in take]
    if style == "l" or rng.random() < 0.25:
        facts.append(("l", ref.hi))
    if rng.random() < 0.4 and not any(c == "l" for c, _ in facts):
        facts.append(("l", rng.choice(range(ref.lo, ref.hi + 1))))
    if not facts:
        facts = [("q", ref.lo)]
    n = rng.choice([1, 2, 2, 3, 4, 5])
    parts = [[] for _ in range(n)]
    if rng.random() < 0.6:
        rng.shuffle(facts)
        for f in facts:
            parts[rng.randrange(n)].append(f)
    else:                                             # contiguous blocks, in shuffled order
        size = -(-len(facts) // n)
        blocks = [facts[k:k + size] for k in range(0, len(facts), size)]
        rng.shuffle(blocks)
        parts = blocks
    parts = [p for p in parts if p]
    for k in range(1, len(parts)):                    # repeats
        if rng.random() < 0.35:
            parts[k] += rng.sample(parts[k - 1], 1)
        if rng.random() < 0.15:
            parts.insert(k, list(parts[k - 1]))
    explicit = rng.choice(["never", "never", "always", "first", "maybe"])
    ops, seen_l, low = [], False, None

    for k, part in enumerate(parts):
        kw, cols = {}, {}
        for c, x in part:
            cols.setdefault(c, {})[x] = ref.val(c, x)
        items = list(cols)
        rng.shuffle(items)
        for c in items:
            kw[c] = D(cols[c])
        if explicit == "always" or (explicit == "first" and k == 0) or (explicit == "maybe" and rng.random() < 0.5):
            kw.update(minage=ref.lo, maxage=ref.hi)
            if explicit == "maybe" and rng.random() < 0.5:
                kw.pop(rng.choice(["minage", "maxage"]))
        low_here = kw.get("minage", min(x for _, x in part))
        low = low_here if low is None else min(low, low_here)
        if any(c == "l" and v for c, v in cols.items()):
            seen_l = True
        fill = rng.random() < 0.65
        if not fill:
            kw["fill"] = False
        if not seen_l:
            kw["radix"] = ref.l(low)
        elif rng.random() < 0.2:
            kw["radix"] = rng.choice([1, 77777])
        op = dict(op="do", id="a", m="set_table", kw=kw)
        if rng.random() < fault_p:
            f = dict(op, fault=load_fault(rng, verbose), void=True)
            ops.append(f)
            if rng.random() < 0.25:
                ops.append(dict(op, fault=load_fault(rng, verbose), void=True))
        if rng.random() < 0.12:                       # attempts that cannot be accepted
            bad = rng.choice([{}, dict(q=[0.1, 0.2]), dict(l=5), dict(d={"$d": []}, radix=7), dict(p="x"), dict(rate={}), dict(q=[0.1], minage=3, maxage=4)])
            ops.append(dict(op="do", id="a", m="set_table", kw=bad, void=True))
        ops.append(op)
        if rng.random() < 0.15:
            r = ref.l(low) if not seen_l else rng.choice([1, 100000])
            ops.append(dict(op="do", id="a", m="fill_table", kw=dict(radix=r)))
        ops.append(dict(op="point"))
    if fill_last:
        r = ref.l(low) if not seen_l else rng.choice([1, 100000])
        op = dict(op="do", id="a", m="fill_table", kw=dict(radix=r))
        if rng.random() < fault_p:
            ops.append(dict(op, fault=load_fault(rng, verbose), void=True))
        ops.append(op)
        ops.append(dict(op="point"))
    return ops


# ---- select table ---------------------------------------------------------------------------------------------
class SelRef:
    """Select-and-ultimate mortality (and benefits' values at one interest rate) a select table was loaded with."""
    def __init__(self, basis):
        self.n, self.lo, self.i = basis["n"], basis["lo"], basis["i"]
        self.qs, self.qu = basis["qs"], basis["qu"]
        self.hi = self.lo + len(self.qs) - 1
        self.lu = [basis["l0"]]
        for q in self.qu:
            self.lu.append(self.lu[-1] * (1 - q))
        v = 1 / (1 + self.i)
        self.tails = {}
        for c, last in (("e", basis["e0"]), ("A", basis["A0"]), ("a", basis["a0"])):
            vals = [last]                              # at the ultimate age after the last row's
            for q in reversed(self.qu):
                nxt = vals[-1]
                vals.append(self.step(c, q, nxt, v))
            self.tails[c] = vals[::-1]
        self.v = v

    @staticmethod
    def step(c, q, nxt, v):
        p = 1 - q
        return dict(e=lambda: p * (1 + nxt), A=lambda: v * (q + p * nxt), a=lambda: 1 + v * p * nxt)[c]()

    def has(self, x, s):
        return self.lo <= x <= self.hi and 0 <= s <= self.n

    def wrap(self, x, s):
        return (x + s - self.n, self.n) if s > self.n else (x, s)

    def q(self, x, s):
        x, s = self.wrap(x, s)
        return self.qu[x - self.lo] if s == self.n else self.qs[x - self.lo][s]

    def l(self, x, s):
        x, s = self.wrap(x, s)
        if s == self.n:
            return self.lu[x - self.lo]
        return self.l(x, s + 1) / (1 - self.q(x, s))

    def d(self, x, s):
        return self.l(x, s) * self.q(x, s)

    def tail(self, c, x, s):
        x, s = self.wrap(x, s)
        if s == self.n:
            return self.tails[c][x - self.lo]
        return self.step(c, self.q(x, s), self.tail(c, x, s + 1), self.v)

    def val(self, c, x, s):
        return self.tail(c, x, s) if c in "eAa" else getattr(self, c)(x, s)

    def closure(self, known, lo, hi):
        k = {c: set(known[c]) for c in "ldqeAa"}
        n = self.n
        again = True
        while again:
            again = False
            for x in range(lo, hi + 1):
                for s in range(n + 1):
                    here = (x, s)
                    nxt = (x, s + 1) if s < n else (x + 1, n)
                    prev = ([(x, s - 1)] if s else []) + ([(x - 1, n)] if s == n else [])

                    def add(c, ok):
                        nonlocal again
                        if here not in k[c] and ok:
                            k[c].add(here)
                            again = True
                    q = here in k["q"]
                    add("l", q and (nxt in k["l"] or here in k["d"]) or any(p in k["l"] and p in k["q"] for p in prev))
                    add("d", here in k["l"] and nxt in k["l"])
                    add("q", here in k["d"] and here in k["l"] or here in k["e"] and nxt in k["e"])
                    for c in "eAa":
                        add(c, q and nxt in k[c] or any(p in k[c] and p in k["q"] for p in prev))
        return k


def sel_basis(rng):
    n = rng.choice([1, 1, 2, 3])
    rows = rng.choice([1, 2, 3, 4, 6])
    g, b = rng.choice([1.05, 1.2]), rng.choice([0.01, 0.04])
    qu = [round(min(0.6, b * g ** (k + n) * rng.choice([1, 1.01])), 6) for k in range(rows)]
    qs = [[round(min(0.6, b * g ** (k + s)) * (0.6 + 0.4 * s / n), 6) for s in range(n)] for k in range(rows)]
    return dict(n=n, lo=rng.choice([0, 21, 50]), qs=qs, qu=qu, l0=rng.choice([1000.0, 93456.0]), i=rng.choice([0.0, 0.04, 0.07]),
                e0=rng.choice([1.0, 12.5]), A0=rng.choice([0.5, 0.8]), a0=rng.choice([3.0, 7.5]))


def sel_loads(rng, basis, fault_p=0.0, verbose=False, infer=False):
    """Load history; infer: the model is not told the number of select years (the first load shows it)."""
    ref = SelRef(basis)
    n = ref.n
    style = rng.choice(["q", "l", "mix", "mix", "dl", "e"])
    cols = dict(q=["q"], l=["l"], mix=["q", "l", "d"], dl=["d", "l", "q"], e=["e", "q"])[style]
    extra = [c for c in "eAa" if rng.random() < 0.3]
    ops, low, seen_l = [], None, False

    def radix():
        return rng.choice([1, 100000, ref.l(low, 0)]) if seen_l else ref.l(low, 0)

    def cell_cols(x, s):
        r = rng.random()
        take = [] if r < 0.1 else rng.sample(cols, min(len(cols), rng.choice([1, 1, 2])))
        return take + [c for c in extra if rng.random() < 0.3]

    def put(op):
        if rng.random() < fault_p:
            for _ in range(rng.choice([1, 1, 2])):
                ops.append(dict(op, fault=load_fault(rng, verbose), void=True))
        ops.append(op)
        if rng.random() < 0.1:
            ops.append(dict(op))

    def whole():
        nonlocal low, seen_l
        rows = list(range(ref.lo, ref.hi + 1))
        if rng.random() < 0.3:
            rows = sorted(rng.sample(rows, rng.randint(1, len(rows))))
        if rng.random() < 0.3:
            rng.shuffle(rows)
        kw = {}
        for x in rows:
            for s in range(n + 1):
                for c in cell_cols(x, s):
                    kw.setdefault(c, {}).setdefault(x, {})[s] = ref.val(c, x, s)
        if not kw:
            kw = {"q": {ref.lo: {0: ref.q(ref.lo, 0)}}}
        # rows as lists with None for what is not supplied; the widest row tells the number of select years
        full = rng.random() < 0.5
        if infer and low is None:                          # the widest row tells the number of select years
            x = rng.choice(rows)
            c = rng.choice(cols)
            kw.setdefault(c, {}).setdefault(x, {})[n] = ref.val(c, x, n)
        tabs = {}
        for c, t in kw.items():
            tabs[c] = {"$d": [[x, [r.get(s) for s in range(n + 1 if full else max(r) + 1)]] for x, r in t.items()]}
        names = list(tabs)
        rng.shuffle(names)
        low = min(x for t in tabs.values() for x, _ in t["$d"])
        tabs = {c: tabs[c] for c in names}
        seen_l = "l" in tabs
        tabs["radix"] = radix()
        if rng.random() < 0.3:
            tabs["fill"] = False
        put(dict(op="do", id="a", m="set_table", kw=tabs))

    def column():
        nonlocal low, seen_l
        s = rng.randrange(n + 1)
        sel = rng.random() < 0.5
        rows = [x for x in range(ref.lo, ref.hi + 1) if rng.random() < 0.75] or [ref.lo]
        kw = {}
        for c in rng.sample(cols + extra, rng.choice([1, 1, 2]) if len(cols + extra) > 1 else 1):
            kw[c] = D({(x if sel else x + s): ref.val(c, x, s) for x in rows})
        low = min(rows) if low is None else min(low, min(rows))
        seen_l = seen_l or "l" in kw
        kw.update(s=-1 if s == n and rng.random() < 0.3 else s, age_selected=sel)
        if rng.random() < 0.5:
            kw.update(fill=True, radix=radix())
        put(dict(op="do", id="a", m="set_select", kw=kw))
    start = rng.random()
    if infer:
        start = 0.0
    if start < 0.6:
        whole()
        ops.append(dict(op="point"))
    for _ in range(rng.choice([0, 1, 2, 4, 6]) if start < 0.6 else rng.choice([2, 4, 6, 8])):
        if rng.random() < 0.12:
            whole()
        else:
            column()
        if rng.random() < 0.1:
            put(dict(op="do", id="a", m="fill_table", kw=dict(radix=radix())))
        if rng.random() < 0.5:
            ops.append(dict(op="point"))
    put(dict(op="do", id="a", m="fill_table", kw=dict(radix=radix())))
    ops.append(dict(op="point"))
    return ops
