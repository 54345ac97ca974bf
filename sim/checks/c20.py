"""C20: a discarded model leaves nothing behind."""
import gc, sys, types, weakref
from ..core import Check
from ..world import jkey, strip
from ..forked import HarnessError
from .. import catalog as cat
from .. import loads
from .. import scene as sc
from . import c03, c17


class Wards(c17.PlotWorld):
    """Keeps a weak reference to every object made for a model: itself, its views, and the functions and contracts handed to them."""
    def __init__(self):
        super().__init__()
        self.refs, self.cur = {}, None

    def dec(self, v):
        o = super().dec(v)
        if self.cur and isinstance(v, dict) and ("$fn" in v or "$c" in v):
            self.refs.setdefault(self.cur, []).append(("function " + v["$fn"][0] if "$fn" in v else "contract", weakref.ref(o)))
        return o

    def raw(self, op):
        self.cur = op.get("id", "").split("v")[0]
        out = super().raw(op)
        if op["op"] == "new":
            o = self.objs[op["id"]]
            self.refs.setdefault(self.cur, []).append((type(o).__name__, weakref.ref(o)))
        return out


def _size(o, seen, depth=0):
    """How much a piece of the library's own process-wide state holds."""
    if id(o) in seen or depth > 6:
        return 0
    seen.add(id(o))
    if hasattr(o, "cache_info") and callable(o):
        return o.cache_info().currsize
    if isinstance(o, dict):
        return len(o) + sum(_size(x, seen, depth + 1) for x in list(o.values()))
    if isinstance(o, (list, tuple, set, frozenset)):
        return len(o) + sum(_size(x, seen, depth + 1) for x in list(o))
    if isinstance(o, (str, bytes)):
        return len(o)
    return 0


def library_state():
    """Size of what the library's modules, classes and functions hold on to."""
    n, seen = 0, set()
    for name, mod in sorted(sys.modules.items()):
        if not name.startswith("actuarialmath") or mod is None:
            continue
        for v in list(vars(mod).values()):
            if isinstance(v, type) and v.__module__.startswith("actuarialmath"):
                for x in list(vars(v).values()):
                    n += _size(x, seen)
                    n += fn_state(x, seen)
            elif not isinstance(v, types.ModuleType) and not isinstance(v, type):
                n += _size(v, seen)
                n += fn_state(v, seen)
    return n


def fn_state(f, seen):
    f = getattr(f, "__func__", f)
    if not isinstance(f, types.FunctionType) or not f.__module__ or not f.__module__.startswith("actuarialmath"):
        return 0
    n = _size(vars(f), seen) + _size(f.__defaults__ or (), seen) + _size(f.__kwdefaults__ or {}, seen)
    for c in f.__closure__ or ():
        try:
            n += _size(c.cell_contents, seen)
        except ValueError:
            pass
    return n


def sibling(rng, ops, i):
    """The operations of a life over again, for model i."""
    was, f = ops[0]["id"], rng.choice([1.0, 1.25, 0.8])
    ids = []

    def again(o, name=None):
        if isinstance(o, dict):
            if "$obj" in o:
                return {"$obj": i}
            if "$fn" in o:
                return {"$fn": [o["$fn"][0]] + [v * f if isinstance(v, float) else v for v in o["$fn"][1:]]}
            if "$c" in o:
                return {"$c": {k: v * f if k in ("premium", "renewal_policy") and isinstance(v, (int, float)) else again(v) for k, v in o["$c"].items()}}
            return {k: again(v) for k, v in o.items()}
        if isinstance(o, list):
            return [again(v) for v in o]
        return o
    out = []
    for op in ops:
        if op.get("id", "").split("v")[0] != was:
            continue
        op = dict(again({k: v for k, v in op.items() if k != "id"}), id=i + op["id"][len(was):])
        if rng.random() < 0.3:
            op.pop("fault", None)
        if op["op"] == "new":
            ids.append(op["id"])
        out.append(op)
    return out, ids


class C20(Check):
    id = "C20"
    quick_runs = 900
    thorough_runs = 30000
    quick_wall = 200.0
    cycles = 7
    shrink_fields = Check.shrink_fields + ("cycle",)
    rule = ("a run makes, questions, plots and drops up to six models one after another (often of one class, so that each takes the memory of one dropped), with views, traces, functions and "
            "contracts of their own, some of them while a view lives on, many of their calls refused or cut short; after each drop and a garbage collection nothing made for the model may be "
            "alive, and every answer of the later models and surviving views is compared with a pristine twin; or it repeats one such life seven times over and watches what the library and "
            "the process hold; non-trivial: three models dropped after 5 answers compared, or seven lives")
    assumptions = ["memory is judged by reachability after a collection and by object counts, not by bytes"]
    real = c17.C17.real
    measure = "distinct hashes of the run's event log (operations, outcome classes, fault points, survivors)"

    def life(self, rng, i, kinds, gens, plots=True):
        """One model's life."""
        ops, mine = [], {}
        meta = sc.scene(rng, i, kinds=kinds, views=0.3, ops=ops, gens=mine)
        gens.update(mine)
        ids = sorted(mine)
        if meta["kind"] != "Recursion" and rng.random() < 0.3:
            ops.append(dict(op="do", id=i, m="set_reserves", kw=dict(T=4, V=cat.D({1: 5.5}))))
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            if r < 0.1 and plots:
                op = dict(c17.CHECK.plot(rng, i, meta), ax="f0.0")
                op["kw"].pop("discrete", None)
            elif r < 0.25:
                op = dict(op="do", id=i, m="set_interest", kw=cat.bad_interest(rng) if rng.random() < 0.4 else cat.gen_interest(rng))
            else:
                j = rng.choice(ids)
                op = dict(mine[j][0](), id=j)
            if rng.random() < 0.25:
                op["fault"] = sc.gen_fault(rng, op, meta, meta["custom"])
            ops.append(op)
        return ops, ids

    def generate(self, rng, tier):
        kinds = [rng.choice(cat.KINDS)] if rng.random() < 0.6 else None
        gens = {}
        if rng.random() < 0.25:
            ops, ids = self.life(rng, "a", kinds, gens, plots=False)
            return dict(ops=[], cycle=ops + [dict(op="drop", ids=ids)])
        ops, alive, prev = [dict(op="fig", name="f0", n=1)], [], None
        for k in range(rng.randint(2, 6)):
            i = "abcdefg"[k]
            if prev and rng.random() < 0.35:         # a life like one before it, other numbers in its functions and terms
                life, ids = sibling(rng, prev, i)
            else:
                life, ids = self.life(rng, i, kinds, gens)
            prev = [dict(o) for o in life]
            for j in alive:                          # views whose model the program let go of
                if j in gens:
                    life.insert(rng.randint(1, len(life)), dict(gens[j][0](), id=j))
            ops += life
            views = [j for j in ids if j != i]
            if views and rng.random() < 0.4:
                alive = alive + views
                ops.append(dict(op="drop", ids=[i]))
            elif rng.random() < 0.85:
                ops.append(dict(op="drop", ids=ids))
        return dict(ops=ops)

    def step(self, w, op):
        """-> outcome, fired; (None, None) when the operation means nothing now"""
        if op["op"] != "new" and op["id"] not in w.objs:
            return None, None
        refs = [v["$obj"] for v in op.get("kw", {}).values() if isinstance(v, dict) and "$obj" in v]
        if any(r not in w.objs for r in refs) or op["op"] == "plot" and op["ax"] not in w.easel.axes:
            return None, None
        call = op
        if op["op"] == "plot":
            call = dict(op="ask", id=op["id"], m=op["m"], kw=dict(op["kw"], ax={"$axis": op["ax"]}))
        fired = None
        if op.get("fault"):
            out, exc, fired = w.perform_faulted(call, op["fault"])
        else:
            out = w.perform(call)
        exc = None
        return out, fired

    def execute(self, case):
        w = Wards()
        old, sys.stdout = sys.stdout, w.out
        if case.get("cycle"):
            rec = self.lives(w, case["cycle"])
            sys.stdout = old
            return rec
        obs, log, left, tainted = [], [], [], set()
        for k, op in enumerate(case["ops"]):
            if op["op"] == "fig":
                w.easel.new(op["name"], op["n"])
                continue
            if op["op"] == "drop":
                for i in op["ids"]:
                    w.objs.pop(i, None)
                base = op["ids"][0].split("v")[0]
                if any(i.split("v")[0] == base for i in w.objs):
                    w.count("probe:model dropped while a view lives on")
                    continue
                gc.collect()
                alive = [n for n, r in w.refs.pop(base, []) if r() is not None]
                w.count("probe:models dropped")
                if alive:
                    left.append(dict(k=k, id=base, alive=sorted(set(alive))))
                log.append([k, "drop", sorted(set(alive))])
                continue
            out, fired = self.step(w, op)
            if out is None:
                continue
            w.count("ops")
            log.append([k, op["op"], op.get("m"), out, fired])
            base = op["id"].split("v")[0]
            if fired and op["op"] == "do":
                tainted.add(base)                    # what an interrupted change left is not judged here (C06, C08)
            if op["op"] == "ask" and base not in tainted:
                obs.append(dict(k=k, id=op["id"], ask=strip(op), recipe=w.recipe(op["id"]), raw_recipe=w.recipe(op["id"], False), out=out, fired=fired))
            elif op["op"] in ("new", "do") and out[0] != "raise":
                w.accepted(op)
        sys.stdout = old
        return dict(obs=obs, left=left, log=log, stats=w.stats)

    def lives(self, w, ops):
        held, lib, outs = [0] * self.cycles, [0] * self.cycles, []
        for c in range(self.cycles):
            for op in ops:
                if op["op"] == "drop":
                    for i in op["ids"]:
                        w.objs.pop(i, None)
                else:
                    self.step(w, op)
                    w.count("ops")
            w.refs.clear()
            gc.collect()
            held[c] = len(gc.get_objects())
            lib[c] = library_state()
        w.count("compared", 2 * self.cycles)
        w.count("probe:lives repeated", self.cycles)
        return dict(obs=[], left=[], held=held, lib=lib, log=[["lives", [b - a for a, b in zip(lib[2:], lib[3:])]], [len(ops)]], stats=w.stats, shape=ops)

    def judge(self, case, rec, oracle):
        out = []
        for what, name in (("lib", "what the library's modules and classes hold"), ("held", "what the process holds")):
            n = rec.get(what)
            if n and all(b > a for a, b in zip(n[2:], n[3:])):
                out.append(dict(cls="grows", detail="%s grows with every repetition of the same life: %s" % (name, n)))
        for l in rec["left"]:
            out.append(dict(cls="left-behind", detail="op %d: %s was dropped, and after a garbage collection is still alive: %s" % (l["k"], l["id"], ", ".join(l["alive"]))))
        return out + c03.judge_history(rec, oracle, "answer-after-discarded-models")

    def nontrivial(self, case, rec):
        st = rec["stats"]
        return "held" in rec or st.get("probe:models dropped", 0) + st.get("probe:model dropped while a view lives on", 0) >= 3 and len([o for o in rec["obs"] if o["out"][0] != "raise"]) >= 5




CHECK = C20()
