"""C15: traces never change answers, and silence is silent."""
import sys
from ..core import Check
from ..world import World, Stream, jkey
from ..outcome import short, close
from ..forked import forked
from ..ticks import Budget
from .. import catalog as cat
from .. import loads
from .. import scene as sc
from . import c08, c09, c10, c11

TALKS = ("Recursion", "LifeTable", "SelectLife")       # models with a trace to switch on or off


def rename(o, id):
    if isinstance(o, dict):
        return {k: (id + v[1:] if k in ("id", "$obj") and isinstance(v, str) else rename(v, id)) for k, v in o.items()}
    if isinstance(o, list):
        return [rename(v, id) for v in o]
    return o


class C15(Check):
    id = "C15"
    quick_runs = 2200
    thorough_runs = 50000
    rule = ("a run interleaves the histories of one to three objects (recursion solvers with facts and questions, life and select tables with several loads, other models) whose traces are "
            "on or off, switching display forms (text or LaTeX, terminal or notebook) on the way, with the output stream failing at chosen writes or missing; answers and tables are compared "
            "with those of the same history with every trace off, and what objects with tracing off write is counted; non-trivial: something was traced and 4 answers were compared")
    assumptions = ["a call whose trace could not be written raises and is repeated", "the notebook's display functions are replaced by writes to the simulated stream"]
    stubs = ["caller-supplied functions", "output stream", "IPython display functions"]

    def generate(self, rng, tier):
        parts = []
        for k in range(rng.choice([1, 1, 2, 2, 3])):
            part = getattr(self, "gen_" + rng.choice(["rec", "rec", "rec", "lt", "sel", "model"]))(rng, tier)
            parts.append(rename(part, "abc"[k]))
        ops = []
        while any(parts):
            p = rng.choice([p for p in parts if p])
            for _ in range(rng.choice([1, 1, 2, 5])):
                if p:
                    ops.append(p.pop(0))
            if rng.random() < 0.12:
                ops.append(dict(op="do", id=None, kind="Recursion", m="blog_options", kw=dict(latex=rng.random() < 0.5, notebook=rng.random() < 0.5)))
        talk = {op["id"]: op["kw"].get("verbose", op["kind"] == "Recursion") for op in ops if op["op"] == "new"}
        out = []
        for op in ops:
            op = {k: v for k, v in op.items() if k != "fault"}
            if op.get("id") and op["op"] != "new" and talk.get(op["id"]):
                r = rng.random()
                if r < 0.2:
                    out.append(dict(op, fault=dict(kind="stream", exc=rng.choice(sc.STREAM), frac=sc.frac(rng)), void=True))
                elif r < 0.23:
                    op["nostdout"] = True
            out.append(op)
        return dict(ops=out, options=rng.random() < 0.5)

    def gen_rec(self, rng, tier):
        ops = [op for op in c11.CHECK.generate(rng, tier)["ops"] if not op.get("fault")]
        for op in ops:
            if op["op"] == "new":
                op["kw"]["verbose"] = rng.random() < 0.75
                if op["kw"]["verbose"] and rng.random() < 0.3:
                    op["kw"].pop("verbose")
        return ops

    def gen_lt(self, rng, tier):
        basis = loads.lt_basis(rng)
        lo, hi = basis["lo"], basis["lo"] + len(basis["q"])
        ops = [dict(op="new", id="a", kind="LifeTable", kw=dict(udd=rng.random() < 0.5, verbose=rng.random() < 0.75)),
               dict(op="do", id="a", m="set_interest", kw=dict(i=rng.choice([0.0, 0.04])))]
        for op in loads.lt_loads(rng, basis):
            if op["op"] == "point":
                ops += c09.CHECK.asks(rng, lo, hi, rng.choice([0, 2]))
            elif not op.get("void"):
                ops.append(op)
        return ops + c09.CHECK.asks(rng, lo, hi, 6)

    def gen_sel(self, rng, tier):
        basis = loads.sel_basis(rng)
        ref = loads.SelRef(basis)
        ops = [dict(op="new", id="a", kind="SelectLife", kw=dict(periods=basis["n"], udd=rng.random() < 0.5, verbose=rng.random() < 0.75)),
               dict(op="do", id="a", m="set_interest", kw=dict(i=basis["i"]))]
        for op in loads.sel_loads(rng, basis):
            if op["op"] == "point":
                ops += c10.CHECK.asks(rng, ref, rng.choice([0, 2]))
            else:
                ops.append(op)
        return ops + c10.CHECK.asks(rng, ref, 6)

    def gen_model(self, rng, tier):
        ops, gens = [], {}
        kinds = ["LifeTable", "SelectLife", "Recursion"] if rng.random() < 0.4 else None
        meta = sc.scene(rng, "a", kinds=kinds, ops=ops, gens=gens)
        for op in ops:
            if op["op"] == "new" and op["kind"] in TALKS:
                op["kw"]["verbose"] = rng.random() < 0.6
        for _ in range(rng.randint(3, 8)):
            i = rng.choice(sorted(gens))
            q = gens[i][0]()
            if q["m"] not in cat.JUMPY:
                ops.append(dict(q, id=i))
        return ops

    def execute(self, case):
        return run(case["ops"])

    def judge(self, case, rec, oracle):
        out = []

        def stat(name, n=1):
            rec["stats"][name] = rec["stats"].get(name, 0) + n
        kinds = {op["id"]: op["kind"] for op in case["ops"] if op["op"] == "new"}
        skip = set()
        for k, kind, m, got, fired, wrote in rec["log"]:
            op = case["ops"][k]
            if op.get("void") and got[0] == "raise":
                skip.add(k)
            stat("probe:ops with a trace", bool(wrote))
            talks = [o for o in case["ops"] if o["op"] == "new" and o["id"] == op.get("id")]
            loud = talks and talks[0]["kw"].get("verbose", talks[0]["kind"] == "Recursion")
            if wrote and not loud:
                out.append(dict(cls="not-silent", detail="op %d: %s%s of an object with tracing off wrote %d times" % (k, m or op.get("kind"), jkey(op.get("kw")), wrote)))
        ops = []
        for k, op in enumerate(case["ops"]):
            if k in skip or (op.get("m") == "blog_options" and not case["options"]):
                ops.append(None)
                continue
            op = {n: v for n, v in op.items() if n not in ("fault", "nostdout")}
            if op["op"] == "new" and op["kind"] in TALKS:
                op["kw"] = dict(op["kw"], verbose=False)
            ops.append(op)
        twin = forked(lambda: run(ops, 3), 60.0)
        have = {k: got for k, kind, m, got, fired, wrote in rec["log"] if k not in skip}
        for k, kind, m, want, fired, wrote in twin["log"]:
            op = case["ops"][k]
            if wrote:
                out.append(dict(cls="not-silent", detail="op %d: %s%s with tracing off wrote %d times" % (k, m or op.get("kind"), jkey(op.get("kw")), wrote)))
            got = have.get(k)
            if got is None or want[1:2] == ["gave up"] or got[1:2] == ["gave up"]:
                continue
            stat("probe:answers compared")
            rel, ab = c08.TOL.get(kinds.get(op.get("id")), (1e-9, 1e-12)) if skip else (1e-12, 1e-12)
            if not close(got, want, rel, ab):
                out.append(dict(cls="trace-changes-answer", detail="op %d: %s%s returned %s; with tracing off it returns %s" % (
                    k, m or op.get("kind"), jkey(op.get("kw")), short(got), short(want))))
        return out

    def nontrivial(self, case, rec):
        s = rec["stats"]
        return s.get("probe:ops with a trace", 0) >= 1 and s.get("probe:answers compared", 0) >= 4


def run(ops, patience=1):
    w = World()
    err = Stream()
    c11.stub_display(w)
    old, olderr = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = w.out, err
    log = []
    try:
        for k, op in enumerate(ops):
            if op is None or (op["op"] != "new" and op.get("id") is not None and op["id"] not in w.objs):
                continue
            if op["op"] == "new" and any(isinstance(v, dict) and v.get("$obj", "a") not in w.objs for v in op.get("kw", {}).values() if isinstance(v, dict) and "$obj" in v):
                continue
            w.count("ops")
            fired = None
            n0 = w.out.writes + err.writes
            with Budget(c11.STEPS * patience) as left:
                if op.get("fault"):
                    out, exc, fired = w.perform_faulted(op, op["fault"])
                elif op.get("nostdout"):
                    sys.stdout = None
                    out = w.perform(op)
                    sys.stdout = w.out
                    w.count("fault:stream:missing")
                else:
                    out = w.perform(op)
            if left.over:
                out = ["raise", "gave up", []]
            log.append([k, op["op"], op.get("m"), out, fired, w.out.writes + err.writes - n0])
    finally:
        sys.stdout, sys.stderr = old, olderr
    return dict(log=log, stats=w.stats)


CHECK = C15()
