"""C17: plots draw only where asked and report the computed value."""
import sys
from ..core import Check, RUN_TIMEOUT
from ..forked import forked, HarnessError
from ..world import World, jkey, strip
from ..outcome import canon, close, short, raised
from ..fns import MAKERS
from .. import catalog as cat
from .. import scene as sc
from . import c03, c13

SKIP = ("Spine", "XAxis", "YAxis")


def num(v):
    return [float(x) for x in v]


def art(a):
    """Description of one artist."""
    from matplotlib.patches import Rectangle
    from matplotlib.lines import Line2D
    from matplotlib.text import Text
    from matplotlib.legend import Legend
    from matplotlib.collections import Collection
    import matplotlib.colors as mc
    if isinstance(a, Rectangle):
        return ["rect", num([a.get_x(), a.get_y(), a.get_width(), a.get_height()]), num(a.get_facecolor())]
    if isinstance(a, Line2D):
        return ["line", num(a.get_xdata(False)), [float("nan") if y is None else float(y) for y in a.get_ydata(False)], num(mc.to_rgba(a.get_color(), a.get_alpha())),
                str(a.get_marker()), a.get_linestyle(), float(a.get_linewidth()), a.get_drawstyle(), "" if str(a.get_label()).startswith("_") else str(a.get_label())]
    if isinstance(a, Legend):
        return ["legend", [t.get_text() for t in a.get_texts()]]
    if isinstance(a, Text):
        return ["text", a.get_text(), num(mc.to_rgba(a.get_color()))]
    if isinstance(a, Collection):
        return ["coll", type(a).__name__, [num(p.vertices.ravel()) for p in a.get_paths()]]
    return ["other", type(a).__name__]


def kids(ax):
    """The artists drawn on an axis, apart from its own furniture."""
    own = {id(ax.patch), id(ax.title), id(ax._left_title), id(ax._right_title)}
    return [c for c in ax.get_children() if type(c).__name__ not in SKIP and id(c) not in own]


def words(ax):
    return [art(ax.title), art(ax.xaxis.label), art(ax.yaxis.label)]


def look(ax):
    return [[art(c) for c in kids(ax)], words(ax)]


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 + 1e-7 * max(abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def tell(a, b, path=""):
    """Where two descriptions first differ."""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %d items / %d items" % (path, len(a), len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return tell(x, y, path + "/%d" % k)
    return "%s: %r / %r" % (path, a, b)


class Easel:
    """The figures and axes of a run."""
    def __init__(self, w):
        self.w, self.axes = w, {}

    def plt(self):
        import matplotlib.pyplot as plt
        return plt

    def new(self, name, n):
        fig, axs = self.plt().subplots(1, n, squeeze=False)
        for k, ax in enumerate(axs[0]):
            self.axes["%s.%d" % (name, k)] = ax

    def figs(self):
        plt = self.plt()
        return {n: list(plt.figure(n).axes) for n in plt.get_fignums()}

    def snapshot(self):
        plt = self.plt()
        cur = plt.gcf().number if plt.get_fignums() else None
        s = {n: [(ax, kids(ax), look(ax)) for ax in axs] for n, axs in self.figs().items()}
        if cur is not None:
            plt.figure(cur)
        return s

    def draw(self, op):
        """Performs a plot; -> (outcome, exception, fired, what it did to the figures)."""
        w = self.w
        before = self.snapshot()
        given = self.axes[op["ax"]] if op.get("ax") else None
        call = dict(op="ask", id=op["id"], m=op["m"], kw=dict(op["kw"]))
        if given is not None:
            call["kw"]["ax"] = {"$axis": op["ax"]}
        fired = None
        if op.get("fault"):
            out, exc, fired = w.perform_faulted(call, op["fault"])
        else:
            out = w.perform(call)
        after = self.snapshot()
        opened = [n for n in after if n not in before]
        gone = [n for n in before if n not in after]
        stray = []
        if gone:
            stray.append("figure closed")
        if given is not None and opened or len(opened) > 1:
            stray.append("%d figures opened" % len(opened))
        target = given
        if given is None and len(opened) == 1:
            target = after[opened[0]][0][0] if after[opened[0]] else None
        new, twins = None, []
        for n, axs in after.items():
            if n in gone:
                continue
            known = {id(a): (k, l) for a, k, l in before.get(n, [])}
            for ax, ks, lk in axs:
                if id(ax) not in known:
                    if ax is target:
                        new = [[art(c) for c in ks], words(ax)]
                    elif target is not None and ax.figure is target.figure and target.get_shared_x_axes().joined(target, ax):
                        twins.append(lk)
                    else:
                        stray.append("an axis was added to figure %d" % n)
                    continue
                k0, l0 = known[id(ax)]
                if ax is target:
                    old = [(c, d) for c, d in zip(k0, l0[0]) if d[0] != "legend"]
                    now = {id(c): d for c, d in zip(ks, lk[0])}
                    for c, d in old:
                        if id(c) not in now or not same(now[id(c)], d):
                            stray.append("what was on the axis before was changed")
                            break
                    seen = {id(c) for c in k0}
                    new = [[d for c, d in zip(ks, lk[0]) if id(c) not in seen], words(ax)]
                elif not same(lk, l0):
                    stray.append("another axis (figure %d) was drawn on: %s" % (n, tell(l0, lk)))
        return out, fired, dict(stray=stray, new=new, twins=twins, opened=len(opened))


class PlotWorld(World):
    def __init__(self):
        super().__init__()
        self.easel = Easel(self)

    def dec(self, v):
        if isinstance(v, dict) and "$axis" in v:
            return self.easel.axes[v["$axis"]]
        return super().dec(v)


def alone(recipe, plot):
    """The same plot by a freshly built model on a fresh axis."""
    w = PlotWorld()
    sys.stdout = w.out
    try:
        w.build(recipe)
    except HarnessError:
        raise
    except BaseException as e:
        return ["build-raise"], None
    w.easel.new("f", 1)
    out, fired, did = w.easel.draw(dict(plot, ax="f.0"))
    return out, did


class C17(Check):
    id = "C17"
    quick_runs = 500
    thorough_runs = 24000
    rule = ("a run builds one to three models and two to four axes in up to three figures, and interleaves plots of benefit, annuity, loss and reserve values (with and without an axis, "
            "dual curve, marked time, own colours and titles, shared axes drawn on repeatedly) with questions and changes of assumptions; some plots are aborted by a failing benefit "
            "function or an interrupt at a chosen line; after every plot all figures, axes and artists are compared with those before, what was drawn and returned with the same plot "
            "by a pristine twin on a fresh axis, and answers with pristine twins; non-trivial: two plots drawn and two questions answered")
    assumptions = ["an aborted plot may leave part of its own drawing on its own axis", "matplotlib runs for real, on its Agg canvas; nothing is rendered to pixels"]
    real = ["actuarialmath (all of it, from /repo/src)", "numpy/scipy/pandas", "matplotlib"]

    def generate(self, rng, tier):
        ops, gens = [], {}
        metas = {}
        for k in range(rng.choice([1, 1, 2, 2, 3])):
            i = "abc"[k]
            metas[i] = sc.scene(rng, i, views=0.1, ops=ops, gens=gens)
            if rng.random() < 0.4:
                T = rng.choice([2, 4, 6])
                ops.append(dict(op="do", id=i, m="set_reserves", kw=dict(T=T, endowment=rng.choice([0, 100]), V=cat.D({1: 5.5, 2: 12.0}))))
                metas[i]["V"] = True
        axes = []
        for k in range(rng.choice([1, 2, 3])):
            n = rng.choice([1, 1, 2])
            ops.append(dict(op="fig", name="f%d" % k, n=n))
            axes += ["f%d.%d" % (k, j) for j in range(n)]
        ids = sorted(gens)
        last = {}
        for _ in range(rng.randint(5, 12)):
            r = rng.random()
            if r < 0.55:
                i = rng.choice(sorted(metas))
                if i in last and rng.random() < 0.3:
                    p = dict(last[i])
                    if rng.random() < 0.5:
                        p["kw"] = dict(p["kw"], T=rng.choice([None, 0, 2, 3.5]) if p["m"] != "V_plot" else None)
                        if p["m"] == "V_plot":
                            p["kw"].pop("T")
                else:
                    p = self.plot(rng, i, metas[i])
                last[i] = {k: v for k, v in p.items() if k != "fault"}
                p = dict(p, ax=rng.choice(axes) if rng.random() < 0.8 else None)
                if rng.random() < 0.2:
                    f = sc.gen_fault(rng, dict(kw=p["kw"]), metas[i], metas[i]["custom"])
                    if f["kind"] != "stream":
                        ops.append(dict(p, fault=f))
                        if rng.random() < 0.3:
                            continue
                ops.append(p)
            elif r < 0.93:
                i = rng.choice(ids)
                q = gens[i][0]()
                if q["m"] not in cat.JUMPY:
                    ops.append(dict(q, id=i))
            else:
                i = rng.choice(sorted(metas))
                ops.append(dict(op="do", id=i, m="set_interest", kw=dict(i=rng.choice([0.03, 0.06, 0.1]))))
        return dict(ops=ops)

    def plot(self, rng, i, meta):
        m = rng.choice(["Z_plot", "Z_plot", "Y_plot", "Y_plot", "L_plot", "L_plot", "V_plot"])
        if m == "V_plot":
            if not meta.get("V"):
                m = "Z_plot"
            else:
                kw = {}
                if rng.random() < 0.5:
                    kw["color"] = rng.choice(["b", "k"])
                if rng.random() < 0.5:
                    kw["title"] = rng.choice(["reserves", ""])
                return dict(op="plot", id=i, m=m, kw=kw)
        kw = dict(x=rng.choice(meta["ages"]))
        if rng.random() < 0.3:
            kw["s"] = rng.choice([0, 1, 2])
        if rng.random() < 0.85:
            kw["stop"] = rng.choice([1, 3, 5, 10, 10, 20])
        if rng.random() < 0.6:
            kw["T"] = rng.choice([0, 1, 3, 2.5, 7])
        if rng.random() < 0.4:
            kw["dual"] = True
        if rng.random() < 0.3:
            kw["color"] = rng.choice(["b", "k"])
        if rng.random() < 0.3:
            kw["alpha"] = rng.choice([0.2, 0.8])
        if rng.random() < 0.3:
            kw["title"] = rng.choice(["mine", ""])
        cont = rng.random() < 0.02                     # a thousand bars: costly
        if m == "L_plot":
            c = dict(cat.contract(rng)["$c"])
            c["discrete"] = not cont
            if rng.random() < 0.9:
                kw["contract"] = {"$c": c}
        else:
            if cont:
                kw["discrete"] = False
            if rng.random() < 0.6:
                kw["benefit"] = cat.benefit(rng)
        return dict(op="plot", id=i, m=m, kw=kw)

    def execute(self, case):
        w = PlotWorld()
        old, sys.stdout = sys.stdout, w.out
        obs, log, plots = [], [], []
        for k, op in enumerate(case["ops"]):
            if op["op"] == "fig":
                w.easel.new(op["name"], op["n"])
                continue
            if op["op"] != "new" and op["id"] not in w.objs:
                continue
            if op["op"] == "new" and any(isinstance(v, dict) and "$obj" in v and v["$obj"] not in w.objs for v in op.get("kw", {}).values()):
                continue
            if op["op"] == "plot" and op.get("ax") and op["ax"] not in w.easel.axes:
                continue
            w.count("ops")
            if op["op"] == "plot":
                out, fired, did = w.easel.draw(op)
                w.count("probe:plots drawn", out[0] != "raise")
                w.count("probe:plots aborted", bool(fired))
                plots.append(dict(k=k, id=op["id"], plot=dict(op="plot", id=op["id"], m=op["m"], kw=op["kw"]), ax=op.get("ax"), out=out, fired=fired, did=did, recipe=w.recipe(op["id"], False)))
                log.append([k, op["m"], out, fired, did["stray"]])
            else:
                out = w.perform(op)
                if op["op"] == "ask":
                    obs.append(dict(k=k, id=op["id"], ask=strip(op), recipe=w.recipe(op["id"]), raw_recipe=w.recipe(op["id"], False), out=out, fired=None))
                elif out[0] != "raise":
                    w.accepted(op)
                log.append([k, op.get("m"), out])
        sys.stdout = old
        return dict(obs=obs, plots=plots, log=log, stats=w.stats)

    def judge(self, case, rec, oracle):
        out = c03.judge_history(rec, oracle, "answer-after-plots")
        for p in rec["plots"]:
            at = "op %d: %s.%s%s on %s" % (p["k"], p["id"], p["plot"]["m"], jkey(p["plot"]["kw"]), p["ax"])
            did = p["did"]
            for s in did["stray"]:
                out.append(dict(cls="drawn-elsewhere", detail="%s: %s" % (at, s)))
            if p["fired"]:
                if did["twins"] and not p["plot"]["kw"].get("dual"):
                    out.append(dict(cls="drawn-elsewhere", detail=at + ": a twin axis was added unasked"))
                continue
            key = jkey([p["recipe"], p["plot"]])
            if key not in oracle.memo:
                oracle.memo[key] = forked(lambda: alone(p["recipe"], p["plot"]), RUN_TIMEOUT)
            want, ref = oracle.memo[key]
            if want[0] == "build-raise":
                continue
            if not close(p["out"], want):
                out.append(dict(cls="plot-differs-from-alone", detail="%s returned %s; alone it returns %s" % (at, short(p["out"]), short(want))))
                continue
            if want[0] == "raise":
                kw = p["plot"]["kw"]
                if p["plot"]["m"] != "V_plot" and kw.get("T") is None:
                    marked = dict(p["plot"], kw=dict(kw, T=1))
                    if forked(lambda: alone(p["recipe"], marked), RUN_TIMEOUT)[0][0] != "raise":
                        out.append(dict(cls="value-reported", detail="%s raises for want of a time to mark; the same plot with T=1 does not" % at))
                continue
            if did["new"] is None:
                out.append(dict(cls="drawn-elsewhere", detail=at + ": nothing was drawn where asked"))
            elif not same(did["new"], ref["new"]):
                out.append(dict(cls="plot-differs-from-alone", detail="%s drew, and alone draws: %s" % (at, tell(did["new"], ref["new"]))))
            if not same(did["twins"], ref["twins"]):
                out.append(dict(cls="plot-differs-from-alone", detail="%s: twin axis, drawn and alone: %s" % (at, tell(did["twins"], ref["twins"]))))
            title = p["plot"]["kw"].get("title")
            if title is not None and ref["new"][1][0][1] != title:
                out.append(dict(cls="value-reported", detail="%s is titled %r" % (at, ref["new"][1][0][1])))
            out += self.value(p, want, ref, oracle, at)
        return out

    def value(self, p, ret, ref, oracle, at):
        """The value returned is the value marked, and that of the random variable."""
        m, kw = p["plot"]["m"], p["plot"]["kw"]
        T = kw.get("T")
        marks = [a for a in ref["new"][0] if a[0] == "line" and len(a[1]) == 1]
        if m == "V_plot":
            return []
        if T is None:
            return [] if ret == ["none"] else [dict(cls="value-reported", detail="%s: no time is marked, but it returned %s" % (at, short(ret)))]
        if ret[0] != "n":
            return [dict(cls="value-reported", detail="%s: marks time %s and returned %s" % (at, T, short(ret)))]
        out = []
        if len(marks) == 1 and not (same(marks[0][1][0], float(T)) and same(marks[0][2][0], ret[1])):
            out.append(dict(cls="value-reported", detail="%s: marks (%s, %s) and returned %s" % (at, marks[0][1][0], marks[0][2][0], short(ret))))
        b = kw.get("benefit", {"$fn": ["b_const", 1]})["$fn"]
        if m == "L_plot":
            ask = dict(op="ask", id=p["id"], m="L_from_t", kw=dict(t=T, **({"contract": kw["contract"]} if "contract" in kw else {})))
            f = 1.0
        elif b[0] in ("b_const",) or b[0] != "b_age" and not kw.get("s"):
            ask = dict(op="ask", id=p["id"], m=m[0] + "_from_t", kw=dict(t=T, discrete=kw.get("discrete", True)))
            f = MAKERS[b[0]](*b[1:])(kw["x"], T)
        else:
            return out
        want = oracle.expect(p["recipe"], ask)
        if want[0] == "n" and not close(ret, ["n", want[1] * f], 1e-9, 1e-9):
            out.append(dict(cls="value-reported", detail="%s returned %s; the random variable's value at %s is %s" % (at, short(ret), T, want[1] * f)))
        return out

    def nontrivial(self, case, rec):
        return rec["stats"].get("probe:plots drawn", 0) >= 2 and len([o for o in rec.get("obs", []) if o["out"][0] != "raise"]) >= 2


CHECK = C17()
