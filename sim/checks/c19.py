"""C19: the process's settings are neither changed nor consulted."""
import decimal, gc, importlib, json, locale, logging, os, random, signal, subprocess, sys, threading, time, warnings
from ..core import Check
from ..world import World, jkey, strip
from ..outcome import canon, close, short, raised
from ..forked import HarnessError, forked
from .. import env
from .. import catalog as cat
from .. import loads
from .. import scene as sc
from . import c03, c13, c17

RAISING = {"np.err": ("raise",), "warnings": ("error",), "chained": ("raise",), "recursion": (700,)}


class Clock:
    """A clock of the simulator's: it runs at its own pace and may jump."""
    def __init__(self, start, step):
        self.now, self.step = start, step

    def __call__(self, *a):
        self.now += self.step
        return self.now

    def ns(self):
        return int(self() * 1e9)


def put(what, val):
    """Change one of the process's settings, as any other part of a program might."""
    import numpy as np
    import pandas as pd
    import matplotlib as mpl
    if what == "np.err":
        np.seterr(all=val)
    elif what == "np.print":
        np.set_printoptions(precision=val)
    elif what == "np.seed":
        np.random.seed(val)
    elif what == "seed":
        random.seed(val)
    elif what == "warnings":
        warnings.simplefilter(val)
    elif what == "chained":
        pd.set_option("mode.chained_assignment", val)
    elif what == "pd":
        pd.set_option("display.max_rows", val)
        pd.set_option("display.precision", val)
        pd.set_option("display.max_columns", val)
    elif what == "mpl":
        mpl.rcParams["lines.linewidth"] = val
        mpl.rcParams["figure.figsize"] = [val, val]
        mpl.rcParams["axes.grid"] = True
    elif what == "recursion":
        sys.setrecursionlimit(val)
    elif what == "decimal":
        decimal.getcontext().prec = val
    elif what == "switch":
        sys.setswitchinterval(val)
    elif what == "signal":
        signal.signal(signal.SIGINT, _handler)
        signal.signal(signal.SIGALRM, _handler)
    elif what == "cwd":
        d = os.path.join(os.environ["SIM_SCRATCH"], "cwd-%d-%s" % (os.getpid(), val))
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        os.rmdir(d)                                  # from here on the process stands nowhere: nothing can be read or written by name
    elif what == "env":
        os.environ["COLUMNS"] = str(val)
        os.environ["LANG"] = "tr_TR"
    elif what == "clock":
        c = Clock(*val)
        time.time = time.monotonic = time.perf_counter = time.process_time = c
        time.time_ns = time.monotonic_ns = time.perf_counter_ns = c.ns
    elif what == "hooks":
        sys.excepthook = threading.excepthook = sys.unraisablehook = _handler
    elif what == "logging":
        logging.getLogger().setLevel(val)
    else:
        raise HarnessError("unknown setting " + what)


def _handler(*a):
    pass


CHOICES = {"np.err": ["raise", "warn", "ignore", "print"], "np.print": [2, 12], "np.seed": [0, 7, 12345], "seed": [0, 7], "warnings": ["error", "ignore", "always", "default"],
           "chained": ["raise", "warn", None], "pd": [2, 5, 40], "mpl": [3.0, 8.0], "recursion": [700, 3000, 20000], "decimal": [3, 60], "switch": [1e-4, 0.5], "signal": [0],
           "cwd": ["x"], "env": [20, 400], "clock": [[0.0, 1e-6], [4e9, 86400.0], [1e9, -3600.0], [1e9, 0.0]], "hooks": [0], "logging": [10, 50]}


def snapshot():
    """Every process-wide setting a library could be tempted to touch."""
    import numpy as np
    import pandas as pd
    import matplotlib as mpl
    from pandas._config import config as pc
    st = np.random.get_state()
    s = {
        "numpy error handling": tuple(sorted(np.geterr().items())) + (np.geterrcall(),), "numpy print options": repr(np.get_printoptions()),
        "numpy random state": (st[0], hash(st[1].tobytes())) + tuple(st[2:]), "random state": hash(random.getstate()),
        "warning filters": list(warnings.filters), "warnings.showwarning": (warnings.showwarning, warnings.formatwarning),
        "pandas options": repr(pc._global_config), "matplotlib rcParams": {k: repr(dict.__getitem__(mpl.rcParams, k)) for k in dict.keys(mpl.rcParams)},
        "matplotlib backend": mpl.get_backend(), "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
        "trace function": sys.gettrace(), "profile function": sys.getprofile(), "thread trace function": threading.gettrace(),
        "hooks": (sys.excepthook, threading.excepthook, sys.unraisablehook, sys.displayhook, sys.breakpointhook),
        "stdout": id(sys.stdout), "stderr": id(sys.stderr), "stdin": id(sys.stdin), "decimal context": repr(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL), "working directory": cwd(), "environment": dict(os.environ), "import path": list(sys.path), "arguments": list(sys.argv),
        "signal handlers": [signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGPIPE, signal.SIGUSR1)],
        "interval timer": signal.getitimer(signal.ITIMER_REAL), "threads": sorted(t.name for t in threading.enumerate()), "umask": mask(),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)),
        "logging": (logging.getLogger().level, list(logging.getLogger().handlers), logging.root.manager.disable),
        "clock functions": (time.time, time.monotonic, time.perf_counter, time.sleep), "int digits": sys.get_int_max_str_digits(),
    }
    import math, scipy.integrate, scipy.optimize
    s["functions of math, numpy and scipy"] = tuple(id(f) for f in (math.log, math.exp, math.floor, math.ceil, np.exp, np.log, np.array, scipy.integrate.quad, scipy.optimize.minimize,
                                                                      scipy.optimize.root_scalar, pd.DataFrame, print, sum, min, max, round, open))
    return s


def mask():
    m = os.umask(0)
    os.umask(m)
    return m


def cwd():
    try:
        return os.getcwd()
    except OSError:
        return "removed"


def diff(a, b):
    return [k for k in a if a[k] != b[k]]


class C19(Check):
    id = "C19"
    quick_runs = 700
    thorough_runs = 24000
    quick_wall = 200.0
    rule = ("a run builds one to two models of any class (with views, traces, tables, reserves) and puts to them a history of loads, refused and failed loads, questions, frames and plots, "
            "many cut short by a failing callback, an interrupt at a chosen line or bytecode or a failing output stream, while the rest of the program changes process-wide settings (numpy "
            "error handling, warning filters, random seeds, pandas and matplotlib options, recursion limit, decimal precision, signal handlers, hooks, working directory, environment, the "
            "clock, which may stand still or jump); after every call thirty process-wide settings are compared with what they were before it, and every answer with that of a pristine "
            "twin in an untouched process; non-trivial: a setting was changed, a call was cut short or refused, and 5 answers were compared")
    assumptions = ["under settings that turn numerical warnings into errors a question may raise instead of answering", "a load that raised is not judged further here (C02, C06, C08 do)"]
    real = c17.C17.real
    stubs = Check.stubs + ["clock functions of the time module (when the simulator sets them)"]

    def generate(self, rng, tier):
        if rng.random() < 0.01:
            return dict(ops=[self.setting(rng) for _ in range(rng.randint(0, 4))], load=True)
        ops, gens, metas = [], {}, {}
        for k in range(rng.choice([1, 1, 2])):
            i = "ab"[k]
            metas[i] = sc.scene(rng, i, views=0.3, ops=ops, gens=gens)
            if metas[i]["kind"] != "Recursion" and rng.random() < 0.3:
                ops.append(dict(op="do", id=i, m="set_reserves", kw=dict(T=4, endowment=rng.choice([0, 100]), V=cat.D({1: 5.5, 2: 12.0}))))
                metas[i]["V"] = True
        ops.append(dict(op="fig", name="f0", n=1))
        body, news = [], [o for o in ops if o["op"] == "do"]
        for _ in range(rng.choice([0, 1, 2])):       # settings in force while models are built
            ops.insert(rng.randint(0, len(ops)), self.setting(rng))
        ids, last = sorted(gens), None
        for _ in range(rng.randint(8, 18)):
            r = rng.random()
            if r < 0.18:
                body.append(self.setting(rng))
            elif r < 0.3:
                i = rng.choice(sorted(metas))
                p = dict(c17.CHECK.plot(rng, i, metas[i]), ax="f0.0")
                p["kw"].pop("discrete", None)
                if rng.random() < 0.4:
                    p["fault"] = sc.gen_fault(rng, dict(kw=p["kw"]), metas[i], metas[i]["custom"])
                body.append(p)
            elif r < 0.4 and news:
                op = dict(rng.choice(news))
                if rng.random() < 0.6:
                    op["fault"] = loads.load_fault(rng, metas[op["id"]].get("verbose"), sc.has_fn(op["kw"]))
                elif rng.random() < 0.5:
                    op = dict(op, m="set_interest", kw=cat.bad_interest(rng))
                body.append(op)
            elif r < 0.46:
                i = rng.choice(sorted(metas))
                f = rng.choice([["b1_lin", 1, 0.5], ["b1_lin", -2, 3.0], ["v_pow", 0.05]])
                q = dict(op="ask", id=i, **rng.choice([
                    dict(m="solve", kw=dict(fun={"$fn": f}, target=0.5, grid=rng.choice([1.0, [0, 3]]), mad=rng.random() < 0.3)),
                    dict(m="integral", kw=dict(fun={"$fn": f}, lower=0, upper=rng.choice([1, 5]))), dict(m="derivative", kw=dict(fun={"$fn": f}, x=1.0))]))
                if q["kw"].get("mad"):
                    q["kw"]["grid"] = [0, 3]
                if rng.random() < 0.5:
                    q["fault"] = sc.gen_fault(rng, q, metas[i], True)
                body.append(q)
            elif last is not None and r < 0.55:
                body.append(dict(last))
            else:
                i = rng.choice(ids)
                q = dict(gens[i][0](), id=i)
                last = dict(q)
                if rng.random() < 0.35:
                    q["fault"] = sc.gen_fault(rng, q, gens[i][1], gens[i][1].get("custom"))
                body.append(q)
        return dict(ops=ops + body)

    def setting(self, rng):
        what = rng.choice(sorted(CHOICES))
        return dict(op="set", what=what, val=rng.choice(CHOICES[what]))

    def execute(self, case):
        if case.get("load"):
            return self.importing(case)
        w = c17.PlotWorld()
        old, sys.stdout = sys.stdout, w.out
        sys.stderr = World().out                     # warnings the settings let through
        obs, log, changed, raising, tainted = [], [], [], {}, set()
        before = snapshot()
        for k, op in enumerate(case["ops"]):
            if op["op"] == "fig":
                w.easel.new(op["name"], op["n"])
                before = snapshot()
                continue
            if op["op"] == "set":
                put(op["what"], op["val"])
                raising[op["what"]] = op["val"] in RAISING.get(op["what"], ())
                w.count("fault:setting:" + op["what"])
                before = snapshot()
                log.append([k, "set", op["what"]])
                continue
            if op["op"] != "new" and op["id"] not in w.objs:
                continue
            refs = [v["$obj"] for v in op.get("kw", {}).values() if isinstance(v, dict) and "$obj" in v]
            if any(r not in w.objs for r in refs) or op["op"] == "plot" and op["ax"] not in w.easel.axes:
                continue
            w.count("ops")
            fired = None
            call = op
            if op["op"] == "plot":
                call = dict(op="ask", id=op["id"], m=op["m"], kw=dict(op["kw"], ax={"$axis": op["ax"]}))
            if op.get("fault"):
                out, exc, fired = w.perform_faulted(call, op["fault"])
                exc = None
            else:
                out = w.perform(call)
            after = snapshot()
            d = diff(before, after)
            if d:
                changed.append(dict(k=k, op=op, what=d, fired=fired, detail="; ".join(self.tell(before[n], after[n]) for n in d[:3])))
                before = after
                self.restore_streams(w)
                before = snapshot()
            w.count("compared", 1)
            log.append([k, op["op"], op.get("m"), out, fired, d])
            if op["op"] == "ask":
                base = op["id"].split("v")[0]
                if op["id"] not in tainted and base not in tainted:
                    obs.append(dict(k=k, id=op["id"], ask=strip(op), recipe=w.recipe(op["id"]), raw_recipe=w.recipe(op["id"], False), out=out, fired=fired, raising=any(raising.values())))
            elif op["op"] != "plot":
                if out[0] != "raise":
                    w.accepted(op)
                    if op["op"] == "new":
                        tainted.discard(op["id"])
                else:
                    tainted.add(op["id"])
        sys.stdout = old
        return dict(obs=obs, changed=changed, log=log, stats=w.stats)

    def importing(self, case):
        """A fresh process changes settings, then imports the library."""
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "sim.checks.c19", json.dumps([o for o in case["ops"] if o["what"] != "cwd"])], cwd=env.VERIF, capture_output=True, text=True, timeout=35)
        if p.returncode:
            raise HarnessError(p.stdout + p.stderr)
        d = json.loads(p.stdout.strip().splitlines()[-1])
        return dict(obs=[], changed=[dict(k=-1, op=dict(id="import actuarialmath"), what=sorted(d), fired=None, detail="; ".join(d.values()))] if d else [], log=[["import", sorted(d)]],
                    stats={"ops": 1, "compared": 1, "probe:library imported under changed settings": 1})

    def restore_streams(self, w):
        sys.stdout = w.out

    @staticmethod
    def tell(a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            for k in sorted(set(a) | set(b), key=str):
                if a.get(k) != b.get(k):
                    return "%s: %.60r -> %.60r" % (k, a.get(k), b.get(k))
        return "%.80r -> %.80r" % (a, b)

    def judge(self, case, rec, oracle):
        out = []
        for c in rec["changed"]:
            out.append(dict(cls="setting-changed", detail="op %d: %s.%s%s%s changed the process's %s (%s)" % (
                c["k"], c["op"]["id"], c["op"].get("m", "new"), jkey(c["op"].get("kw", {})), ", cut short by %s," % c["fired"] if c["fired"] else "", ", ".join(c["what"]), c["detail"])))
        judged = [o for o in rec["obs"] if not (o["raising"] and o["out"][0] == "raise")]
        return out + c03.judge_history(dict(rec, obs=judged), oracle, "answer-depends-on-settings")

    def nontrivial(self, case, rec):
        st = rec["stats"]
        return any(k.startswith("fault:setting") for k in st) and any(k.startswith("fault:") and not k.startswith("fault:setting") for k in st) and len([o for o in rec.get("obs", []) if o["out"][0] != "raise"]) >= 5


CHECK = C19()


def fresh(settings):
    """In a process that has not imported the library: what importing it changes."""
    sys.path.insert(0, env.SRC)

    def names():
        importlib.import_module("actuarialmath")
        return [m for m in sys.modules if not m.startswith("actuarialmath")]
    for m in forked(names, 30.0):                    # everything it imports in turn
        if m not in sys.modules and not m.startswith("__"):
            try:
                importlib.import_module(m)
            except Exception:
                pass
    import matplotlib
    matplotlib.use("Agg")
    for op in settings:
        put(op["what"], op["val"])
    a = snapshot()
    importlib.import_module("actuarialmath")
    b = snapshot()
    return {k: C19.tell(a[k], b[k]) for k in diff(a, b)}


if __name__ == "__main__":
    import numpy, pandas, scipy.integrate, scipy.optimize, matplotlib  # noqa: F401
    print(json.dumps(fresh(json.loads(sys.argv[1]))))
