"""Executes operations on real library objects; keeps, per object, the recipe of its pristine twin."""
import io, json, sys, errno
from . import fns
from .fns import CTL, EXC, make
from .outcome import canon, raised
from .ticks import Ticker
from .forked import forked, HarnessError

INTEREST, SURVIVAL = "set_interest", "set_survival"
# mutators whose effect depends on the assumptions in force when they run
MATERIAL = {"fill_reserves", "set_table", "set_select", "fill_table"}
WRAPPERS = {"Mthly", "UDD", "Woolhouse", "ExtraRisk"}


class Stream(io.TextIOBase):
    """The process's output stream, owned by the simulator."""
    def __init__(self):
        self.writes, self.chars, self.at, self.err, self.fired = 0, 0, 0, None, 0
        self.text = []
        self.keep = False

    def writable(self):
        return True

    def arm(self, at, err):
        self.at, self.err, self.base = at, err, self.writes

    def disarm(self):
        self.at, self.err = 0, None

    def write(self, s):
        self.writes += 1
        if self.at and self.writes - self.base >= self.at:
            self.fired += 1
            if self.err == "SHORT":                      # a short write: half the text, then failure next time
                self.err = "EPIPE"
                self.chars += len(s) // 2
                return len(s) // 2
            if self.err == "EPIPE":
                raise BrokenPipeError(errno.EPIPE, "Broken pipe")
            if self.err == "ENOSPC":
                raise OSError(errno.ENOSPC, "No space left on device")
            if self.err == "CLOSED":
                raise ValueError("I/O operation on closed file")
            raise EXC[self.err]("stream")
        self.chars += len(s)
        if self.keep:
            self.text.append(s)
        return len(s)

    def flush(self):
        pass


def jkey(o):
    return json.dumps(o, sort_keys=True, separators=(",", ":"))


class World:
    def __init__(self):
        import actuarialmath as am
        self.am = am
        self.objs = {}
        self.log = {}            # id -> list of accepted constructive ops (compressed on demand)
        self.out = Stream()
        self.stats = {}

    # ---- values ------------------------------------------------------------------------------------------
    def cls(self, name):
        am = self.am
        if hasattr(am, name):
            return getattr(am, name)
        raise HarnessError("no class " + name)

    def dec(self, v):
        if isinstance(v, dict):
            if "$fn" in v:
                return make(*v["$fn"])
            if "$d" in v:
                return {k: self.dec(x) for k, x in v["$d"]}
            if "$obj" in v:
                return self.objs[v["$obj"]]
            if "$c" in v:
                return self.am.Contract(**{k: self.dec(x) for k, x in v["$c"].items()})
            if "$t" in v:
                return tuple(self.dec(x) for x in v["$t"])
            return {k: self.dec(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.dec(x) for x in v]
        return v

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    # ---- operations --------------------------------------------------------------------------------------
    def call(self, target, m, a=(), kw=None):
        """m: dotted attribute path, or [key] for item access."""
        if m.startswith("["):
            return target[m[1:-1]]
        f = target
        for part in m.split("."):
            f = getattr(f, part)
        if callable(f):
            return f(*a, **(kw or {}))
        return f

    def raw(self, op):
        """Perform an operation; exceptions propagate."""
        kind = op["op"]
        if kind == "new":
            kw = {k: self.dec(v) for k, v in op.get("kw", {}).items()}
            self.objs[op["id"]] = self.cls(op["kind"])(**kw)
            return None
        target = self.objs[op["id"]] if op.get("id") is not None else self.cls(op["kind"])
        kw = {k: self.dec(v) for k, v in op.get("kw", {}).items()}
        a = [self.dec(v) for v in op.get("a", [])]
        return self.call(target, op["m"], a, kw)

    def perform(self, op):
        """Perform an operation; its canonical outcome."""
        try:
            return canon(self.raw(op))
        except HarnessError:
            raise
        except BaseException as e:
            return raised(e)

    def accepted(self, op):
        """Record a constructive operation that succeeded."""
        if op["op"] == "new":
            self.log[op["id"]] = [strip(op)]
        else:
            self.log[op["id"]].append(strip(op))

    def recipe(self, id, canon_forms=True):
        """Shortest list of constructive operations that builds the pristine twin of object `id`."""
        log = self.log[id]
        keep = []
        for k, op in enumerate(log):
            m = op.get("m")
            if m in (INTEREST, SURVIVAL):
                later = log[k + 1:]
                superseded = False
                for o in later:
                    if o.get("m") in MATERIAL:
                        break
                    if o.get("m") == m:
                        superseded = True
                        break
                if superseded:
                    continue
            keep.append(canonical(op) if canon_forms else op)
        base = []
        for v in keep[0].get("kw", {}).values():
            if isinstance(v, dict) and "$obj" in v:
                base += self.recipe(v["$obj"], canon_forms)
        return base + keep

    def build(self, recipe):
        for op in recipe:
            self.raw(op)

    # ---- faults ------------------------------------------------------------------------------------------
    def measure(self, op, grain="line", clock=True, places=False):
        """Dry run in a fork: ticks (and the first and last of every place), callback evaluations and stream writes the operation takes."""
        def dry():
            CTL.arm(0)
            w0 = self.out.writes
            old = sys.stdout
            sys.stdout = self.out
            t = Ticker(grain=grain, locs={} if places else None)
            if clock:
                with t:
                    o = self.perform(op)
            else:                                      # the costly clock is only needed to place asynchronous faults
                o = self.perform(op)
            sys.stdout = old
            return dict(ticks=t.n, cbs=CTL.n, writes=self.out.writes - w0, out=o, places=sorted(t.locs.values()) if places else None)
        return forked(dry)

    def perform_faulted(self, op, fault, cost=None):
        """Returns (outcome, exception or None, fired description or None)."""
        kind = fault["kind"]
        cost = cost or self.measure(op, fault.get("grain", "line"), kind == "async", "pick" in fault)
        exc, fired = None, None
        self.count("ticks", cost["ticks"])

        def attempt():
            nonlocal exc
            try:
                return canon(self.raw(op))
            except HarnessError:
                raise
            except BaseException as e:
                exc = e
                return raised(e)
        if kind == "cb":
            if not cost["cbs"]:
                return self.perform(op), None, None
            CTL.arm(1 + min(cost["cbs"] - 1, int(fault["frac"] * cost["cbs"])), fault["exc"])
            out = attempt()
            if CTL.fired:
                fired = "cb@%d/%d" % (CTL.at, cost["cbs"])
            CTL.disarm()
        elif kind == "async":
            if not cost["ticks"]:
                return self.perform(op), None, None
            at = 1 + min(cost["ticks"] - 1, int(fault["frac"] * cost["ticks"]))
            if "pick" in fault and cost.get("places"):       # at a place drawn among the places, not in proportion to the time spent there
                at = cost["places"][int(fault["pick"] * len(cost["places"]))][fault["frac"] >= 0.6]
            t = Ticker(at, fault["exc"], fault.get("grain", "line"))
            with t:
                out = attempt()
            fired = t.fired and "%s@%d/%d %s" % (fault["exc"], t.at, cost["ticks"], t.fired)
        elif kind == "stream":
            if not cost["writes"]:
                return self.perform(op), None, None
            self.out.arm(1 + min(cost["writes"] - 1, int(fault["frac"] * cost["writes"])), fault["exc"])
            n0 = self.out.fired
            out = attempt()
            if self.out.fired > n0:
                fired = "stream %s@%d/%d" % (fault["exc"], self.out.at, cost["writes"])
            self.out.disarm()
        else:
            raise HarnessError("unknown fault " + kind)
        if fired:
            self.count("fault:" + kind + ":" + fault["exc"])
        return out, exc, fired


def strip(op):
    return {k: v for k, v in op.items() if k in ("op", "id", "kind", "kw", "m", "a")}


def effective_i(kw):
    """Reference normalisation of a set_interest call to one effective rate (independent of the library)."""
    import math
    k = {n: v for n, v in kw.items() if v is not None}
    if "v_t" in k:
        return None
    m = k.get("m", 0)
    if len([n for n in k if n in ("i", "d", "v", "delta", "i_m", "d_m")]) != 1:
        return None
    if "i" in k:
        return k["i"]
    if "delta" in k:
        return math.expm1(k["delta"])
    if "d" in k:
        return k["d"] / (1 - k["d"])
    if "v" in k:
        return (1 - k["v"]) / k["v"]
    if "i_m" in k:
        return (1 + k["i_m"] / m) ** m - 1
    if "d_m" in k:
        return (1 - k["d_m"] / m) ** -m - 1
    return None


def canonical(op):
    if op.get("m") == INTEREST:
        i = effective_i(op["kw"])
        if i is not None:
            return dict(op, kw=dict(i=i))
    return op
