"""Shared generators of scenes (models, views, other objects) and of faults."""
from . import catalog as cat

CB_EXC = ["SimError", "SimError", "KeyboardInterrupt", "SystemExit", "SimAbort", "ValueError", "ZeroDivisionError", "MemoryError", "TimeoutError",
          "KeyError", "AssertionError", "OverflowError", "RuntimeError", "TypeError", "AttributeError", "FloatingPointError",
          "StopIteration", "StopIteration", "GeneratorExit", "IndexError", "NotImplementedError"]
ASYNC_EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "SystemExit", "SimAbort"]
STREAM = ["EPIPE", "ENOSPC", "SHORT", "CLOSED", "KeyboardInterrupt"]


def has_fn(o):
    if isinstance(o, dict):
        return "$fn" in o or any(has_fn(v) for v in o.values())
    if isinstance(o, list):
        return any(has_fn(v) for v in o)
    return False


def frac(rng):
    r = rng.random()
    return 0.0 if r < 0.07 else 0.9999 if r < 0.14 else rng.random()


def gen_fault(rng, ask, meta, custom):
    """A fault suited to the query: callback failure, asynchronous exception, output stream failure."""
    w = []
    if has_fn(ask.get("kw")) or has_fn(ask.get("a")):
        w += ["cb"] * 4
    if custom:
        w += ["cb"] * 2
    if meta.get("verbose"):
        w += ["stream"] * 2
    w += ["async"] * 3
    kind = rng.choice(w)
    if kind == "cb":
        return dict(kind="cb", exc=rng.choice(CB_EXC), frac=frac(rng))
    if kind == "stream":
        return dict(kind="stream", exc=rng.choice(STREAM), frac=frac(rng))
    return async_fault(rng)


def async_fault(rng):
    f = dict(kind="async", exc=rng.choice(ASYNC_EXC), frac=frac(rng), grain="opcode" if rng.random() < 0.4 else "line")
    if rng.random() < 0.6:
        f["pick"] = rng.random()
    return f


def scene(rng, id="a", kinds=None, views=0.4, interest=0.9, ops=None, gens=None):
    """Adds one configured model (and views on it) to ops; returns {id: (question generator, meta)}."""
    new, conf, meta = cat.gen_model(rng, kinds)
    ops.append(dict(op="new", id=id, **new))
    for m, kw in conf:
        ops.append(dict(op="do", id=id, m=m, kw=kw))
    meta["custom"] = has_fn([kw for m, kw in conf])
    meta["verbose"] = bool(new["kw"].get("verbose"))
    if rng.random() < interest or new["kind"] != "SULT":
        kw = cat.gen_interest(rng)
        meta["custom"] = meta["custom"] or has_fn(kw)
        ops.append(dict(op="do", id=id, m="set_interest", kw=kw))
    gens[id] = (cat.Q(rng, meta).ask, meta)
    if meta["kind"] != "Recursion":
        for k in range(2):
            if rng.random() < views:
                v = cat.gen_view(rng, id)
                vid = "%sv%d" % (id, k)
                ops.append(dict(op="new", id=vid, **v))
                gens[vid] = (cat.VQ(rng, v["kind"], meta, v["kw"].get("m")).ask, meta)
    return meta
