"""Canonical, JSON-able form of what a call did, and tolerant comparison of two of them."""
import math
import numpy as np
import pandas as pd

REL, ABS = 1e-9, 1e-9


def canon(v, depth=0):
    if v is None:
        return ["none"]
    if isinstance(v, (bool, np.bool_)):
        return ["n", float(v)]
    if isinstance(v, (int, float, np.integer, np.floating)):
        f = float(v)
        if f != f:
            return ["nan"]
        if f in (math.inf, -math.inf):
            return ["inf", 1 if f > 0 else -1]
        return ["n", f]
    if isinstance(v, (complex, np.complexfloating)):
        return ["c", v.real, v.imag]
    if isinstance(v, str):
        return ["s", v]
    if depth > 6:
        return ["deep", type(v).__name__]
    if isinstance(v, pd.DataFrame):
        return ["df", [str(c) for c in v.columns], [str(i) for i in v.index],
                [[canon(x, depth + 1) for x in row] for row in v.astype(object).values.tolist()]]
    if isinstance(v, pd.Series):
        return canon(v.to_frame(), depth)
    if isinstance(v, np.ndarray):
        return canon(v.tolist(), depth)
    if isinstance(v, dict):
        items = [[repr(k), canon(x, depth + 1)] for k, x in v.items()]
        return ["d", sorted(items, key=lambda kv: kv[0])]
    if isinstance(v, (set, frozenset)):
        return ["set", sorted((canon(x, depth + 1) for x in v), key=repr)]
    if isinstance(v, (list, tuple)):
        return ["l", [canon(x, depth + 1) for x in v]]
    return ["obj", type(v).__name__]


def raised(e):
    return ["raise", type(e).__name__]


def close(a, b, rel=REL, ab=ABS):
    """Same outcome?  Any exception equals any exception (which type is a matter of implementation)."""
    ta, tb = a[0], b[0]
    if ta != tb:
        return False
    if ta == "n":
        return math.isclose(a[1], b[1], rel_tol=rel, abs_tol=ab)
    if ta == "c":
        return math.isclose(a[1], b[1], rel_tol=rel, abs_tol=ab) and math.isclose(a[2], b[2], rel_tol=rel, abs_tol=ab)
    if ta == "raise":
        return True
    if ta in ("l", "set"):
        return len(a[1]) == len(b[1]) and all(close(x, y, rel, ab) for x, y in zip(a[1], b[1]))
    if ta == "d":
        return len(a[1]) == len(b[1]) and all(x[0] == y[0] and close(x[1], y[1], rel, ab) for x, y in zip(a[1], b[1]))
    if ta == "df":
        return (a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]) and
                all(len(r) == len(q) and all(close(x, y, rel, ab) for x, y in zip(r, q)) for r, q in zip(a[3], b[3])))
    return a == b


def short(o, n=160):
    s = repr(o[1]) if o[0] == "n" else ("nan" if o[0] == "nan" else repr(o))
    return s if len(s) <= n else s[:n] + "..."
