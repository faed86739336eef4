"""Shared helpers of the concrete (bounded) checks, run on the real code in /repo."""
import itertools as it
import sys, random
import numpy as np
import ref

CODES = [(ec, b) for ec in ("primal", "dual") for b in ("open", "toric", "periodic")]


def ck(cond, msg):
    if not cond:
        raise AssertionError(msg() if callable(msg) else msg)


def expect_raises(exc, f, what):
    try:
        r = f()
    except exc:
        return
    except Exception as e:  # wrong kind
        raise AssertionError(f"{what}: raised {type(e).__name__}({e}) instead of {exc}")
    raise AssertionError(f"{what}: accepted (returned {r!r})")


def mkcode(case):
    from flamingpy.codes import SurfaceCode, alternating_polarity

    d = case["d"]
    d = tuple(d) if isinstance(d, list) else d
    return SurfaceCode(
        d,
        case["ec"],
        case["b"],
        alternating_polarity if case.get("pol") else None,
        backend=case.get("sb", "rustworkx"),
    )


_cache = {}


def cached_code(case):
    k = (str(case["d"]), case["ec"], case["b"], case.get("pol"), case.get("sb", "rustworkx"))
    if k not in _cache:
        if len(_cache) > 40:
            _cache.clear()
        _cache[k] = mkcode(case)
    c = _cache[k]
    for n in c.graph.nodes:
        for a in [a for a in c.graph.nodes[n] if a != "type"]:
            del c.graph.nodes[n][a]
    return c


def rand_dims(rng, lo=2, hi=4, vol=64):
    while True:
        d = [rng.randint(lo, hi) for _ in range(3)]
        if d[0] * d[1] * d[2] <= vol:
            return d


def stab_masks(code, ec):
    """syndrome qubit list, list of stabs as sets"""
    stabs = [frozenset(s.coords()) for s in getattr(code, ec + "_stabilizers")]
    return stabs


def syndrome(stabs, err):
    return frozenset(i for i, s in enumerate(stabs) if len(s & err) % 2)


def lexmin(f):
    return f


def periodic_axes(c):
    return {"open": (), "toric": (0, 1), "periodic": (0, 1, 2)}[c["b"]]


def simple(c):
    """no two stabilizers share more than one qubit"""
    d = (c["d"],) * 3 if isinstance(c["d"], int) else c["d"]
    return all(d[a] > 2 for a in periodic_axes(c))


def simplify(c):
    c = dict(c)
    d = [c["d"]] * 3 if isinstance(c["d"], int) else list(c["d"])
    for a in periodic_axes(c):
        d[a] = max(3, d[a])
    c["d"] = d
    return c
