"""Reference definitions written from the property statements only (no flamingpy import)."""
import itertools as it

BOUNDS = ("primal", "dual", "periodic")
NAMED = {
    "open_primal": ("primal", "dual", "primal"),
    "open_dual": ("primal", "dual", "dual"),
    "primal": ("primal",) * 3,
    "dual": ("dual",) * 3,
    "periodic": ("periodic",) * 3,
    "periodic_primal": ("periodic", "periodic", "primal"),
    "periodic_dual": ("periodic", "periodic", "dual"),
}


def axis(d, b):
    return {"primal": range(0, 2 * d - 1), "dual": range(1, 2 * d), "periodic": range(0, 2 * d)}[b]


def kind(p):
    odd = sum(c % 2 for c in p)
    return {2: "primal", 1: "dual"}.get(odd)


def lattice(dims, bounds):
    """{node: type}, {frozenset(edge): periodic?}"""
    axes = [axis(d, b) for d, b in zip(dims, bounds)]
    nodes = {p: kind(p) for p in it.product(*axes) if kind(p)}
    edges = {}
    for p in nodes:
        for a in range(3):
            q = list(p)
            q[a] += 1
            wrap = False
            if bounds[a] == "periodic" and q[a] == 2 * dims[a]:
                q[a] = 0
                wrap = True
            q = tuple(q)
            if q in nodes and nodes[q] != nodes[p]:
                edges[frozenset((p, q))] = wrap
    return nodes, edges


def code_bounds(ec, boundaries):
    if boundaries == "open":
        return ("primal", "dual", "dual") if ec == "primal" else ("primal", "dual", "primal")
    if boundaries == "toric":
        return ("periodic", "periodic", "dual" if ec == "primal" else "primal")
    return ("periodic",) * 3


def centres(dims, bounds, ec):
    """Cell centres: a cell is a unit cell if its centre is in the lattice's extent."""
    par = 1 if ec == "primal" else 0
    return [
        c
        for c in it.product(*[axis(d, b) for d, b in zip(dims, bounds)])
        if all(x % 2 == par for x in c)
    ]


def cell(c, dims, bounds, nodes):
    out = set()
    for a in range(3):
        for s in (1, -1):
            q = list(c)
            q[a] += s
            if bounds[a] == "periodic":
                q[a] %= 2 * dims[a]
            if tuple(q) in nodes:
                out.add(tuple(q))
    return frozenset(out)


def boundary(dims, bounds, ec, syn):
    if "periodic" in bounds:
        return [], []
    a = bounds.index(ec)
    lo, hi = (0, 2 * dims[a] - 2) if ec == "primal" else (1, 2 * dims[a] - 1)
    return sorted(p for p in syn if p[a] == lo), sorted(p for p in syn if p[a] == hi)
