from base import *
import networkx as nx

RULE = "one constructor and size per case; compared with the named graph; non-trivial: n > 1"


def core(tier):
    hi = 80 if tier == "quick" else 300
    for f in ("star_graph", "complete_graph", "linear_cluster", "ring_graph"):
        for n in range(1, hi):
            yield dict(f=f, n=n)
        for n in (0, -1, -7, 1.0, 2.5, "3", None, [4]):
            yield dict(f=f, bad=n)
    for f in ("star_graph", "linear_cluster", "ring_graph"):
        for n in (128, 255, 256, 500, 1000, 3000):
            yield dict(f=f, n=n)
    yield dict(f="star_graph", n=12000)
    yield dict(f="linear_cluster", n=12000)
    yield dict(f="complete_graph", n=150)
    yield dict(f="complete_graph", n=256)
    yield dict(f="bell", n=2)


def count(tier):
    return dict(quick=40, thorough=400, search=400)[tier]


def rand(rng, tier):
    f = rng.choice(["star_graph", "complete_graph", "linear_cluster", "ring_graph"])
    return dict(f=f, n=rng.randint(80, 400 if f == "complete_graph" else 4000))


def nontrivial(c):
    return c.get("n", 1) > 1


def check(c):
    from flamingpy.utils import graph_states as gs
    from flamingpy.codes.graphs import EGraph

    f = getattr(gs, c["f"])
    if "bad" in c:
        return expect_raises(ValueError, lambda: f(c["bad"]), f"{c['f']}({c['bad']!r})")
    n = c["n"]
    g = f() if c["f"] == "bell" else f(n)
    ck(isinstance(g, EGraph), "type")
    ck(g.number_of_nodes() == n, lambda: f"{g.number_of_nodes()} nodes instead of {n}")
    ck(all(isinstance(p, tuple) and len(p) == 3 for p in g.nodes), "nodes are not points")
    ck(not list(nx.selfloop_edges(g)), "self-loop")
    deg = sorted(d for _, d in g.degree)
    e = g.number_of_edges()
    conn = nx.is_connected(g)
    k = c["f"]
    if k == "star_graph":
        ok = conn and e == n - 1 and (n < 3 or deg == [1] * (n - 1) + [n - 1])
    elif k == "complete_graph":
        ok = e == n * (n - 1) // 2
    elif k in ("linear_cluster", "bell"):
        ok = conn and e == n - 1 and (n == 1 or deg == [1, 1] + [2] * (n - 2))
    else:
        ok = conn and (e == n and set(deg) == {2} if n > 2 else e == n - 1)
    ck(ok, lambda: f"{k}({n}) has {e} edges, degrees {deg[:3]}..{deg[-3:]}, connected {conn}")
