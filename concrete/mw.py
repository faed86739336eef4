from base import *
import heapq
import networkx as nx

BACK = ("networkx", "rustworkx", "lemon")


def setup(c):
    """code with bits and weights as described by the case"""
    code = cached_code(c)
    ec = c["ec"]
    rng = random.Random(c["seed"])
    syn = sorted(getattr(code, ec + "_syndrome_coords"))
    bits = {p: 0 for p in code.graph.nodes}
    if c["err"] == "rate":
        bits = {p: int(rng.random() < c["p"]) for p in bits}
    elif c["err"] == "few":
        for p in rng.sample(syn, min(len(syn), c["k"])):
            bits[p] = 1
    elif c["err"] == "all":
        bits = {p: 1 for p in bits}
    W = c["w"]
    for p in code.graph.nodes:
        code.graph.nodes[p]["bit_val"] = bits[p]
        w = {
            "one": lambda: 1,
            "int": lambda: rng.randint(1, 9),
            "half": lambda: rng.choice([0.5, 1.0, 1.5, 2.25]),
            "small": lambda: 0.001 + 0.01 * rng.random(),
            "huge": lambda: rng.choice([10**5, 2 * 10**6, 123456.5 + rng.random()]),
            "real": lambda: 0.69 + 5 * rng.random(),
            "wild": lambda: rng.choice([0.69, 708.4, 1e-3, 30 * rng.random() + 0.1]),
        }[W]()
        code.graph.nodes[p]["weight"] = w
    sg = getattr(code, ec + "_stab_graph")
    sg.assign_weights(code)
    return code, ec, sg, syn, bits


class Ref:
    """chains between cells, computed from the stabilizers alone"""

    def __init__(self, code, ec):
        self.stabs = getattr(code, ec + "_stabilizers")
        self.cs = [frozenset(s.coords()) for s in self.stabs]
        self.w = {p: code.graph.nodes[p]["weight"] for p in getattr(code, ec + "_syndrome_coords")}
        owner = {}
        for i, s in enumerate(self.cs):
            for p in s:
                owner.setdefault(p, []).append(i)
        self.adj = {i: [] for i in range(len(self.cs))}
        self.exits = {i: [] for i in range(len(self.cs))}
        for p, o in owner.items():
            if len(o) == 2:
                self.adj[o[0]].append((o[1], p))
                self.adj[o[1]].append((o[0], p))
            else:
                self.exits[o[0]].append(p)

    def dist(self, i):
        d = {i: 0}
        q = [(0, i)]
        done = set()
        while q:
            x, u = heapq.heappop(q)
            if u in done:
                continue
            done.add(u)
            for v, p in self.adj[u]:
                y = x + self.w[p]
                if y < d.get(v, float("inf")):
                    d[v] = y
                    heapq.heappush(q, (y, v))
        out = min((d[u] + self.w[p] for u in d for p in self.exits[u]), default=float("inf"))
        return d, out


def common(tier, few):
    for ec, b in CODES:
        for mb in BACK:
            for sb in ("rustworkx", "networkx"):
                for w in ("one", "half", "real"):
                    yield dict(d=[3, 3, 3] if b != "open" else [2, 3, 3], ec=ec, b=b, mb=mb, sb=sb, err="few", k=3, w=w, seed=7)
            yield dict(d=[2, 2, 2], ec=ec, b=b, mb=mb, err="few", k=0, w="one", seed=1)
            yield dict(d=[2, 2, 2], ec=ec, b=b, mb=mb, err="few", k=1, w="one", seed=1)
            yield dict(d=[2, 2, 2], ec=ec, b=b, mb=mb, err="few", k=2, w="int", seed=1)


def case(rng, few):
    ec, b = rng.choice(CODES)
    c = dict(d=rand_dims(rng, 2, 5, 50), ec=ec, b=b, mb=rng.choice(BACK), sb=rng.choice(["rustworkx", "networkx"]),
             w=rng.choice(["one", "int", "half", "small", "huge", "real", "real", "wild"]), seed=rng.randrange(10**6), pol=False)
    if few or rng.random() < 0.5:
        c.update(err="few", k=rng.randint(0, 6))
    else:
        c.update(err="rate", p=rng.choice([0.02, 0.1, 0.3, 0.5]))
    return c
