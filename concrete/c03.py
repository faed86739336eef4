from base import *

RULE = "one code, backend and bit/weight assignment per case; stabilizer graph compared edge by edge; non-trivial: every case"


def core(tier):
    hi = 3 if tier == "quick" else 4
    for ec, b in CODES:
        for sb in ("rustworkx", "networkx"):
            for d in it.product(range(2, hi + 1), repeat=3):
                yield dict(d=d, ec=ec, b=b, sb=sb, seed=sum(d))
            for d in ((2, 2, 6), (6, 2, 2), (2, 5, 3), (4, 4, 4)):
                yield dict(d=d, ec=ec, b=b, sb=sb, seed=5)


def count(tier):
    return dict(quick=100, thorough=1500, search=1500)[tier]


def rand(rng, tier):
    ec, b = rng.choice(CODES)
    return dict(d=rand_dims(rng, 2, 7, 60), ec=ec, b=b, sb=rng.choice(["rustworkx", "networkx"]), seed=rng.randrange(10**6), erased=rng.random() < 0.5)


def nontrivial(c):
    return True


def check(c):
    code = mkcode(c)
    ec = c["ec"]
    rng = random.Random(c["seed"])
    sg = getattr(code, ec + "_stab_graph")
    stabs = getattr(code, ec + "_stabilizers")
    coords = {s: frozenset(s.coords()) for s in stabs}
    bp = list(getattr(code, ec + "_bound_points"))
    low, high = bp[: len(bp) // 2], bp[len(bp) // 2:]
    nodes = list(sg.nodes())
    want = ["low", "high"] + list(stabs) + bp
    ck(len(nodes) == len(want) and set(nodes) == set(want), "nodes of the stabilizer graph")
    ck(list(sg.low_bound_points) == low and list(sg.high_bound_points) == high, "low/high points")
    ck(set(sg.bound_points()) == set(bp) and bool(sg.has_bound_points()) == bool(bp), "bound_points")
    ck(set(sg.real_nodes()) == set(stabs) | set(bp), "real nodes")
    edges = {}
    for i, s in enumerate(stabs):
        for t in stabs[i + 1:]:
            if coords[s] & coords[t]:
                edges[frozenset((s, t))] = coords[s] & coords[t]
        for p in bp:
            if p in coords[s]:
                edges[frozenset((s, p))] = frozenset([p])
    for p in low:
        edges[frozenset(("low", p))] = None
    for p in high:
        edges[frozenset(("high", p))] = None
    got = [frozenset(e) for e in sg.edges()]
    ck(len(got) == len(set(got)) and set(got) == set(edges), lambda: f"edges: extra {[tuple(e) for e in set(got) - set(edges)][:3]} missing {[tuple(e) for e in set(edges) - set(got)][:3]} count {len(got)}/{len(edges)}")
    real = {frozenset(e) for e in sg.real_edges()}
    ck(real == {e for e, q in edges.items() if q is not None}, "real_edges")
    for n in want:
        ck(set(sg.neighbors(n)) == {m for e in edges if n in e for m in e if m != n}, "neighbors")
        ck({frozenset(e) for e in sg.out_edges(n)} == {e for e in edges if n in e}, "out_edges")
    bits = {}
    wts = {}
    for p in code.graph.nodes:
        bits[p] = rng.randint(0, 1)
        wts[p] = rng.choice([-1, 2]) if c.get("erased") else rng.choice([0, 1, 7, 0.25, 3.75, rng.random() * 10])
        code.graph.nodes[p]["bit_val"] = bits[p]
        code.graph.nodes[p]["weight"] = wts[p]
    for turn in range(4):
        sg.assign_weights(code)
        for e in sg.edges():
            q = edges[frozenset(e)]
            data = sg.edge_data(*e)
            ck(sg.edge_data(e[1], e[0]) == data, "edge data depends on the direction")
            if q is None:
                ck(data["weight"] == 0, lambda: f"connector edge weighs {data['weight']}")
            else:
                ck(data["common_vertex"] in q, lambda: f"edge carries {data['common_vertex']}, shared {set(q)}")
                ck(data["weight"] == wts[data["common_vertex"]], lambda: f"edge at {data['common_vertex']} weighs {data['weight']}")
        odd = list(sg.odd_parity_stabilizers())
        wo = [s for s in stabs if sum(bits[p] for p in coords[s]) % 2]
        ck(len(odd) == len(set(odd)) and set(odd) == set(wo), "odd-parity stabilizers")
        for s in stabs:
            ck(s.parity == sum(bits[p] for p in coords[s]) % 2, "parity")
        # change everything and look again
        for p in code.graph.nodes:
            if rng.random() < 0.3:
                bits[p] ^= 1
                wts[p] = rng.choice([-1, 2]) if c.get("erased") else rng.choice([0, 0.0, 1, rng.random() * 5])
                code.graph.nodes[p]["bit_val"] = bits[p]
                code.graph.nodes[p]["weight"] = wts[p]
    nxg = sg.to_nx()
    ck({frozenset(e) for e in nxg.edges()} == set(edges), "to_nx edges")
