from base import *

RULE = "one lattice graph, displacement, padding and set of perfect points per case; non-trivial: the graph has an edge"


def core(tier):
    for b in ("primal", "dual", "periodic", "open_primal", "periodic_dual"):
        for pad in (False, True):
            for disp in (0.1, 0.01, 0.3, 0.489, 1e-6, 0.25, 1e-3, 0.05, 0.5 ** 7):
                yield dict(b=b, d=[2, 2, 3], pad=pad, disp=disp, seed=1)
    for disp in (0, 0.0, 0.5, 0.50001, -0.1, 1, -1e-9, 2.5):
        yield dict(b="primal", d=[2, 2, 2], pad=False, disp=disp, bad=True, seed=1)


def count(tier):
    return dict(quick=250, thorough=4000, search=4000)[tier]


def rand(rng, tier):
    return dict(b=rng.choice(list(ref.NAMED) + ["custom"] * 6), d=rand_dims(rng, 2, 5, 40), pad=rng.random() < 0.5,
                disp=rng.choice([0.1, rng.uniform(1e-4, 0.489), 10 ** rng.uniform(-8, -0.4)]), seed=rng.randrange(10**6))


def nontrivial(c):
    return not c.get("bad")


def check(c):
    from flamingpy.codes import RHG_graph, alternating_polarity
    from flamingpy.codes.graphs import EGraph

    rng = random.Random(c["seed"])
    if c["b"] != "custom":
        g = RHG_graph(tuple(c["d"]), c["b"], polarity=rng.choice([None, alternating_polarity]))
    else:
        g = EGraph()
        base = RHG_graph(tuple(c["d"]), [rng.choice(ref.BOUNDS) for _ in range(3)])
        off = [rng.randint(-9, 9) for _ in range(3)]
        sh = lambda p: tuple(int(x + o) for x, o in zip(p, off))
        for u, v, d in base.edges(data=True):
            if rng.random() < 0.7:
                a, b = (u, v) if rng.random() < 0.5 else (v, u)
                g.add_edge(sh(a), sh(b), **{k: x for k, x in d.items() if k != "weight" or rng.random() < 0.5})
        if not g.edges:
            return
    for p in g.nodes:
        if rng.random() < 0.5:
            g.nodes[p]["tag"] = rng.random()
    for e in g.edges:
        if rng.random() < 0.3:
            g.edges[e]["tag"] = rng.random()
    pp = None
    if rng.random() < 0.5:
        pp = rng.sample(sorted(g.nodes), rng.randint(1, len(g) // 3 + 1))
        g.graph["perfect_points"] = list(pp)
    g.graph["extra"] = 5
    kw = {"disp": c["disp"]}
    if c["pad"]:
        kw["pad_boundary"] = True
    if c["disp"] == 0.1:
        kw.pop("disp")
    if c.get("bad"):
        return expect_raises(ValueError, lambda: g.macronize(**kw), f"displacement {c['disp']}")
    import copy

    before = (copy.deepcopy(dict(g.nodes(data=True))), {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)})
    M = g.macronize(**kw)
    ck(before == (dict(g.nodes(data=True)), {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)}), "the original graph changed")
    ck(isinstance(M, EGraph), "type")
    rd = lambda q: tuple(round(x) for x in q)
    T = M.macro_to_micro
    ck(set(T) == set(g.nodes), lambda: f"macronode table lists {len(T)} nodes of {len(g)}")
    allm = [q for l in T.values() for q in l]
    ck(len(allm) == len(set(allm)) and set(allm) == set(M.nodes), lambda: f"{len(allm)} listed, {len(set(allm))} different, {len(M)} in the graph")
    for p in g.nodes:
        want = max(4, g.degree(p)) if c["pad"] else g.degree(p)
        ck(len(T[p]) == want, lambda: f"{p} has {len(T[p])} micronodes instead of {want}")
        for q in T[p]:
            ck(rd(q) == p, lambda: f"micronode {q} of {p} rounds to {rd(q)}")
            ck(dict(M.nodes[q]) == dict(g.nodes[p]), lambda: f"micronode {q} has attributes {dict(M.nodes[q])}")
            ck(M.degree(q) <= 1, "micronode with several edges")
        nbs = sorted(rd(r) for q in T[p] for r in M[q])
        ck(nbs == sorted(g[p]), lambda: f"micronodes of {p} reach {nbs}, its neighbours are {sorted(g[p])}")
    ck(M.number_of_edges() == g.number_of_edges(), "number of edges")
    for u, v, d in M.edges(data=True):
        ck(dict(d) == dict(g.edges[rd(u), rd(v)]), lambda: f"edge {u}-{v} has attributes {d}, the original {g.edges[rd(u), rd(v)]}")
    if pp is not None:
        got = M.graph["perfect_points"]
        ck(len(got) == len(set(got)) and set(got) == {q for p in pp for q in T[p]}, "perfect points")
        ck(g.graph["perfect_points"] == pp, "perfect points of the original changed")
    else:
        ck(not M.graph.get("perfect_points"), "perfect points appeared")
    ck(M.graph.get("extra") == 5, "graph attributes lost")
