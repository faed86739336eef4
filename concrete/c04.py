from base import *
import scipy.sparse as sp

RULE = "one graph and random edit history per case, checked after every step against a plain model; non-trivial: at least one edit"


def core(tier):
    for kind in ("tiny", "rhg", "empty", "macro", "macropad", "custom"):
        for s in range(12):
            yield dict(kind=kind, steps=8, seed=s)


def count(tier):
    return dict(quick=700, thorough=10000, search=10000)[tier]


def rand(rng, tier):
    return dict(kind=rng.choice(["rhg", "empty", "macro", "macropad", "custom", "custom", "tiny", "tiny"]), steps=rng.randint(1, 14), seed=rng.randrange(10**6))


def nontrivial(c):
    return c["steps"] > 0


def start(c, rng):
    from flamingpy.codes import RHG_graph, alternating_polarity
    from flamingpy.codes.graphs import EGraph

    k = c["kind"]
    if k in ("rhg", "macro", "macropad"):
        g = RHG_graph(2, rng.choice(["primal", "open_dual", "dual"]), polarity=rng.choice([None, alternating_polarity]))
        if k != "rhg":
            g = g.macronize(pad_boundary=k == "macropad", disp=rng.choice([0.1, 0.3, 0.49]))
        return g
    g = EGraph()
    if k == "tiny":
        # macronodes of one to three micronodes
        for e in rng.choice([[((0, 0, 0), (1, 0, 0))], [((0, 0, 0), (0, 1, 0)), ((0, 1, 0), (0, 1, 1))], [((0, 0, 0), (1, 0, 0)), ((0, 0, 0), (0, 1, 0)), ((0, 0, 0), (0, 0, 1))]]):
            g.add_edge(*e)
        return g.macronize(disp=rng.choice([0.1, 0.3]))
    if k == "custom":
        n = rng.randint(1, 6)
        for _ in range(n):
            g.add_node((rng.randint(-2, 3), rng.randint(-2, 3), rng.randint(0, 2)))
        pts = list(g.nodes)
        for _ in range(n):
            a, b = rng.choice(pts), rng.choice(pts)
            if a != b:
                if rng.random() < 0.5:
                    g.add_edge(a, b, weight=rng.choice([1, -1, 3]))
                else:
                    g.add_edge(a, b)
    return g


def check(c):
    rng = random.Random(c["seed"])
    g = start(c, rng)
    macro = g.macro_to_micro is not None
    nodes = {p: None for p in g.nodes}
    edges = {frozenset(e[:2]): e[2].get("weight", 1) for e in g.edges(data=True)}
    index = {}  # indices promised so far
    mac = {}  # qubit -> its macronode
    if macro:
        for m, l in g.macro_to_micro.items():
            for q in l:
                mac[q] = m

    def audit(step):
        ck(set(g.nodes) == set(nodes) and len(g) == len(nodes), f"{step}: node set")
        ck({frozenset(e) for e in g.edges} == set(edges), f"{step}: edge set")
        if g.to_indices is not None:
            ti, tp = g.to_indices, g.to_points
            ck(set(ti) == set(nodes), lambda: f"{step}: point-to-index table covers {len(ti)} points of {len(nodes)}")
            ck(len(set(ti.values())) == len(ti) and {i: p for p, i in ti.items()} == tp, lambda: f"{step}: tables are not inverse: {ti} {tp}")
            for p, i in index.items():
                ck(ti[p] == i, lambda: f"{step}: index of {p} changed from {i} to {ti[p]}")
            index.update(ti)
        else:
            ck(not index, "tables vanished")
        if macro:
            t = g.macro_to_micro
            ck(t is not None, "macronode table vanished")
            listed = [q for l in t.values() for q in l]
            ck(all(len(l) > 0 for l in t.values()), lambda: f"{step}: empty macronode")
            ck(len(listed) == len(set(listed)), lambda: f"{step}: qubit listed twice")
            ck({q: m for m, l in t.items() for q in l} == mac, lambda: f"{step}: macronode table {t}")
        else:
            ck(g.macro_to_micro is None, "macronode table appeared")

    def new_point(integral):
        while True:
            p = tuple(rng.randint(-1, 2) if c["kind"] == "tiny" else rng.randint(-3, 6) for _ in range(3))
            if not integral:
                p = tuple(x + rng.choice([0, 0, 0.07, -0.2, 0.33, 0.4999]) for x in p)
            if p not in nodes:
                return p

    audit("start")
    first = True
    for step in range(c["steps"]):
        op = rng.choice(["index", "adj", "adj", "add", "add", "add", "remove", "remove", "touch"])
        if op == "index":
            r = g.index_generator()
            ck(r == g.to_indices, "index_generator returns something else")
            if not index:
                if not macro:
                    ck([g.to_points[i] for i in range(len(nodes))] == sorted(nodes), "initial indices are not those of the sorted nodes")
                else:
                    ck(sorted(g.to_points) == list(range(len(nodes))), "initial indices")
                    seq = [mac.get(g.to_points[i]) for i in range(len(nodes))]
                    ms = [m for m in seq if m is not None]
                    ck(ms == sorted(ms) and (not mac or None not in seq[: len(ms)]), "micronodes are not grouped by sorted macronode")
        elif op == "adj" or op == "touch" and nodes:
            sparse = rng.random() < 0.5
            if not nodes:
                continue
            fresh = g.adj_mat is None
            M = g.adj_generator(sparse=sparse)
            ck(M is g.adj_mat, "adj_mat attribute")
            if fresh:
                ck(sp.issparse(M) == sparse, "sparse/dense form")
            D = M.toarray() if sp.issparse(M) else np.array(M)
            ck(D.shape == (len(nodes),) * 2, lambda: f"adjacency matrix of shape {D.shape} for {len(nodes)} nodes")
            order = [g.to_points[i] for i in sorted(g.to_points)]
            for a, p in enumerate(order):
                for b, q in enumerate(order):
                    ck(D[a, b] == edges.get(frozenset((p, q)), 0), lambda: f"entry of {p},{q} is {D[a, b]}, the edge weighs {edges.get(frozenset((p, q)), 0)}")
        elif op == "add":
            m = macro and rng.random() < 0.6
            q = None if rng.random() < 0.25 and not m else new_point(not m and rng.random() < 0.7)
            kw = {}
            k = rng.randint(0, min(4, len(nodes)))
            nb = rng.sample(sorted(nodes), k)
            form = rng.choice(["none", "points", "indices"])
            if form == "none":
                nb = []
                if rng.random() < 0.5:
                    kw["neighbors"] = rng.choice([None, []])
            elif form == "points":
                kw["neighbors"] = list(nb)
            else:
                if not index:
                    # indices requested before they were generated: they are generated on the fly, on the graph
                    # that already has the new qubit; ask for them first to know what they mean
                    g.index_generator()
                    audit("index")
                kw["neighbors"] = [index[p] for p in nb]
            if m:
                kw["add_to_macronode"] = True
            elif macro and rng.random() < 0.5:
                kw["add_to_macronode"] = rng.choice([False, None])
            args = [] if q is None and rng.random() < 0.5 else [q]
            want = q if q is not None else (max((p[0] for p in nodes), default=-1) + 1, 0, 0)
            if rng.random() < 0.1 and nodes:
                expect_raises(ValueError, lambda: g.add_qubit(rng.choice(sorted(nodes))), "adding an existing qubit")
            if not macro and rng.random() < 0.1:
                expect_raises(ValueError, lambda: g.add_qubit(new_point(True), add_to_macronode=True), "macronode without macronization")
            g.add_qubit(*args, **kw)
            nodes[want] = None
            for p in nb:
                edges[frozenset((p, want))] = 1
            if m:
                mac[want] = tuple(round(x) for x in want)
            had = g.to_indices
        else:
            if not nodes:
                continue
            p = rng.choice(sorted(nodes))
            if index and rng.random() < 0.5:
                g.remove_qubit(index[p])
            else:
                g.remove_qubit(p)
            del nodes[p]
            index.pop(p, None)
            mac.pop(p, None)
            for e in [e for e in edges if p in e]:
                del edges[e]
        audit(f"step {step} ({op})")
