"""C07 and C08: matching graphs and the MWPM decoder.

The units take the property they are for: C07 needs that paths lead from end to end along links, C08 also that they and
their weights are the least."""
from pv.prove import Unit
from contracts.mwpm import *
from contracts.geometry import BOUNDS, COMBOS, extent, is_cell, in_cell, is_syndrome, point, eq3, step
from contracts import c03

BACKENDS = {"networkx": "NxMatchingGraph", "rustworkx": "RxMatchingGraph", "lemon": "LemonMatchingGraph"}


LIBRARY = [
    "Dijkstra's algorithm (networkx single_source_dijkstra, rustworkx graph_dijkstra_shortest_paths): simple paths of least weight to exactly the nodes that are connected with the source",
    "max_weight_matching of networkx and rustworkx with maximum cardinality: a matching of greatest weight among those of greatest cardinality, each edge once",
    "lemonpy.mwpm (C++): a perfect matching of greatest weight of the matrix it is given (weights in single precision)",
    "networkx.to_numpy_array: rows in the order of the nodes, the weight attribute of each edge, nonedge elsewhere",
    "rustworkx: add_node returns an unused index, the first ones are 0 and 1; get_edge_data and payloads",
    "postconditions of C02 and C03: qubits in at most two stabilizers (two without a boundary), links carry a qubit of both ends and its weight, links of the connectors weigh 0",
    "sums of weights are exact; the order of stabilizers is the same at each call of odd_parity_stabilizers (bit values do not change meanwhile)",
]
ASSUMPTIONS = LIBRARY + ["draw=True is not covered"]


def real(x):
    t = lift_num(x)
    return z3.ToReal(t) if t.sort() == I else t


def indexed(e, mg, x):
    """(known, index) of a node of a rustworkx matching graph."""
    return e.dict_get(e.getattr(mg, "node_to_index"), x)


def has_node(e, mg, x):
    g = e.getattr(mg, "graph")
    if "rx" in g.store.meta:
        f, i = indexed(e, mg, x)
        if is_false(f):
            return z3.BoolVal(False)
        with e.guard(f):
            return zb(And(f, models.graph_read(e, g, "%nodes", i)[0]))
    return zb(models.graph_has_node(e, g, x))


def has_edge(e, mg, x, y):
    g = e.getattr(mg, "graph")
    if "rx" in g.store.meta:
        (f, i), (h, j) = indexed(e, mg, x), indexed(e, mg, y)
        if is_false(f) or is_false(h):
            return z3.BoolVal(False)
        with e.guard(And(f, h)):
            return zb(And(f, h, models.graph_has_edge(e, g, i, j)))
    return zb(models.graph_has_edge(e, g, x, y))


def node_index(e, a, k):
    """Contract of RxMatchingGraph.node_index: every node has its own index, the same at every call; the node is known
    afterwards.  Indices are only told apart, so the index of x is written as the pair ('index of', x)."""
    mg, x = a[0], a[1] if len(a) > 1 else k["node"]
    i = ("index of", x)
    models.graph_write(e, e.getattr(mg, "graph"), "%nodes", i, x, commut=True)
    e.dict_set(e.getattr(mg, "node_to_index"), x, i, commut=True)
    e.dict_set(e.getattr(mg, "index_to_node"), i, x, commut=True)
    return i


def interning(t):
    """RxMatchingGraph.node_index, in every state of its tables."""
    e = t.e
    K, IX = z3.Function("known", NODE, B), z3.Function("index", NODE, I)
    U, PT = z3.Function("used", I, B), z3.Function("node_at", I, NODE)
    logic.bijection(IX, PT, lambda x: K(x), lambda i: U(i))
    mg = e.new_obj(e.lookup(MG + "RxMatchingGraph"))
    v, V = node("v")
    i = z3.Int("i")
    e.obj_set(mg, "node_to_index", e.new_dict(entries=[Entry((v,), K(v), SNum(IX(v)), key=V)]))
    e.obj_set(mg, "index_to_node", e.new_dict(entries=[Entry((i,), U(i), SRef(PT(i)), key=SNum(i))]))
    new = z3.Int("new_index")
    e.assume(z3.Not(U(new)))
    added = []

    def add_node(e, a, k):
        added.append((e.path_formula(), a[0]))
        return SNum(new)
    e.obj_set(mg, "graph", simple_obj(e, "rustworkx.PyGraph", add_node=models.ModelFn("rustworkx.PyGraph.add_node", add_node)))
    x, X = node("x")
    r = lift_num(e.call(e.getattr(mg, "node_index"), [X]))
    t.no_raise()
    t.prove("an unknown node, and no other, is added", And(len(added) == 1, *[And(zb(f) == z3.Not(K(x)), e.eq(y, X)) for f, y in added]))
    t.prove("the index", r == z3.If(K(x), IX(x), new))
    y, Y = node("y")
    for n, key, old, has in (("node_to_index", Y, SNum(z3.If(y == x, r, IX(y))), z3.Or(K(y), y == x)),):
        f, val = e.dict_get(e.getattr(mg, n), key)
        t.prove(f"{n}: keys", zb(f) == has)
        with e.guard(zb(f)):
            t.prove(f"{n}: values", e.eq(val, old))
    j = z3.Int("j")
    f, val = e.dict_get(e.getattr(mg, "index_to_node"), SNum(j))
    t.prove("index_to_node: keys", zb(f) == z3.Or(U(j), j == r))
    with e.guard(zb(f)):
        t.prove("index_to_node: values", e.eq(val, SRef(z3.If(j == r, x, PT(j)))))
    t.reach("a new node", z3.Not(K(x)))
    t.reach("a known node", K(x))
    t.assume_text("rustworkx: PyGraph.add_node returns an index that is not in use")


def matching_graph(t, prop, backend, boundary, ec, by_class=False):
    e = t.e
    least_only = t.prove if prop == "C08" else lambda *a: None
    w = World(t, boundary)
    e.contracts[MG + "RxMatchingGraph.node_index"] = node_index
    mg = e.call(e.lookup(ALG + "build_match_graph"), [w.code, ec, e.lookup(MG + BACKENDS[backend]) if by_class else backend])
    t.no_raise("the matching graph can be built")
    get = lambda name, *a: e.call(e.getattr(mg, name), list(a))
    i, j = z3.Int("i"), z3.Int("j")
    at = lambda i: (w.item(i), SRef(w.item(i)))
    (s, S), (u, U) = at(i), at(j)
    inside = lambda k: z3.And(0 <= k, k < w.n)
    two = z3.And(inside(i), inside(j), i != j)
    for k in (i, j):  # instances of the enumeration
        e.assume(z3.Implies(inside(k), z3.And(w.place(w.item(k)) == k, w.ODD(w.item(k)))))
    # between odd stabilizers
    t.prove("odd stabilizers: linked", z3.Implies(two, has_edge(e, mg, S, U)))
    t.prove("odd stabilizers: no loops", z3.Not(has_edge(e, mg, S, S)))
    with e.guard(two):
        x = get("edge_weight", (S, U)) if prop == "C08" else 0
        least_only("odd stabilizers: weight", z3.Or(real(x) == w.D(s, u), real(x) == w.D(u, s)))
        p = get("edge_path", (S, U))
        n = lift_num(models.length(e, p))
        ends = e.getitem(p, 0), e.getitem(p, -1)
        t.prove("odd stabilizers: ends of the path", Or(And(e.eq(ends[0], S), e.eq(ends[1], U)), And(e.eq(ends[0], U), e.eq(ends[1], S))))
        t.prove("odd stabilizers: the path has edges", n >= 2)
        k = z3.Int("k")
        with e.guard(z3.And(0 <= k, k < n)):
            y = e.getitem(p, SNum(k))
            F = lambda a, b: And(n == w.DN(a, b), real(x) == w.D(a, b), Or(e.eq(y, SRef(w.DP(a, b, k))), e.eq(y, SRef(w.DP(a, b, n - 1 - k)))))
            least_only("odd stabilizers: the path is a shortest one, of that weight", Or(F(s, u), F(u, s)))
            with e.guard(k < n - 1):
                z = e.getitem(p, SNum(k + 1))
                t.prove("odd stabilizers: the path goes along edges, not to the connectors", linked(w, y, z))
    # other nodes
    v, V = node("other")
    t.prove("nodes that are not in pairs", z3.Implies(z3.Not(w.ODD(v)), z3.Not(has_node(e, mg, V))))
    t.prove("paired odd stabilizers are nodes", z3.Implies(two, z3.And(has_node(e, mg, S), has_node(e, mg, U))))
    vp = e.getattr(mg, "virtual_points")
    q, Q = node("point")
    m = z3.Int("m")
    Vm = (Q, SNum(m))
    if not boundary:
        t.prove("no virtual points", zb(Not(e.truth(vp))))
        t.prove("no virtual nodes", z3.Not(has_node(e, mg, Vm)))
        t.no_raise("queries succeed")
        return
    t.prove("number of virtual points", lift_num(models.length(e, vp)) == w.n)
    low, high = w.C["low"], w.C["high"]
    least = lambda a: z3.If(low[0](a) <= high[0](a), low[0](a), high[0](a))
    first = lambda a, c: w.C[c][2](a, z3.IntVal(1))
    # the boundary point of a stabilizer: of either connector's path that is shortest
    of = lambda a, x: z3.Or(x == first(a, "low"), x == first(a, "high")) if prop == "C07" else z3.Or(z3.And(low[0](a) <= high[0](a), x == first(a, "low")), z3.And(high[0](a) <= low[0](a), x == first(a, "high")))
    isv = zb(e.contains(vp, Vm))
    t.prove("virtual points: index and boundary point", z3.Implies(isv, z3.And(inside(m), of(w.item(m), q))))
    q2, Q2 = node("point")
    Vm2 = (Q2, SNum(m))
    t.prove("virtual points: one per odd stabilizer", z3.Implies(z3.And(isv, zb(e.contains(vp, Vm2))), q == q2))
    t.prove("virtual points: there is one", z3.Implies(inside(m), z3.Or(*[zb(e.contains(vp, (SRef(first(w.item(m), c)), SNum(m)))) for c in ("low", "high")])))
    t.prove("odd stabilizers are nodes", z3.Implies(inside(i), has_node(e, mg, S)))
    t.prove("virtual nodes are the virtual points", has_node(e, mg, Vm) == isv)
    t.prove("virtual points are linked to their stabilizers", z3.Implies(z3.And(inside(i), isv), has_edge(e, mg, S, Vm) == (i == m)))
    with e.guard(isv):
        a, A = at(m)
        x = real(get("edge_weight", (A, Vm)) if prop == "C08" else 0)
        least_only("virtual points: weight", x == least(a))
        p = get("edge_path", (A, Vm))
        n = lift_num(models.length(e, p))
        ends = e.getitem(p, 0), e.getitem(p, -1)
        t.prove("virtual points: ends of the path", Or(And(e.eq(ends[0], A), e.eq(ends[1], Q)), And(e.eq(ends[0], Q), e.eq(ends[1], A))))
        t.prove("virtual points: the path has edges", n >= 2)
        k = z3.Int("k")
        with e.guard(z3.And(0 <= k, k < n)):
            y = e.getitem(p, SNum(k))
            G = lambda c: And(x == c[0](a), n == c[1](a) - 1, Or(e.eq(y, SRef(c[2](a, k + 1))), e.eq(y, SRef(c[2](a, n - k)))))
            least_only("virtual points: the path is a shortest one from a connector, without it", Or(G(low), G(high)))
            with e.guard(k < n - 1):
                t.prove("virtual points: the path goes along edges, not to the connectors", linked(w, y, e.getitem(p, SNum(k + 1))))
    l = z3.Int("l")
    Vl = (Q2, SNum(l))
    with e.guard(z3.And(isv, zb(e.contains(vp, Vl)))):
        t.prove("virtual points are linked with each other", has_edge(e, mg, Vm, Vl) == (l != m))
        if prop == "C08":
            with e.guard(l != m):
                t.prove("with weight 0", real(get("edge_weight", (Vm, Vl))) == 0)
    t.no_raise("queries succeed")


class AnyMatchingGraph:
    """What add_edge makes of an arbitrary family of edges, each added once in either orientation."""

    def __init__(self, t, backend):
        e = self.e = t.e
        fn = z3.Function
        self.E, self.W, self.P = fn("edge", NODE, NODE, B), fn("weight", NODE, NODE, R), fn("path", NODE, NODE, NODE)
        u, v = z3.Const("u!", NODE), z3.Const("v!", NODE)
        law("edge", [u, v], z3.Implies(self.E(u, v), z3.And(u != v, z3.Not(self.E(v, u)))))
        e.contracts[MG + "RxMatchingGraph.node_index"] = node_index
        self.mg = e.call(e.lookup(MG + BACKENDS[backend]), ["primal"])
        (u, U), (v, V) = node("u"), node("v")
        add = e.getattr(self.mg, "add_edge")
        e.push_binder([u, v])
        e.push_guard(self.E(u, v))
        e.call(add, [(U, V), SNum(self.W(u, v)), SRef(self.P(u, v))])
        e.pop()
        e.pop()
        # the nodes in the order of the graph
        self.n = z3.Int("n_nodes")
        e.assume(self.n >= 0)
        self.at, self.pos = fn("node_at", I, NODE), fn("position", NODE, I)
        touched = fn("touched", NODE, B)
        logic.bijection(self.at, self.pos, lambda i: z3.And(0 <= i, i < self.n), lambda x: touched(x))
        law("edge", [u, v], z3.Implies(self.E(u, v), z3.And(u != v, z3.Not(self.E(v, u)), touched(u), touched(v))))
        self.touched = touched

    def linked(self, u, v):
        return z3.Or(self.E(u, v), self.E(v, u))

    def weight(self, u, v):
        return z3.If(self.E(u, v), self.W(u, v), self.W(v, u))


def stored(t, prop, backend):
    """Edges give back the weight and the path they were added with, in both orientations."""
    e = t.e
    a = AnyMatchingGraph(t, backend)
    (u, U), (v, V) = node("u"), node("v")
    t.prove("edges", has_edge(e, a.mg, U, V) == a.linked(u, v))
    with e.guard(a.linked(u, v)):
        for name, want in ((("edge_weight", SNum(a.weight(u, v))),) if prop == "C08" else ()) + (("edge_path", SRef(z3.If(a.E(u, v), a.P(u, v), a.P(v, u)))),):
            t.prove(name, e.eq(e.call(e.getattr(a.mg, name), [(U, V)]), want))
    t.no_raise("edges exist")


def adapter(t, prop, backend):
    """min_weight_perfect_matching hands the graph to the library so that its optimum has the least weight."""
    e = t.e
    least_only = t.prove if prop == "C08" else lambda *a: None
    a = AnyMatchingGraph(t, backend)
    (u, U), (v, V) = node("u"), node("v")
    M = z3.Function("matched", NODE, NODE, B)
    x, y = z3.Const("x!", NODE), z3.Const("y!", NODE)
    law("matched", [x, y], z3.Implies(M(x, y), z3.And(a.linked(x, y), z3.Not(M(y, x)))))
    calls = []

    def args(k, ar, names, defaults):
        d = dict(defaults, **k)
        d.update(zip(names, ar))
        if set(d) - set(names):
            raise Unsupported(f"arguments {sorted(d)}")
        return d

    def pairs(f):
        (p, P), (q, Q) = node("p"), node("q")
        return [((p, q), M(p, q), (f(P), f(Q)))]

    def networkx(e, ar, k):
        d = args(k, ar, ("G", "maxcardinality", "weight"), dict(maxcardinality=False, weight="weight"))
        calls.append("networkx")
        t.prove("the library gets this graph", e.eq(d["G"], e.getattr(a.mg, "graph")))
        t.prove("a perfect matching, if there is one", d["maxcardinality"] is True)
        with e.guard(a.linked(u, v)):
            f, val = models.graph_read(e, e.force(d["G"]), "%eattr:" + d["weight"], models.EdgeKey(U, V))
            least_only("maximised quantity: minus the weight", And(f, real(val) == -a.weight(u, v)) if not is_false(f) else False)
        return e.new_set(entries=[Entry(*z) for z in pairs(lambda n: n)])

    def rustworkx(e, ar, k):
        d = args(k, ar, ("graph", "max_cardinality", "weight_fn", "default_weight", "verify_optimum"), dict(max_cardinality=False, weight_fn=None))
        calls.append("rustworkx")
        t.prove("the library gets this graph", e.eq(d["graph"], e.getattr(a.mg, "graph")))
        t.prove("a perfect matching, if there is one", d["max_cardinality"] is True)
        least_only("the weights are used", d["weight_fn"] is not None)
        with e.guard(a.linked(u, v)):
            val = lift_num(1 if d["weight_fn"] is None else e.call(d["weight_fn"], [models.rx_get_edge_data(e, e.force(d["graph"]), ("index of", U), ("index of", V))]))
            t.prove("maximised quantity: whole numbers", val.sort() == I)
            w = a.weight(u, v)
            near = lambda K: z3.And(z3.ToReal(val) + K * w <= z3.RealVal("1/2"), z3.ToReal(val) + K * w >= -z3.RealVal("1/2"))
            path = [*e.assumptions, zb(e.path_formula())]
            Ks = [K for K in [2 ** n for n in range(20, 64)] + [10 ** n for n in range(6, 19)] if t.quick([*path, w == 1, z3.Not(near(K))]) == z3.unsat]
            least_only("maximised quantity: minus the weight times 2^20 or more, rounded", near(Ks[0] if Ks else 2 ** 32))
        return e.new_list(entries=[Entry(*z) for z in pairs(lambda n: ("index of", n))])

    def to_array(e, ar, k):
        d = args(k, ar, ("G", "nodelist", "dtype", "order", "multigraph_weight", "weight", "nonedge"), dict(weight="weight", nonedge=0.0, nodelist=None, dtype=None, order=None))
        if d["nodelist"] is not None or d["dtype"] is not None:
            raise Unsupported("to_numpy_array with nodelist or dtype")
        t.prove("the library gets this graph", e.eq(d["G"], e.getattr(a.mg, "graph")))
        return simple_obj(e, "adjacency matrix", weight=d["weight"], nonedge=d["nonedge"], G=d["G"])

    def lemon(e, ar, k):
        calls.append("lemon")
        m = ar[0]
        ne = lift_num(e.getattr(m, "nonedge"))
        t.prove("pairs that are not linked are hopeless", ne <= -(2 ** 62))
        with e.guard(a.linked(u, v)):
            f, val = models.graph_read(e, e.getattr(m, "G"), "%eattr:" + e.getattr(m, "weight"), models.EdgeKey(U, V))
            least_only("maximised quantity: minus the weight", And(f, real(val) == -a.weight(u, v)) if not is_false(f) else False)
        return e.new_list(entries=[Entry(vs, g, (SNum(a.pos(p.e)), SNum(a.pos(q.e)))) for vs, g, (p, q) in pairs(lambda n: n)])

    e.ext_contracts["networkx.max_weight_matching"] = models.ModelFn("networkx.max_weight_matching", networkx)
    e.ext_contracts["networkx.algorithms.matching.max_weight_matching"] = e.ext_contracts["networkx.max_weight_matching"]
    e.ext_contracts["rustworkx.max_weight_matching"] = models.ModelFn("rustworkx.max_weight_matching", rustworkx)
    e.ext_contracts["networkx.to_numpy_array"] = models.ModelFn("networkx.to_numpy_array", to_array)
    e.ext_contracts["flamingpy.cpp.lemonpy.mwpm"] = models.ModelFn("lemonpy.mwpm", lemon)
    if backend == "lemon":
        i = z3.Int(fresh_name("i"))
        e.getattr(a.mg, "graph").store.meta["node_chunks"] = lambda e, g: [Chunk([i], z3.And(0 <= i, i < a.n), SRef(a.at(i)), rng=(z3.IntVal(0), a.n, 1))]
    res = e.call(e.getattr(a.mg, "min_weight_perfect_matching"), [])
    t.no_raise("the matching can be found")
    t.prove("the library is asked once", len(calls) == 1)
    t.prove("the result is the library's matching", z3.Or(zb(e.contains(res, (U, V))), zb(e.contains(res, (V, U)))) == z3.Or(M(u, v), M(v, u)))


KINDS = ("SS", "SV", "VS", "VV")


class Matching:
    """What the decoder gets: a matching graph's virtual points, paths, and a set of its edges.

    The edges come in any orientation; M[kind](i, j) says that the edge of that kind between the i-th and the j-th odd
    stabilizer (or their boundary points) is in it."""

    def __init__(self, t, w):
        e = t.e
        self.w = w
        fn = z3.Function
        n = w.n
        self.M = {k: fn("matched_" + k, I, I, B) for k in KINDS}
        self.pt = fn("boundary_point", I, NODE)
        self.MN = {k: fn("length_" + k, I, I, I) for k in KINDS[:3]}
        self.MP = {k: fn("node_" + k, I, I, I, NODE) for k in KINDS[:3]}
        i, j, k = z3.Ints("i! j! k!")
        inside = z3.And(0 <= i, i < n, 0 <= j, j < n)
        for kind in KINDS:
            law("matched_" + kind, [i, j], z3.Implies(self.M[kind](i, j), z3.And(inside, i == j if kind in ("SV", "VS") else i != j)))
        for kind in KINDS[:3]:
            law("length_" + kind, [i, j], z3.Implies(self.M[kind](i, j), self.MN[kind](i, j) >= 2))
            law("node_" + kind, [i, j, k], z3.Implies(z3.And(self.M[kind](i, j), 0 <= k, k < self.MN[kind](i, j) - 1), w.LINK(self.MP[kind](i, j, k), self.MP[kind](i, j, k + 1))))
        self.end = {"S": lambda i: SRef(w.item(i)), "V": lambda i: (SRef(self.pt(i)), SNum(i))}

        def edges(e):
            out = []
            for kind in KINDS if w.boundary else KINDS[:1]:
                i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
                out.append(Chunk((i, j), self.M[kind](i, j), (self.end[kind[0]](i), self.end[kind[1]](j))))
            return out
        self.edges = Chunks(edges, what="matching")
        virtual = SymList(SNum(n), self.end["V"] if False else (lambda i: self.end["V"](lift_num(i)))) if w.boundary else e.new_list()
        self.obj = simple_obj(e, "matching graph", virtual_points=virtual,
                              min_weight_perfect_matching=models.ModelFn("min_weight_perfect_matching", lambda e, a, k: self.edges),
                              edge_path=models.ModelFn("edge_path", self.edge_path))

    def edge_path(self, e, a, k):
        x, y = e.unpack(a[0])
        kind = "".join("V" if isinstance(v, tuple) else "S" for v in (x, y))
        if kind == "VV":
            return e.new_list()
        i, j = [lift_num(v[1]) if isinstance(v, tuple) else self.w.place(v.e) for v in (x, y)]
        i, j = [z3.simplify(v) for v in (i, j)]
        for v, r in ((x, i), (y, j)):
            if isinstance(v, SRef) and v.e.decl().eq(self.w.item):
                r = v.e.arg(0)
                i, j = (r, j) if v is x else (i, r)
        self.w.t.prove("paths are asked for along edges of the matching", self.M[kind](i, j))
        return SymList(SNum(self.MN[kind](i, j)), lambda k: SRef(self.MP[kind](i, j, lift_num(k))))


def decoder(t, backend, boundary, ec):
    e = t.e
    w = World(t, boundary)
    law("shared_qubit", (s := z3.Const("s!", NODE), u := z3.Const("u!", NODE)), w.CV(s, u) == w.CV(u, s))
    m = Matching(t, w)

    def build(e, a, k):
        a = list(a)
        for n in ("code", "ec", "matching_backend")[len(a):]:
            if n in k:
                a.append(k[n])
        t.prove("the matching graph of the code, error complex and backend asked for", And(len(a) == 3, a[0] is w.code or e.eq(a[0], w.code) if a else False, a[1] == ec, a[2] == backend))
        return m.obj
    e.contracts[ALG + "build_match_graph"] = build
    res = e.call(e.lookup(ALG + "mwpm_decoder"), [w.code, ec], dict(backend=backend))
    t.no_raise("the decoder succeeds")
    if not isinstance(res, PSet) or res.store.data or res.map:
        raise Unsupported("how the decoder makes its result")
    got = [x for x in res.store.meta.get("toggles", []) if e.check(x.guard) != z3.unsat]
    want = {}
    for kind in KINDS[:3] if boundary else KINDS[:1]:
        i, j, k = z3.Ints("i j k")
        want[kind] = ((i, j, k), z3.And(m.M[kind](i, j), 0 <= k, k < m.MN[kind](i, j) - 1), w.CV(m.MP[kind](i, j, k), m.MP[kind](i, j, k + 1)), m.MN[kind](i, j))
    t.prove("as many kinds of flips as kinds of paths", len(got) == len(want))
    rest = dict(want)
    for x in got:
        if len(x.vars) != 3 or not isinstance(x.value, SRef):
            raise Unsupported("flips in another form")
        best = None
        for kind, (vs, g, q, n) in rest.items():
            for how, kk in (("", vs[2]), ("next", vs[2] + 1), ("mirrored", n - 2 - vs[2])):
                ren = list(zip(x.vars, (vs[0], vs[1], kk)))
                gg, v = subst(zb(x.guard), ren), subst(x.value.e, ren)
                if t.quick([*e.assumptions, z3.Or(gg != g, z3.And(g, v != q))]) == z3.unsat:
                    best = (kind, gg, v)
                    break
                if best is None and kind in str(gg):
                    best = (kind, gg, v)
        if best is None:
            raise Unsupported("flips in another form")
        kind, gg, v = best
        vs, g, q, n = rest.pop(kind)
        t.prove(f"flips {kind}: one per step of a path in the matching", gg == g)
        t.prove(f"flips {kind}: the qubit of the step", z3.Implies(g, v == q))
    t.reach("something is matched", z3.And(m.M["SS"](z3.IntVal(0), z3.IntVal(1)), w.n == 2))


def linked(w, y, z):
    out = []
    for g, a in alts(y):
        for h, b in alts(z):
            ok = w.LINK(a.e, b.e) if isinstance(a, SRef) and isinstance(b, SRef) else False
            out.append(Implies(And(g, h), ok))
    return And(*out)


def alts(x):
    return x.alts if isinstance(x, GU) else [(True, x)]


class StabGraph:
    """A stabilizer graph of either class, with the connectors: real nodes S and boundary points, any links with weights."""

    def __init__(self, t, cls):
        e = self.e = t.e
        fn = z3.Function
        self.cls = cls
        self.S, self.LO, self.HI = fn("stabilizer", NODE, B), fn("low_point", NODE, B), fn("high_point", NODE, B)
        self.E, self.WT = fn("linked", NODE, NODE, B), fn("edge_weight", NODE, NODE, R)
        u, v = z3.Const("u!", NODE), z3.Const("v!", NODE)
        self.N = lambda x: z3.Or(self.S(x), self.LO(x), self.HI(x))
        law("linked", [u, v], z3.Implies(self.E(u, v), z3.And(self.N(u), self.N(v), u != v, z3.Not(self.E(v, u)))))
        self.rx = cls[0] == "R"
        sg = self.sg = e.new_obj(e.lookup(SG + cls))
        for name, p in (("stabilizers", self.S), ("low_bound_points", self.LO), ("high_bound_points", self.HI)):
            x, X = node("x")
            e.obj_set(sg, name, e.new_list(entries=[Entry((x,), p(x), X)]))
        if self.rx:
            self.IX, self.AT = fn("index", NODE, I), fn("node_at", I, NODE)
            self.used = fn("used", I, B)
            i = z3.Int("i!")
            law("used", [i], z3.Implies(self.used(i), i >= 2))
            logic.bijection(self.IX, self.AT, lambda x: self.N(x), lambda i: self.used(i))
            g = models._rxgraph(e, [], {})
            self.key = lambda x: {"low": 0, "high": 1}[x] if isinstance(x, str) else SNum(self.IX(x))
            x, X = node("x")
            e.obj_set(sg, "node_to_index", e.new_dict(entries=[Entry((), True, 0, key="low"), Entry((), True, 1, key="high"), Entry((x,), self.N(x), SNum(self.IX(x)), key=X)]))
            i = z3.Int(fresh_name("i"))
            e.obj_set(sg, "index_to_node", e.new_dict(entries=[Entry((), True, "low", key=0), Entry((), True, "high", key=1), Entry((i,), self.used(i), SRef(self.AT(i)), key=SNum(i))]))
            g.store.meta["rx"] = 2
        else:
            g = models.new_graph(e, models.ModelFn("networkx.Graph", None))
            self.key = lambda x: x if isinstance(x, str) else SRef(x)
        e.obj_set(sg, "graph", g)
        d = g.store.data
        nd = lambda vs, gd, x: Entry(vs, gd, (x if isinstance(x, str) else SRef(x)) if self.rx else True, key=self.key(x))
        i, _ = node("x")
        d["%nodes"] = [nd((), True, "low"), nd((), True, "high"), nd((i,), self.N(i), i)]
        d["%edges"], weights = [], []
        for gd, vs, a, b, w in self.links():
            k = models.EdgeKey(self.key(a), self.key(b))
            d["%edges"].append(Entry(vs, gd, True, key=k))
            weights.append(Entry(vs, gd, w, key=k))
        if self.rx:
            d["%edata"] = [Entry(en.vars, en.guard, e.new_dict([("common_vertex", Opaque("a qubit")), ("weight", en.value)]) if not en.vars else Payload(en.value), key=en.key) for en in weights]
        else:
            d["%eattr:weight"] = weights
        self.g = g

    def links(self):
        (x, _), (y, _) = node("x"), node("y")
        yield self.E(x, y), (x, y), x, y, SNum(self.WT(x, y))
        for c, p in (("low", self.LO), ("high", self.HI)):
            z, _ = node("z")
            yield p(z), (z,), c, z, 0

    def linked(self, u, v):
        return z3.Or(self.E(u, v), self.E(v, u))

    def weight(self, u, v):
        return z3.If(self.E(u, v), self.WT(u, v), self.WT(v, u))


class Payload:
    """The payload of an edge: a dictionary with its weight."""

    def __init__(self, w):
        self.w = w

    def getitem(self, e, k):
        if k == "weight":
            return self.w
        if k == "common_vertex":
            return Opaque("a qubit")
        raise Unsupported(f"payload {k}")

    def getattr_model(self, e, name):
        if name == "get":
            return (models.ModelFn("dict.get", lambda e, a, k: self.getitem(e, a[0])),)
        return None

    def subst(self, pairs):
        return Payload(subst_value(self.w, pairs))

    def vars_of(self, acc):
        value_vars(self.w, acc)

    def merge_with(self, e, g, o):
        return Payload(e.merge(g, self.w, o.w))


def distances(t, prop, cls, method):
    """The shortest-path methods: Dijkstra's algorithm on the right graph, with the results under the right names."""
    e = t.e
    s = StabGraph(t, cls)
    (u, U), (v, V) = node("u"), node("v")
    src, SRC = node("source")
    e.assume(s.S(src))
    source = {"shortest_paths_without_high_low": SRC, "shortest_paths_from_low": "low", "shortest_paths_from_high": "high"}[method]
    plain = method == "shortest_paths_without_high_low"
    # C07: the lengths matter only for the choice of the connector
    exact = prop == "C08" or not plain
    fn = z3.Function
    REACH, DIST, NUM, PN = fn("reached", NODE, B), fn("distance", NODE, R), fn("path_nodes", NODE, I), fn("path_node", NODE, I, NODE)
    # nodes of paths: the connectors as members of the sort
    x, i = z3.Const("x!", NODE), z3.Int("i!")
    LOWN, HIGHN = z3.Const("the low connector", NODE), z3.Const("the high connector", NODE)
    e.assume(z3.And(z3.Not(s.N(LOWN)), z3.Not(s.N(HIGHN)), LOWN != HIGHN))
    law("reached", [x], z3.Implies(REACH(x), s.N(x)))
    law("path_nodes", [x], z3.Implies(REACH(x), NUM(x) >= 2))
    ok = lambda y: z3.Or(s.N(y), *([] if plain else [y == LOWN, y == HIGHN]))
    adj = lambda y, z: z3.Or(s.linked(y, z), *[z3.And(p(b), a == c) for c, p in ((LOWN, s.LO), (HIGHN, s.HI)) for a, b in ((y, z), (z, y))])
    law("path_node", [x, i], z3.Implies(REACH(x), z3.And(z3.Implies(z3.And(0 <= i, i < NUM(x)), ok(PN(x, i))), z3.Implies(z3.And(0 <= i, i < NUM(x) - 1), adj(PN(x, i), PN(x, i + 1))))))
    named = lambda y: SRef(y) if plain else e.merge(y == LOWN, "low", e.merge(y == HIGHN, "high", SRef(y)))
    step = lambda y, z: z3.If(z3.Or(*[q == c for q in (y, z) for c in (LOWN, HIGHN)]), 0, s.weight(y, z))
    calls = []

    def right_graph(G, has, link, weigh):
        """The graph given to the library."""
        t.prove("all stabilizers and boundary points are searched", has(SRef(u)) == s.N(u))
        for c in ("low", "high"):
            t.prove("the connectors are searched from the connectors only", zb(has(c)) == z3.BoolVal(not plain))
        t.prove("all links are searched", zb(link(SRef(u), SRef(v))) == s.linked(u, v))
        with e.guard(s.linked(u, v)):
            w = weigh(SRef(u), SRef(v))
            if exact:
                t.prove("the distance of linked nodes is the weight", real(w) == s.weight(u, v))
        if not plain:
            for c, p in (("low", s.LO), ("high", s.HI)):
                t.prove("links of the connectors", zb(link(c, SRef(u))) == p(u))
                with e.guard(p(u)):
                    t.prove("links of the connectors weigh nothing", real(weigh(c, SRef(u))) == 0)

    def dijkstra(e, a, k):
        d = dict(zip(("G", "source", "target", "cutoff", "weight"), a), **k)
        if d.get("target") is not None or d.get("cutoff") is not None or set(d) - {"G", "source", "target", "cutoff", "weight"}:
            raise Unsupported("arguments of single_source_dijkstra")
        calls.append("networkx")
        G = e.force(d["G"])
        t.prove("the source", e.eq(d["source"], source))
        wn = d.get("weight", "weight")
        view = G.store.meta.get("view_of")
        has = lambda n: zb(models.graph_has_node(e, G, n))
        def link(a, b):
            if view is None:
                return models.graph_has_edge(e, G, a, b)
            return And(has(a), has(b), models.graph_has_edge(e, view, a, b))
        def weigh(a, b):
            f, w = models.graph_read(e, G if view is None else view, "%eattr:" + wn, models.EdgeKey(a, b))
            e.do_raise("KeyError", "", Not(f))
            return w
        right_graph(G, has, link, weigh)
        y, Y = node("target")
        z, Z = node("target")
        g = z3.And(REACH(y), z3.BoolVal(True) if isinstance(source, str) else y != src)
        h = subst(g, [(y, z)])
        zero, one = [Entry((), True, 0, key=source)], [Entry((), True, e.new_list([source]), key=source)]
        return (e.new_dict(entries=zero + [Entry((y,), g, SNum(DIST(y)), key=Y)]),
                e.new_dict(entries=one + [Entry((z,), h, SymList(SNum(NUM(z)), lambda i: named(PN(z, lift_num(i)))), key=Z)]))

    def rx_dijkstra(e, a, k):
        d = dict(zip(("graph", "source", "target", "weight_fn", "default_weight", "as_undirected"), a), **k)
        if d.get("target") is not None or d.get("weight_fn") is None or set(d) - {"graph", "source", "target", "weight_fn"}:
            raise Unsupported("arguments of graph_dijkstra_shortest_paths")
        calls.append("rustworkx")
        G = e.force(d["graph"])
        key = lambda n: s.key(n if isinstance(n, str) else n.e)
        t.prove("the source", e.eq(d["source"], key(source)))
        has = lambda n: zb(And(n if False else (s.N(n.e) if isinstance(n, SRef) else True), models.graph_read(e, G, "%nodes", key(n))[0]))
        link = lambda a, b: And(*[s.N(n.e) for n in (a, b) if isinstance(n, SRef)], models.graph_has_edge(e, G, key(a), key(b)))
        weigh = lambda a, b: e.call(d["weight_fn"], [models.rx_get_edge_data(e, G, key(a), key(b))])
        right_graph(G, has, link, weigh)
        z, Z = node("target")
        h = z3.And(REACH(z), z3.BoolVal(True) if isinstance(source, str) else z != src)
        num = lambda y: SNum(s.IX(y)) if plain else SNum(z3.If(y == LOWN, 0, z3.If(y == HIGHN, 1, s.IX(y))))
        return e.new_dict(entries=[Entry((z,), h, SymList(SNum(NUM(z)), lambda i: num(PN(z, lift_num(i)))), key=SNum(s.IX(z)))])

    for n in ("networkx.algorithms.shortest_paths.single_source_dijkstra", "networkx.single_source_dijkstra"):
        e.ext_contracts[n] = models.ModelFn(n, dijkstra)
    for n in ("rustworkx.graph_dijkstra_shortest_paths", "rustworkx.dijkstra_shortest_paths"):
        e.ext_contracts[n] = models.ModelFn(n, rx_dijkstra)

    def identify(en, agg, sym):
        """The sum of the weights along a path is the distance that Dijkstra's algorithm minimises."""
        if agg.kind != "sum" or len(agg.vars) != 1 or len(agg.params) != 1:
            return
        k, p = agg.vars[0], agg.params[0]
        tgt = p if p.sort() == NODE else s.AT(p)
        h = zb(en.path_formula())
        fs = [*en.assumptions, h, z3.Or(zb(agg.guard) != z3.And(0 <= k, k < NUM(tgt) - 1), z3.And(zb(agg.guard), real(SNum(agg.value)) != step(PN(tgt, k), PN(tgt, k + 1))))]
        if t.quick(fs, 10) == z3.unsat:
            logic.DEFS[agg.sym.name()] = (agg.params, z3.Implies(h, sym == DIST(tgt)))
    e.on_aggregate = identify
    res = e.call(e.getattr(s.sg, method), [source] if plain else [])
    t.no_raise("the paths can be found")
    lengths, paths = e.unpack(res)
    t.prove("the library is asked once", len(calls) == 1)
    g = z3.And(REACH(v), *([v != src] if plain else []))
    t.prove("distances: to every node that is reached", z3.Implies(g, zb(e.contains(lengths, V))))
    t.prove("paths: to every node that is reached", z3.Implies(g, zb(e.contains(paths, V))))
    with e.guard(g):
        if exact:
            t.prove("distances: of the shortest paths", real(e.getitem(lengths, V)) == DIST(v))
        p = e.getitem(paths, V)
        t.prove("paths: number of nodes", lift_num(models.length(e, p)) == NUM(v))
        k = z3.Int("k")
        with e.guard(z3.And(0 <= k, k < NUM(v))):
            t.prove("paths: nodes", e.eq(e.getitem(p, SNum(k)), named(PN(v, k))))
    t.no_raise("the results are complete")
    t.reach("a node is reached", g)


def connectors(t, ec, b):
    """RxStabilizerGraph: 'low' and 'high' get the first two indices, and the tables of indices are inverse."""
    e = t.e
    if ec is None:
        sg = e.call(e.lookup(SG + "RxStabilizerGraph"), [])
        named = ["low", "high"]
    else:
        code, d, bs, ax, stab = c03.the_code(t, ec, b)
        sg = e.call(e.lookup(SG + "RxStabilizerGraph"), [ec, code])
        c, _ = point("c")
        p, P = point("p")
        named = ["low", "high", (is_cell(c, d, bs, ec), stab(c))]
        if ax is not None:
            named.append((z3.And(is_syndrome(p, d, bs, ec), z3.Or(*[p[ax] == x for x in extent(d[ax], bs[ax])])), P))
    t.no_raise()
    there, back = e.getattr(sg, "node_to_index"), e.getattr(sg, "index_to_node")
    first = [(f"rx index {n}",) for n in range(2)]
    for x in named:
        g, x = x if isinstance(x, tuple) else (z3.BoolVal(True), x)
        name = x if isinstance(x, str) else "another node"
        with e.guard(g):
            f, i = e.dict_get(there, x)
            t.prove(f"{name}: has an index", f)
            t.prove(f"{name}: one of the first two indices or not", z3.BoolVal(isinstance(x, str)) == zb(Or(*[e.eq(i, k) for k in first])))
            h, y = e.dict_get(back, i)
            t.prove(f"{name}: is the node of its index", And(h, e.eq(y, x)))
            h, y = models.graph_read(e, e.getattr(sg, "graph"), "%nodes", i)
            t.prove(f"{name}: is the payload at its index", And(h, e.eq(y, x)))


def geometry(t, ec, b):
    """The stabilizers are connected through shared qubits, and reach the boundary: what the induction of
    lemmas/matching.lean (connected) needs, for the cells of C02 and the links of C03."""
    d = [z3.Int(f"d{a}") for a in range(3)]
    bs = BOUNDS[ec, b]
    t.e.assume(z3.And(*[x >= 2 for x in d]))
    c, _ = point("c")
    cell = is_cell(c, d, bs, ec)
    lowest = [extent(x, k)[0] for x, k in zip(d, bs)]
    first = [z3.If(x % 2 == (1 if ec == "primal" else 0), z3.IntVal(1) * x, x + 1) for x in map(z3.IntVal, lowest)]
    t.prove("there is a corner cell", is_cell(first, d, bs, ec))
    steps = []
    for a in range(3):
        k = [x - 2 if i == a else x for i, x in enumerate(c)]
        q = [x - 1 if i == a else x for i, x in enumerate(c)]
        ok = z3.And(is_cell(k, d, bs, ec), in_cell(q, c, d, bs), in_cell(q, k, d, bs), is_syndrome(q, d, bs, ec))
        t.prove(f"a lower cell along axis {a} shares a qubit", z3.Implies(z3.And(cell, c[a] > first[a]), ok))
        steps.append(c[a] > first[a])
    t.prove("every other cell is higher along some axis", z3.Implies(z3.And(cell, z3.Not(eq3(c, first))), z3.Or(*steps)))
    t.prove("cells are above the corner", z3.Implies(cell, z3.And(*[x >= y for x, y in zip(c, first)])))
    if "periodic" not in bs:
        ax = bs.index(ec)
        lo, hi = extent(d[ax], bs[ax])
        for n, x, s in (("low", lo, -1), ("high", hi, 1)):
            k = [(x - s if i == ax else y) for i, y in enumerate(first)]
            q = [(x if i == ax else y) for i, y in enumerate(first)]
            t.prove(f"a boundary point of the {n} plane is in a stabilizer", z3.And(is_cell(k, d, bs, ec), in_cell(q, k, d, bs), is_syndrome(q, d, bs, ec)))


def total(t, backend):
    """total_weight_of adds up the weights of the edges."""
    e = t.e
    a = AnyMatchingGraph(t, backend)
    M = z3.Function("matched", NODE, NODE, B)
    x, y = z3.Const("x!", NODE), z3.Const("y!", NODE)
    law("matched", [x, y], z3.Implies(M(x, y), a.linked(x, y)))
    (u, U), (v, V) = node("u"), node("v")
    seen = []
    e.on_aggregate = lambda en, agg, sym: seen.append((agg, sym, zb(en.path_formula())))
    r = e.call(e.getattr(a.mg, "total_weight_of"), [Chunks(lambda e: [Chunk((u, v), M(u, v), (U, V))], what="matching")])
    e.on_aggregate = None
    t.no_raise()
    sums = [s for s in seen if s[0].kind == "sum" and len(s[0].vars) == 2]
    if len(sums) != 1:
        raise Unsupported("how the total is made")
    agg, sym, h = sums[0]
    ren = list(zip(agg.vars, (u, v)))
    t.prove("the sum runs over the edges", subst(zb(agg.guard), ren) == M(u, v))
    val = agg.value if z3.is_expr(agg.value) else lift_num(agg.value)
    t.prove("the sum adds their weights", z3.Implies(M(u, v), real(SNum(subst(val, ren))) == a.weight(u, v)))
    t.prove("the result is the sum", e.eq(r, SNum(sym)))


def lemmas(t, name):
    t.lean(name, "matching.lean")


def common(prop):
    out = []
    for cls in ("NxStabilizerGraph", "RxStabilizerGraph"):
        for m in ("without_high_low", "from_low", "from_high"):
            out.append(Unit(f"{cls}.shortest_paths_{m}", distances, (prop, cls, "shortest_paths_" + m)))
    for b in BACKENDS:
        out.append(Unit(f"stored edges {b}", stored, (prop, b)))
        out.append(Unit(f"adapter {b}", adapter, (prop, b)))
        for boundary in (False, True):
            out.append(Unit(f"matching graph {b} {'with' if boundary else 'without'} boundary", matching_graph, (prop, b, boundary, "primal")))
        out.append(Unit(f"matching graph by class {b}", matching_graph, (prop, b, False, "dual", True)))
    out.append(Unit("indices of nodes (rustworkx)", interning))
    for b in BACKENDS:
        for boundary in (False, True):
            out.append(Unit(f"decoder {b} {'with' if boundary else 'without'} boundary", decoder, (b, boundary, "dual")))
    for ec, b in [(None, None)] + COMBOS:
        out.append(Unit(f"indices of the connectors {ec or 'empty'} {b or ''}", connectors, (ec, b)))
    return out


def units():
    out = common("C07")
    for ec, b in COMBOS:
        out.append(Unit(f"connectivity {ec} {b}", geometry, (ec, b)))
    return out + [Unit("lemmas", lemmas, ("flips, cleared, connected, even_odd, passing: the flips clear the syndrome",))]
