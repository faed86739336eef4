"""C04: the tables of EGraph, from every state that earlier edits can have left.

The representation invariant (any graph, any subset of indices, any macronode table) is assumed before each method and
proved after it, so it holds along every history; the postconditions relate the two states."""
import z3
from pv.prove import Unit
from pv import logic, models
from contracts.absgraph import *
from contracts.cvlayer import snapshot_dict, same_dict

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AX = (0, 1, 2)


def law(name, vs, f):
    logic.DEFS[name] = (list(vs), f)


def point(name="p"):
    v = [z3.Real(fresh_name(name)) for _ in AX]
    return v, tuple(SNum(x) for x in v)


def cell(name="m"):
    v = [z3.Int(fresh_name(name)) for _ in AX]
    return v, tuple(SNum(x) for x in v)


def same(u, v):
    return z3.And(*[a == b for a, b in zip(u, v)])


class State:
    """An arbitrary EGraph; nodes are triples of numbers.  indexed: tables exist; macro: a macronode table exists."""

    def __init__(self, t, indexed, macro, adj=False, weights=True):
        e = self.e = t.e
        self.indexed, self.macro = indexed, macro
        self.N = z3.Function("node", R, R, R, B)
        self.L = z3.Function("linked", *[R] * 6, B)
        self.HW, self.W = z3.Function("weighted", *[R] * 6, B), z3.Function("weight", *[R] * 6, R)
        g = self.g = models.new_graph(e, e.lookup(EG))
        d = g.store.data
        self.order = z3.Int("order")
        some = z3.Function("some_node", I, R)
        e.assume(self.order >= 0)
        v, V = point()
        law("node", v, z3.Implies(self.N(*v), self.order > 0))
        d["%nodes"] = [Entry(tuple(v), self.N(*v), True, key=V)]
        u, U = point()
        w, W = point()
        k = models.EdgeKey(U, W)
        d["%edges"] = [Entry((*u, *w), self.edge(u, w), True, key=k)]
        if weights:
            d["%eattr:weight"] = [Entry((*u, *w), z3.And(self.edge(u, w), self.HW(*u, *w)), SNum(self.W(*u, *w)), key=k)]
        v, V = point()
        self.HA, self.VA = z3.Function("has_attr", R, R, R, B), z3.Function("attr", R, R, R, NODE)
        d["%nattr:any"] = [Entry(tuple(v), z3.And(self.N(*v), self.HA(*v)), SRef(self.VA(*v)), key=V)]
        self.idx = z3.Function("idx", R, R, R, I)
        self.Ix = z3.Function("used_index", I, B)
        self.pt = [z3.Function("pt" + "xyz"[a], I, R) for a in AX]
        logic.bijection_n(self.pt, self.idx, lambda i: self.Ix(i), lambda *q: self.N(*q))
        law("used_index", [z3.Int("i!")], z3.BoolVal(True)) if False else None
        if indexed:
            v, V = point()
            e.obj_set(g, "to_indices", e.new_dict(entries=[Entry(tuple(v), self.N(*v), SNum(self.idx(*v)), key=V)]))
            i = z3.Int(fresh_name("i"))
            e.obj_set(g, "to_points", e.new_dict(entries=[Entry((i,), self.Ix(i), tuple(SNum(f(i)) for f in self.pt), key=SNum(i))]))
        else:
            e.obj_set(g, "to_indices", None)
            e.obj_set(g, "to_points", None)
        e.obj_set(g, "adj_mat", Matrix("the matrix at hand") if adj else None)
        e.obj_set(g, "_macronodes", macro)
        self.In = z3.Function("in_macronode", R, R, R, B)
        self.home = [z3.Function("home" + "xyz"[a], R, R, R, I) for a in AX]
        self.K = z3.Function("macronode", I, I, I, B)
        self.first = [z3.Function("first" + "xyz"[a], I, I, I, R) for a in AX]
        if macro:
            q, _ = point()
            law("in_macronode", q, z3.Implies(self.In(*q), z3.And(self.N(*q), self.K(*[h(*q) for h in self.home]))))
            kv, KV = cell()
            f = [h(*kv) for h in self.first]
            law("macronode", kv, z3.Implies(self.K(*kv), z3.And(self.In(*f), *[h(*f) == c for h, c in zip(self.home, kv)])))
            e.push_binder(kv)
            q, Q = point()
            members = e.new_list(entries=[Entry(tuple(q), self.within(q, kv), Q)])
            e.pop()
            self.table = e.new_dict(entries=[Entry(tuple(kv), self.K(*kv), members, key=KV)])
            e.obj_set(g, "macro_to_micro", self.table)
            # the table is also the graph's
            gd = e.new_dict()
            e.dict_set(gd, "macro_dict", self.table)
            e.obj_set(g, "graph", gd)
        else:
            self.table = None
            e.obj_set(g, "macro_to_micro", None)

    def within(self, q, m):
        return z3.And(self.In(*q), *[h(*q) == c for h, c in zip(self.home, m)])

    def edge(self, u, w):
        return z3.And(self.N(*u), self.N(*w), z3.Or(self.L(*u, *w), self.L(*w, *u)))

    # ---- what holds now
    def attr(self, name):
        return self.e.force(self.e.getattr(self.g, name))

    def has(self, V):
        return zb(models.graph_has_node(self.e, self.g, V))

    def linked(self, U, W):
        return zb(models.graph_has_edge(self.e, self.g, U, W))


class Matrix:
    """An adjacency matrix (opaque)."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"<{self.what}>"


def consistent(t, S, now_node, label="", was=None):
    """The index tables of the state S.g now: inverse, covering exactly the nodes (now_node: terms -> formula)."""
    e = t.e
    ti, tp = S.attr("to_indices"), S.attr("to_points")
    if not isinstance(ti, PDict) or not isinstance(tp, PDict):
        raise Unsupported("index tables of another kind")
    v, V = point("q")
    f, i = e.dict_get(ti, V)
    t.prove(label + "a point has an index exactly if it is a qubit", zb(f) == now_node(*v))
    with e.guard(zb(f)):
        f2, p = e.dict_get(tp, i)
        t.prove(label + "the index of each qubit leads back to it", z3.And(zb(f2), zb(e.eq(p, V))))
        if was:
            t.prove(label + "qubits keep their indices", z3.Implies(S.N(*v), zb(e.eq(i, SNum(S.idx(*v))))))
    j = z3.Int(fresh_name("j"))
    f, p = e.dict_get(tp, SNum(j))
    with e.guard(zb(f)):
        f2, i = e.dict_get(ti, p)
        t.prove(label + "the point of each index leads back to it", z3.And(zb(f2), zb(e.eq(i, SNum(j)))))


def table_ok(t, S, member, home, label=""):
    """The macronode table now: q is listed (once, and nowhere else) exactly in home(q) if member(q); nothing empty."""
    e = t.e
    tab = S.attr("macro_to_micro")
    if not isinstance(tab, PDict):
        raise Unsupported("macronode table of another kind")
    m, M = cell("c")
    f, l = e.dict_get(tab, M)
    if isinstance(l, GU):
        l = e.force(l)
    q, Q = point("q")
    with e.guard(zb(f)):
        t.prove(label + "a macronode lists its qubits", zb(e.contains(l, Q)) == z3.And(member(*q), same(home(*q), m)))
        t.prove(label + "macronodes are not empty", zb(e.truth(l)))
        once(t, l, label + "no qubit is listed twice in a macronode")
    t.prove(label + "every qubit of a macronode is listed", z3.Implies(z3.And(member(*q), same(home(*q), m)), zb(f)))


def once(t, l, label):
    """The items of the list are pairwise distinct."""
    e = t.e
    if isinstance(l, GU):
        for g, x in l.alts:
            with e.guard(g):
                once(t, x, label)
        return
    ents = e.ents(l)
    fs = []
    for i, en in enumerate(ents):
        a, q = e.fresh_entry(en)
        for j in range(i, len(ents)):
            b, r = e.fresh_entry(ents[j])
            if i == j and not q:
                continue
            other = z3.Or(*[u != v for u, v in zip(q, r)]) if i == j else z3.BoolVal(True)
            fs.append(Not(And(zb(a.guard), zb(b.guard), other, zb(e.eq(a.value, b.value)))))
    t.prove(label, z3.And(*[zb(f) for f in fs]))


def frame(t, S, but, label=""):
    """Nodes, edges and attributes of qubits other than `but` are as before."""
    e = t.e


def remove_unit(t, indexed, macro, by):
    e = t.e
    S = State(t, indexed, macro, adj=True)
    x, X = point("x")
    if by == "point":
        e.assume(S.N(*x))
        arg = X
    else:
        i = z3.Int("i")
        e.assume(S.Ix(i))
        arg = SNum(i)
        x = [f(i) for f in S.pt]
        X = tuple(SNum(f) for f in x)
    u, U = point("u")
    w, W = point("w")
    before = [models.graph_read(e, S.g, "%eattr:weight", models.EdgeKey(U, W)), models.graph_read(e, S.g, "%nattr:any", U)]
    e.call(e.getattr(S.g, "remove_qubit"), [arg])
    t.no_raise()
    stays = lambda *q: z3.And(S.N(*q), z3.Not(same(q, x)))
    t.prove("only that node is removed", S.has(U) == stays(*u))
    t.prove("only its edges are removed", S.linked(U, W) == z3.And(S.edge(u, w), stays(*u), stays(*w)))
    f, v = models.graph_read(e, S.g, "%eattr:weight", models.EdgeKey(U, W))
    t.prove("the weights of other edges are kept", z3.Implies(z3.And(stays(*u), stays(*w)), z3.And(zb(f) == zb(before[0][0]), z3.Implies(zb(f), zb(e.eq(v, before[0][1]))))))
    f, v = models.graph_read(e, S.g, "%nattr:any", U)
    t.prove("the attributes of other nodes are kept", z3.Implies(stays(*u), z3.And(zb(f) == zb(before[1][0]), z3.Implies(zb(f), zb(e.eq(v, before[1][1]))))))
    if indexed:
        consistent(t, S, stays, was=True)
    else:
        t.prove("no tables appear", S.attr("to_indices") is None and S.attr("to_points") is None)
    t.prove("the adjacency matrix is forgotten", S.attr("adj_mat") is None)
    if macro:
        table_ok(t, S, lambda *q: z3.And(S.In(*q), z3.Not(same(q, x))), lambda *q: [h(*q) for h in S.home])
    else:
        t.prove("no macronode table appears", S.attr("macro_to_micro") is None)
    t.reach("state")


class Listed:
    """A nonempty list of values (terms in P), in any order and with any repetitions."""

    def __init__(self, e, n, mk, P, head):
        self.mk, self.P, self.head, self.n = mk, P, head, n
        e.assume(n > 0)

    def chunks(self, e):
        v, V = self.mk()
        return [Chunk(v, self.P(*v), V)]

    def length(self, e):
        return SNum(self.n)

    def truth(self, e):
        return True

    def getitem(self, e, i):
        if not (isinstance(i, int) and i in (0, -1)):
            raise Unsupported("an item in the middle of the list of neighbours")
        return self.head

    def is_instance(self, e, t):
        raise Unsupported("type of the list of neighbours")


def index_contract(t, S, now, n):
    """index_generator without tables (units below): every qubit gets an index, 0 .. n-1."""
    idx = z3.Function("new_idx", R, R, R, I)
    pt = [z3.Function("new_pt" + "xyz"[a], I, R) for a in AX]
    logic.bijection_n(pt, idx, lambda i: z3.And(i >= 0, i < n), now)

    def contract(e, a, kw):
        if S.attr("to_indices") is not None or S.attr("to_points") is not None:
            raise Unsupported("index_generator with tables")
        v, V = point()
        i = z3.Int(fresh_name("i"))
        d = e.new_dict(entries=[Entry(tuple(v), now(*v), SNum(idx(*v)), key=V)])
        e.obj_set(S.g, "to_indices", d)
        e.obj_set(S.g, "to_points", e.new_dict(entries=[Entry((i,), z3.And(i >= 0, i < n), tuple(SNum(f(i)) for f in pt), key=SNum(i))]))
        return d

    t.e.contracts[EG + ".index_generator"] = contract
    return pt


def add_unit(t, indexed, macro, into, given, nb, how):
    e = t.e
    S = State(t, indexed, macro, adj=True)
    if given:
        x, X = point("x")
        e.assume(z3.Not(S.N(*x)))
    else:
        # one unit beyond the largest position in the x direction
        top = z3.Real("top")
        x = [top + 1, z3.RealVal(0), z3.RealVal(0)]
        q, _ = point()
        e.add_fact(z3.ForAll(q, z3.Implies(S.N(*q), q[0] <= top)))
        b, _ = point("b")
        e.add_fact(z3.Implies(S.order > 0, z3.And(S.N(*b), b[0] == top)))
        e.add_fact(z3.Implies(S.order == 0, top == -1))
        t.prove("the position beyond all qubits is free", z3.Not(S.N(*x)))
        e.assume(z3.Not(S.N(*x)))
    now = lambda *q: z3.Or(S.N(*q), same(q, x))
    args, kw = [], {}
    if given:
        args = [X]
    elif how:
        args = [None]
    if into or how:
        kw["add_to_macronode"] = into
    P = lambda *q: z3.BoolVal(False)
    pts = None
    if nb == "empty":
        kw["neighbors"] = e.new_list()
    elif nb == "none" and how:
        kw["neighbors"] = None
    elif nb == "points":
        P = z3.Function("neighbour", R, R, R, B)
        q, _ = point()
        law("neighbour", q, z3.Implies(P(*q), S.N(*q)))
        h, H = point("head")
        e.assume(P(*h))
        kw["neighbors"] = Listed(e, z3.Int("n_neighbours"), point, P, H)
    elif nb == "indices":
        PI = z3.Function("neighbour", I, B)
        if indexed:
            law("neighbour", [z3.Int("i!n")], z3.Implies(PI(z3.Int("i!n")), S.Ix(z3.Int("i!n"))))
            P = lambda *q: z3.And(S.N(*q), PI(S.idx(*q)))
            pts = S.pt
        h = z3.Int("head")
        e.assume(PI(h))
        one = lambda: (lambda v: ([v], SNum(v)))(z3.Int(fresh_name("i")))
        kw["neighbors"] = Listed(e, z3.Int("n_neighbours"), one, PI, SNum(h))
    u, U = point("u")
    w, W = point("w")
    before = [models.graph_read(e, S.g, "%eattr:weight", models.EdgeKey(U, W)), models.graph_read(e, S.g, "%nattr:any", U)]
    if nb == "indices" and not indexed:
        # indices are generated on the way, with the new qubit
        n = S.order + 1
        law("neighbour", [z3.Int("i!n")], z3.Implies(PI(z3.Int("i!n")), z3.And(z3.Int("i!n") >= 0, z3.Int("i!n") < n)))
        npt = index_contract(t, S, now, n)
        nidx = lambda *q: z3.Function("new_idx", R, R, R, I)(*q)
        P = lambda *q: z3.And(now(*q), PI(nidx(*q)))
    r = e.call(e.getattr(S.g, "add_qubit"), args, kw)
    t.no_raise()
    if not given:
        new = [lift_num(c) for c in new_node(t, S)]
        t.prove("the new qubit lies one unit beyond the others", same([z3.ToReal(c) if c.sort() == I else c for c in new], x), timeout=20)
        e.assume(same([z3.ToReal(c) if c.sort() == I else c for c in new], x))
    t.prove("one node is added", S.has(U) == now(*u))
    new_edge = lambda u, w: z3.Or(z3.And(P(*u), same(w, x)), z3.And(P(*w), same(u, x)))
    t.prove("edges lead to the neighbours", S.linked(U, W) == z3.Or(S.edge(u, w), new_edge(u, w)))
    f, v = models.graph_read(e, S.g, "%eattr:weight", models.EdgeKey(U, W))
    t.prove("the weights of other edges are kept, new edges have none", z3.And(zb(f) == zb(before[0][0]), z3.Implies(zb(f), zb(e.eq(v, before[0][1])))))
    f, v = models.graph_read(e, S.g, "%nattr:any", U)
    t.prove("the attributes of other nodes are kept", z3.And(zb(f) == zb(before[1][0]), z3.Implies(zb(f), zb(e.eq(v, before[1][1])))))
    if indexed or nb == "indices":
        consistent(t, S, now, was=indexed)
    else:
        t.prove("no tables appear", S.attr("to_indices") is None and S.attr("to_points") is None)
    t.prove("the adjacency matrix is forgotten", S.attr("adj_mat") is None)
    if macro:
        if into:
            cellx = [nearest(c) for c in x]
            table_ok(t, S, lambda *q: z3.Or(S.In(*q), same(q, x)), lambda *q: [z3.If(same(q, x), r, h(*q)) for r, h in zip(cellx, S.home)])
        else:
            table_ok(t, S, S.In, lambda *q: [h(*q) for h in S.home])
    else:
        t.prove("no macronode table appears", S.attr("macro_to_micro") is None)
    t.reach("state")


def nearest(c):
    """The nearest integer, ties to the even one."""
    f = z3.ToInt(c)
    d = c - z3.ToReal(f)
    return z3.If(z3.Or(d > z3.Q(1, 2), z3.And(d == z3.Q(1, 2), f % 2 == 1)), f + 1, f)


def new_node(t, S):
    """The one node written since the start."""
    es = S.g.store.data["%nodes"][1:]
    keys = [en.key for en in es if en.op != "del"]
    if not keys or any(en.vars for en in es[:1]) or not isinstance(keys[0], tuple) or len(keys[0]) != 3:
        raise Unsupported("nodes added in another way")
    return keys[0]


def refuse_unit(t, what):
    e = t.e
    S = State(t, True, what == "existing")
    u, U = point("u")
    x, X = point("x")
    if what == "existing":
        e.assume(S.N(*x))
        args, kw, exc = [X], {}, "ValueError"
    elif what == "macronode":
        args, kw, exc = [X], {"add_to_macronode": True}, "ValueError"
        e.assume(z3.Not(S.N(*x)))
    elif what == "pair":
        args, kw, exc = [X[:2]], {}, "ValueError"
    else:
        args, kw, exc = ["here"], {}, "TypeError"
    e.call(e.getattr(S.g, "add_qubit"), args, kw)
    t.prove("is refused", zb(t.raised(exc)))
    t.prove("nothing is added", len(S.g.store.data["%nodes"]) == 1 and len(S.g.store.data["%edges"]) == 1
            or all(z3.is_false(z3.simplify(zb(en.guard))) for f in ("%nodes", "%edges") for en in S.g.store.data[f][1:]))


def sizes(S, *more):
    S.e.sizes += [([R] * 3, lambda *q: S.N(*q), S.order)]
    if S.indexed:
        # as many indices as qubits: the tables are inverse to each other
        S.e.sizes += [([I], lambda i: S.Ix(i), S.order), ([I, R, R, R], lambda i, *q: z3.And(S.Ix(i), *[f(i) == c for f, c in zip(S.pt, q)]), S.order),
                      ([R, R, R, I], lambda x, y, z, i: z3.And(S.N(x, y, z), S.idx(x, y, z) == i), S.order)]


def unchanged(t, S, snap):
    t.prove("the graph is not modified", all(S.g.store.data.get(f) is None or len(S.g.store.data[f]) == n for f, n in snap.items() if f.startswith("%")) and
            {f for f in S.g.store.data if f.startswith("%")} == {f for f in snap if f.startswith("%")})


def facets(S):
    return {f: len(es) for f, es in S.g.store.data.items() if isinstance(es, list)}


def index_unit(t, indexed, macro):
    e = t.e
    S = State(t, indexed, macro)
    S.g.store.meta["order"] = SNum(S.order)
    sizes(S)
    ti, tp = S.attr("to_indices"), S.attr("to_points")
    snaps = [snapshot_dict(d) for d in (ti, tp)] if indexed else None
    snap = facets(S)
    r = e.force(e.call(e.getattr(S.g, "index_generator"), []))
    t.no_raise()
    unchanged(t, S, snap)
    now = S.attr("to_indices")
    t.prove("returns the table", isinstance(r, PDict) and isinstance(now, PDict) and r.store is now.store)
    if indexed:
        t.prove("existing tables stay", now.store is ti.store and S.attr("to_points").store is tp.store and same_dict(ti, snaps[0]) and same_dict(tp, snaps[1]))
    else:
        consistent(t, S, S.N)
        v, V = point()
        f, i = e.dict_get(now, V)
        t.prove("indices run from 0 to the number of qubits", z3.Implies(S.N(*v), z3.And(zb(f), lift_num(i) >= 0, lift_num(i) < S.order)))
    if macro:
        table_ok(t, S, S.In, lambda *q: [h(*q) for h in S.home])
    t.prove("no adjacency matrix appears", S.attr("adj_mat") is None)
    t.reach("state")


WIDE = {"int8": True, "int16": True, "int32": True, "int64": True, "int": True, "float32": True, "float64": True, "float": True,
        "uint8": False, "uint16": False, "uint32": False, "uint64": False, "bool_": False, "bool": False}


def adjacency_call(e, S, log, form):
    """Assumed contract of networkx: entry (i, j) is the weight attribute (1 without it) of the edge between the i-th and
    the j-th node of nodelist, 0 without an edge."""
    def f(en, a, k):
        k = dict(k)
        names = ["G", "nodelist", "dtype"]
        for n, v in zip(names, a):
            k[n] = v
        if len(a) > 3 or set(k) - {"G", "nodelist", "dtype", "weight", "format"}:
            raise Unsupported("options of the adjacency matrix")
        k["form"] = form
        log.append(k)
        k["result"] = Matrix("adjacency matrix")
        return k["result"]
    return ModelFn("adjacency matrix", f)


def adj_unit(t, indexed, cached, sparse):
    e = t.e
    S = State(t, indexed, False, adj=cached)
    S.g.store.meta["order"] = SNum(S.order)
    sizes(S)
    log = []
    for n, form in (("to_scipy_sparse_array", True), ("adjacency_matrix", True), ("to_numpy_array", False)):
        e.ext_contracts["networkx." + n] = adjacency_call(e, S, log, form)
    idx, used, pt = S.idx, S.Ix, S.pt
    if not indexed:
        index_contract(t, S, S.N, S.order)
        idx = z3.Function("new_idx", R, R, R, I)
        npt = [z3.Function("new_pt" + "xyz"[a], I, R) for a in AX]
        e.sizes += [([I], lambda i: z3.And(i >= 0, i < S.order), S.order),
                    ([I, R, R, R], lambda i, *q: z3.And(i >= 0, i < S.order, *[f(i) == c for f, c in zip(npt, q)]), S.order),
                    ([R, R, R, I], lambda x, y, z, i: z3.And(S.N(x, y, z), idx(x, y, z) == i), S.order)]
    old = S.attr("adj_mat")
    ti, tp = S.attr("to_indices"), S.attr("to_points")
    snaps = [snapshot_dict(d) for d in (ti, tp)] if indexed else None
    snap = facets(S)
    r = e.force(e.call(e.getattr(S.g, "adj_generator"), [], {} if sparse is None else {"sparse": sparse}))
    t.no_raise()
    unchanged(t, S, snap)
    if indexed:
        t.prove("the tables stay", S.attr("to_indices").store is ti.store and S.attr("to_points").store is tp.store and same_dict(ti, snaps[0]) and same_dict(tp, snaps[1]))
    if cached and not log:
        t.prove("the matrix at hand is returned", r is old and S.attr("adj_mat") is old and not log)
        return
    if len(log) != 1:
        raise Unsupported("the adjacency matrix comes from elsewhere")
    k = log[0]
    t.prove("the matrix is returned and kept", r is k["result"] and S.attr("adj_mat") is r)
    t.prove("in the form asked for", k["form"] == (sparse is not False))
    t.prove("of this graph", isinstance(e.force(k["G"]), PObj) and e.force(k["G"]).store is S.g.store)
    dt = k.get("dtype")
    name = dt.split(".")[-1] if isinstance(dt, str) else getattr(dt, "__name__", None) or getattr(dt, "name", None)
    name = name.split(".")[-1] if isinstance(name, str) else None
    if dt is not None and name not in WIDE:
        raise Unsupported(f"type of the entries {dt!r}")
    t.prove("entries hold -128 to 127", dt is None or WIDE[name])
    w = k.get("weight", "weight")
    if not isinstance(w, str):
        t.prove("entries are weights", False)
    else:
        t.prove("entries are weights", w == "weight")
    l = models.as_symlist(e, e.force(k["nodelist"])) if k.get("nodelist") is not None else None
    t.prove("the order of the rows is given", l is not None)
    if l is None:
        return
    i, j = z3.Ints("i j")
    e.assume(z3.And(0 <= i, i < j, j < lift_num(l.n)))
    p, q = [[lift_num(c) for c in l.at(SNum(x))] for x in (i, j)]
    t.prove("as many rows as qubits", lift_num(l.n) == S.order)
    t.prove("rows are qubits", z3.And(S.N(*p), S.N(*q)))
    if e.order_lost:
        raise Unsupported("order of a sorted list")
    t.prove("rows are in increasing order of the indices", idx(*p) < idx(*q))
    t.reach("state")


def init_unit(t, src, macro):
    e = t.e
    cls = e.lookup(EG)
    S = State(t, False, macro)
    args = []
    if src == "graph":
        # the networkx graph that macronize or a code hands over
        args = [S.g]
    kw = {"macronodes": macro} if macro or src == "graph" else {}
    if src == "nothing" and macro:
        return
    g = e.call(cls, args, kw)
    t.no_raise()
    old, S.g = S.g, g
    t.prove("no index tables", S.attr("to_indices") is None and S.attr("to_points") is None)
    t.prove("no adjacency matrix", S.attr("adj_mat") is None)
    u, U = point("u")
    w, W = point("w")
    if src == "graph":
        t.prove("the nodes are those of the graph", S.has(U) == S.N(*u))
        t.prove("the edges are those of the graph", S.linked(U, W) == S.edge(u, w))
        f, v = models.graph_read(e, g, "%eattr:weight", models.EdgeKey(U, W))
        f0, v0 = models.graph_read(e, old, "%eattr:weight", models.EdgeKey(U, W))
        t.prove("the weights are those of the graph", z3.And(zb(f) == zb(f0), z3.Implies(zb(f), zb(e.eq(v, v0)))))
    else:
        t.prove("no nodes", z3.Not(S.has(U)))
    t.prove("the flag", S.attr("_macronodes") is macro)
    if macro:
        table_ok(t, S, S.In, lambda *q: [h(*q) for h in S.home])
    else:
        t.prove("no macronode table", S.attr("macro_to_micro") is None)


def units():
    out = []
    for ix in (False, True):
        for m in (False, True):
            n = f"{'indexed' if ix else 'no indices'}, {'macronodes' if m else 'no macronodes'}"
            for by in ("point", "index") if ix else ("point",):
                out.append(Unit(f"remove_qubit by {by}, {n}", remove_unit, (ix, m, by)))
            for given in (True, False):
                for nb in ("none", "empty", "points", "indices"):
                    for into in (True, False) if m else (False,):
                        for how in (False, True) if nb == "none" else (False,):
                            out.append(Unit(f"add_qubit {'at a point' if given else 'anywhere'}{' into a macronode' if into else ''}, neighbours: {nb}{' (explicitly)' if how else ''}, {n}",
                                            add_unit, (ix, m, into, given, nb, how)))
    for ix in (False, True):
        n = "indexed" if ix else "no indices"
        for m in (False, True):
            out.append(Unit(f"index_generator, {n}, {'macronodes' if m else 'no macronodes'}", index_unit, (ix, m)))
        for sp in (None, True, False):
            for c in (False, True) if ix else (False,):
                out.append(Unit(f"adj_generator (sparse: {sp}), {n}{', at hand' if c else ''}", adj_unit, (ix, c, sp)))
    for src, m in (("nothing", False), ("graph", False), ("graph", True)):
        out.append(Unit(f"EGraph of {src}{' with macronodes' if m else ''}", init_unit, (src, m)))
    for w in ("existing", "macronode", "pair", "string"):
        out.append(Unit(f"add_qubit refuses: {w}", refuse_unit, (w,)))
    return out
