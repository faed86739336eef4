"""C17: macronize and EGraph.macronize on an arbitrary lattice graph.

Nodes are integer triples; u and u + e_a are linked by a unit edge where U_a(u) holds; where P_a holds, the two faces of
the bounding box [lo, hi] across axis a are linked by a periodic edge.  Orientation of every edge, attributes and the
displacement are arbitrary."""
import z3
from pv.prove import Unit
from pv import logic, models
from pv.models import SymList
from contracts.absgraph import *
from contracts.cvlayer import members

EGM = "flamingpy.codes.graphs.egraph."
I, B = z3.IntSort(), z3.BoolSort()
AX = (0, 1, 2)


def law(name, vs, f):
    logic.DEFS[name] = (list(vs), f)


class Lattice:
    """An arbitrary lattice graph."""

    def __init__(self, t):
        e = self.e = t.e
        fn = lambda n, k, r=B: z3.Function(n, *[I] * k, r)
        self.N, self.U, self.O = fn("node", 3), [fn(f"unit{a}", 3) for a in AX], [fn(f"along{a}", 3) for a in AX]
        self.P, self.Q = [fn(f"periodic{a}", 2) for a in AX], [fn(f"upwards{a}", 2) for a in AX]
        self.lo, self.hi = [z3.Int(f"lo{a}") for a in AX], [z3.Int(f"hi{a}") for a in AX]
        u = [z3.Int(f"u{a}") for a in AX]
        law("node", u, z3.Implies(self.N(*u), z3.And(*[z3.And(self.lo[a] <= u[a], u[a] <= self.hi[a]) for a in AX], z3.Or(*[self.slot(u, a, s) for a in AX for s in (1, -1)]))))
        for a in AX:
            law(f"unit{a}", u, z3.Implies(self.U[a](*u), z3.And(self.N(*u), self.N(*self.up(u, a)))))
            q = [u[b] for b in AX if b != a]
            law(f"periodic{a}", q, z3.Implies(self.P[a](*q), z3.And(self.N(*self.on(q, a, self.lo[a])), self.N(*self.on(q, a, self.hi[a])), self.hi[a] - self.lo[a] >= 2)))
        # attributes: any one of nodes, one of edges
        self.HN, self.VN = fn("node_has", 3), fn("node_value", 3, NODE)
        self.HE = [fn(f"edge{a}_has", 3) for a in AX] + [fn(f"pedge{a}_has", 2) for a in AX]
        self.VE = [fn(f"edge{a}_value", 3, NODE) for a in AX] + [fn(f"pedge{a}_value", 2, NODE) for a in AX]
        self.NP, self.VP = [fn(f"edge{a}_flag", 3) for a in AX], [z3.Bool("flagged")]
        g = self.g = models.new_graph(e, e.lookup(EG))
        d = g.store.data
        v, V = self.triple()
        d["%nodes"] = [Entry(tuple(v), self.N(*v), True, key=V)]
        d["%nattr:any"] = [Entry(tuple(v), z3.And(self.N(*v), self.HN(*v)), SRef(self.VN(*v)), key=V)]
        d["%edges"], d["%eattr:any"], d["%eattr:periodic"] = [], [], []
        for a in AX:
            v, V = self.triple()
            W = tuple(SNum(x) for x in self.up(v, a))
            k = models.EdgeKey(V, W)
            d["%edges"].append(Entry(tuple(v), self.U[a](*v), True, key=k))
            d["%eattr:any"].append(Entry(tuple(v), z3.And(self.U[a](*v), self.HE[a](*v)), SRef(self.VE[a](*v)), key=k))
            # unit edges may have the attribute, then it is false
            d["%eattr:periodic"].append(Entry(tuple(v), z3.And(self.U[a](*v), self.NP[a](*v)), False, key=k))
            q = [z3.Int(fresh_name("q")) for _ in range(2)]
            k = models.EdgeKey(*[tuple(SNum(x) for x in self.on(q, a, c[a])) for c in (self.lo, self.hi)])
            d["%edges"].append(Entry(tuple(q), self.P[a](*q), True, key=k))
            d["%eattr:any"].append(Entry(tuple(q), z3.And(self.P[a](*q), self.HE[3 + a](*q)), SRef(self.VE[3 + a](*q)), key=k))
            d["%eattr:periodic"].append(Entry(tuple(q), self.P[a](*q), True, key=k))
        g.store.meta["edge_chunks"] = self.edge_chunks
        for n in ("to_indices", "to_points", "adj_mat", "macro_to_micro"):
            e.obj_set(g, n, None)
        e.obj_set(g, "_macronodes", False)

    def triple(self):
        v = [z3.Int(fresh_name("v")) for _ in AX]
        return v, tuple(SNum(x) for x in v)

    @staticmethod
    def up(u, a, k=1):
        return [x + k if b == a else x for b, x in zip(AX, u)]

    @staticmethod
    def on(q, a, c):
        q = list(q)
        return q[:a] + [c] + q[a:]

    def edge_chunks(self, e, g):
        out = []
        num = lambda p: tuple(SNum(x) for x in p)
        for a in AX:
            for way in (True, False):
                v, V = self.triple()
                o = self.O[a](*v)
                ends = (V, num(self.up(v, a)))
                out.append(Chunk(v, z3.And(self.U[a](*v), o if way else z3.Not(o)), ends if way else ends[::-1]))
                q = [z3.Int(fresh_name("q")) for _ in range(2)]
                o = self.Q[a](*q)
                ends = (num(self.on(q, a, self.lo[a])), num(self.on(q, a, self.hi[a])))
                out.append(Chunk(q, z3.And(self.P[a](*q), o if way else z3.Not(o)), ends if way else ends[::-1]))
        return out

    def unit_or_periodic(self, u, a, s):
        """(by a unit edge, by a periodic edge): u has an edge whose micronode is displaced by s along a."""
        q = [x for b, x in zip(AX, u) if b != a]
        return (self.U[a](*u), z3.And(u[a] == self.hi[a], self.P[a](*q))) if s > 0 else \
               (self.U[a](*self.up(u, a, -1)), z3.And(u[a] == self.lo[a], self.P[a](*q)))

    def slot(self, u, a, s):
        return z3.Or(*self.unit_or_periodic(u, a, s))

    def degree(self, u):
        return z3.Sum([z3.If(self.slot(u, a, s), 1, 0) for a in AX for s in (1, -1)])


class Points:
    """A nonempty list of nodes of an unknown order, each any number of times."""

    def __init__(self, e, members, copies):
        self.members, self.copies, self.n = members, copies, z3.Int("n_perfect")
        e.assume(self.n > 0)

    def chunks(self, e):
        v, c = [z3.Int(fresh_name("m")) for _ in AX], z3.Int(fresh_name("copy"))
        return [Chunk([*v, c], z3.And(self.members(*v), c >= 0, c < self.copies(*v)), tuple(SNum(x) for x in v))]

    def length(self, e):
        return SNum(self.n)

    def truth(self, e):
        return True

    def contains(self, e, x):
        if not isinstance(x, tuple) or len(x) != 3 or any(lift_num(y).sort() != I for y in x):
            raise Unsupported("membership in the perfect points")
        return self.members(*[lift_num(y) for y in x])


def unit(t, pad, perfect, method):
    e = t.e
    e.reals = True
    L = Lattice(t)
    g = L.g
    disp = z3.Real("disp")
    e.assume(z3.And(disp > 0, disp < z3.Q(49, 100)))
    gd = e.new_dict([("extra", 5)])
    PF = lambda *u: z3.BoolVal(False)
    if perfect == "some":
        PF, copies = z3.Function("perfect", I, I, I, B), z3.Function("copies", I, I, I, I)
        u = [z3.Int(f"u{a}") for a in AX]
        law("perfect", u, z3.Implies(PF(*u), z3.And(L.N(*u), copies(*u) >= 1)))
        e.dict_set(gd, "perfect_points", Points(e, PF, copies))
    elif perfect == "empty":
        e.dict_set(gd, "perfect_points", e.new_list())
    e.obj_set(g, "graph", gd)
    snap = {n: [(x.vars, x.guard, x.value) for x in es] for n, es in g.store.data.items() if n.startswith("%")}

    def case(m):
        d = m.eval(disp, model_completion=True)
        d = float(d.as_fraction()) if z3.is_rational_value(d) else 0.2
        return dict(b="custom" if not pad else "primal", d=[3, 3, 3], pad=pad, disp=min(max(d, 1e-6), 0.489), seed=7)
    t.case = case
    kw = dict(disp=SNum(disp), pad_boundary=pad)
    M = e.call(e.getattr(g, "macronize"), [], kw) if method else e.call(e.lookup(EGM + "macronize"), [g], kw)
    t.no_raise()
    if not isinstance(M, PObj) or "graph" not in M.store.meta:
        raise Unsupported("form of the result")
    table = e.getitem(e.getattr(M, "graph"), "macro_dict")
    if method:
        t.prove("an EGraph with macronodes", M.cls.qual == EG and zb(e.truth(e.getattr(M, "_macronodes"))))
        table2 = e.force(e.getattr(M, "macro_to_micro"))
        t.prove("the table of the graph", isinstance(table2, PDict) and table2.store is e.force(table).store)
    table = e.force(table)
    if not isinstance(table, PDict):
        raise Unsupported("form of the macronode table")
    # the displacement
    rs = [r for x, k, r in e.rounded]
    if len(rs) > 1:
        raise Unsupported("several displacements")
    r = rs[0] if rs else disp
    if rs and not z3.simplify(e.rounded[0][0]).eq(disp) and t.quick([h for h in t.hyps() if not z3.is_quantifier(h)] + [e.rounded[0][0] != disp]) != z3.unsat:
        r = -r
    t.prove("displacement between 0 and a half", z3.And(r > 0, r < z3.Q(1, 2)))
    t.prove("displacement differs from that of padding", z3.And(r > disp / 2, r < disp * 2))
    rfacts = [r > disp / 2, r > 0, r < z3.Q(1, 2), disp > 0]
    u = [z3.Int(f"u{a}") for a in AX]
    real = lambda x: z3.ToReal(x) if x.sort() == I else x
    micro = lambda u, a, s, off=r: tuple(SNum(real(x) + s * off) if b == a else SNum(real(x)) for b, x in zip(AX, u))
    eqp = lambda p, q: zb(e.eq(p, q))
    nrm = lambda v: tuple(SNum(real(lift_num(x))) for x in v)
    dirs = [(a, s) for a in AX for s in (1, -1)]
    deg = L.degree(u)
    padded = lambda u, a: z3.And(L.N(*u), a + 1 <= 4 - L.degree(u)) if pad else z3.BoolVal(False)
    # 1. nodes
    for a, s in dirs:
        t.prove(f"a micronode for every edge end ({a},{s})", z3.Implies(L.slot(u, a, s), models.graph_has_node(e, M, micro(u, a, s))))
        f, v = models.graph_read(e, M, "%nattr:any", micro(u, a, s))
        t.prove(f"attributes of micronodes ({a},{s})", z3.Implies(L.slot(u, a, s), zb(f) == L.HN(*u)))
        if not is_false(f):
            t.prove(f"values of attributes of micronodes ({a},{s})", z3.Implies(z3.And(L.slot(u, a, s), L.HN(*u)), eqp(v, SRef(L.VN(*u)))))
    for a in AX if pad else ():
        p = micro(u, a, 1, disp / 2)
        t.prove(f"padding node {a}", z3.Implies(padded(u, a), models.graph_has_node(e, M, p)))
        f, v = models.graph_read(e, M, "%nattr:any", p)
        t.prove(f"attributes of padding nodes {a}", z3.Implies(padded(u, a), zb(f) == L.HN(*u)))
        if not is_false(f):
            t.prove(f"values of attributes of padding nodes {a}", z3.Implies(z3.And(padded(u, a), L.HN(*u)), eqp(v, SRef(L.VN(*u)))))

    def rd(p):
        return [z3.ToInt(lift_num(x) + z3.Q(1, 2)) if lift_num(x).sort() != I else lift_num(x) for x in p]

    def kind(p):
        """p is a micronode or a padding node."""
        c = rd(p)
        return z3.Or(*[z3.And(L.slot(c, a, s), eqp(nrm(p), micro(c, a, s))) for a, s in dirs], *[z3.And(padded(c, a), eqp(nrm(p), micro(c, a, 1, disp / 2))) for a in AX if pad])

    for i, en in enumerate(M.store.data["%nodes"]):
        if en.op == "del":
            raise Unsupported("removed nodes")
        t.prove(f"no other nodes {i}", z3.Implies(zb(en.guard), kind(en.key)), rfacts)
    # 2. edges
    for a in AX:
        q = [x for b, x in zip(AX, u) if b != a]
        for what, g0, ends, H, V in (("unit", L.U[a](*u), (micro(u, a, 1), micro(L.up(u, a), a, -1)), L.HE[a](*u), L.VE[a](*u)),
                                     ("periodic", L.P[a](*q), (micro(L.on(q, a, L.lo[a]), a, -1), micro(L.on(q, a, L.hi[a]), a, 1)), L.HE[3 + a](*q), L.VE[3 + a](*q))):
            t.prove(f"a pair of micronodes for every {what} edge {a}", z3.Implies(g0, models.graph_has_edge(e, M, *ends)))
            k = models.EdgeKey(*ends)
            f, v = models.graph_read(e, M, "%eattr:any", k)
            t.prove(f"attributes of {what} edges {a}", z3.Implies(g0, zb(f) == H))
            if not is_false(f):
                t.prove(f"values of attributes of {what} edges {a}", z3.Implies(z3.And(g0, H), eqp(v, SRef(V))))
            f, v = models.graph_read(e, M, "%eattr:periodic", k)
            t.prove(f"periodicity of {what} edges {a}", z3.Implies(g0, zb(f) == (L.NP[a](*u) if what == "unit" else True)))
            if not is_false(f):
                t.prove(f"value of periodicity of {what} edges {a}", z3.Implies(z3.And(g0, zb(f)), zb(e.eq(v, what == "periodic"))))

    def edge_kind(x, y):
        c, d = rd(x), rd(y)
        fs = []
        for p, pr, q, qr in ((nrm(x), c, nrm(y), d), (nrm(y), d, nrm(x), c)):
            for a in AX:
                rest = [z for b, z in zip(AX, pr) if b != a]
                fs.append(z3.And(L.U[a](*pr), eqp(p, micro(pr, a, 1)), eqp(q, micro(L.up(pr, a), a, -1))))
                fs.append(z3.And(L.P[a](*rest), eqp(p, micro(L.on(rest, a, L.lo[a]), a, -1)), eqp(q, micro(L.on(rest, a, L.hi[a]), a, 1))))
        return z3.Or(*fs)

    for i, en in enumerate(M.store.data["%edges"]):
        t.prove(f"no other edges {i}", z3.Implies(zb(en.guard), edge_kind(en.key.u, en.key.v)), rfacts)
    for f in [f for f in M.store.data if f.startswith("%nattr:") and f != "%nattr:any"] + [f for f in M.store.data if f.startswith("%eattr:") and f not in ("%eattr:any", "%eattr:periodic")]:
        t.prove(f"no other attributes: {f}", Not(Or(*[exists_(en) for en in M.store.data[f]])))
    # no micronode lies on two edges, and all micronodes differ: consequences of the form of nodes and edges
    w = [x + z3.Int(f"k{a}") for a, x in zip(AX, u)]  # any triple, by its distance
    for a, s in dirs:
        un, pe = L.unit_or_periodic(u, a, s)
        t.prove(f"one edge per micronode ({a},{s})", z3.Not(z3.And(un, pe)))
        for b, s2 in dirs:
            if (a, s) <= (b, s2):
                t.prove(f"different micronodes ({a},{s}) ({b},{s2})", z3.Implies(eqp(micro(u, a, s), micro(w, b, s2)), z3.And(*[x == y for x, y in zip(u, w)], z3.BoolVal((a, s) == (b, s2)))), rfacts, qf=True)
        for b in AX if pad else ():
            t.prove(f"padding nodes differ ({a},{s}) {b}", z3.Not(eqp(micro(u, a, s), micro(w, b, 1, disp / 2))), rfacts, qf=True)
    # 3. the table
    U3 = tuple(SNum(x) for x in u)
    f, l = e.dict_get(table, U3)
    t.prove("the table lists the original nodes", zb(f) == L.N(*u))
    X = [z3.Real(f"x{a}") for a in AX]
    f, _ = e.dict_get(table, tuple(SNum(x) for x in X))
    t.prove("the table lists nothing else", z3.Implies(zb(f), z3.And(*[x == z3.ToReal(z3.ToInt(x)) for x in X], L.N(*[z3.ToInt(x) for x in X]))))
    with e.guard(L.N(*u)):
        l = e.force(e.getitem(table, U3))
        if not isinstance(l, PList):
            raise Unsupported("form of the macronode table")
        for a, s in dirs:
            t.prove(f"micronodes in the table ({a},{s})", zb(e.contains(l, micro(u, a, s))) == L.slot(u, a, s), rfacts)
        for a in AX if pad else ():
            t.prove(f"padding nodes in the table {a}", zb(e.contains(l, micro(u, a, 1, disp / 2))) == padded(u, a), rfacts)
        n = lift_num(e.call(e.builtin("len"), [l]))
        t.prove("as many as neighbours" if not pad else "four of them", n == (z3.If(deg < 4, 4, deg) if pad else deg))
        for i, en in enumerate(e.ents(l)):
            c = rd(en.value)
            t.prove(f"nothing else in the table {i}", z3.Implies(zb(en.guard), z3.And(kind(en.value), *[x == y for x, y in zip(c, u)])), rfacts)
    # 4. graph attributes
    gd2 = e.getattr(M, "graph")
    t.prove("graph attributes are kept", zb(e.eq(e.getitem(gd2, "extra"), 5)))
    f, pp = e.dict_get(gd2, "perfect_points")
    if perfect == "some":
        t.prove("perfect points are kept", zb(f))
        for a, s in dirs:
            t.prove(f"micronodes of perfect points ({a},{s})", z3.Implies(L.slot(u, a, s), zb(e.contains(pp, micro(u, a, s))) == PF(*u)), rfacts)
        for i, c in enumerate(e.iterate(pp)):
            with e.in_chunk(c):
                q = rd(c.value)
                t.prove(f"only micronodes of perfect points {i}", z3.And(kind(c.value), PF(*q)), rfacts)
    else:
        t.prove("no perfect points", z3.Not(zb(f)) if perfect is None else z3.Implies(zb(f), Not(e.truth(pp)) if not is_false(f) else True))
    now = {n: [(x.vars, x.guard, x.value) for x in es] for n, es in g.store.data.items() if n.startswith("%")}
    t.prove("the original graph is left alone", set(now) == set(snap) and all(len(now[n]) == len(snap[n]) and all(p is q for x, y in zip(now[n], snap[n]) for p, q in zip(x, y)) for n in now))
    t.prove("its attributes are left alone", e.getattr(g, "graph") is gd or e.getattr(g, "graph").store is gd.store)
    t.prove("no attributes are added to it", zb(Not(e.contains(gd, "macro_dict"))))
    if perfect == "some":
        pp0 = e.getitem(gd, "perfect_points")
        t.prove("its perfect points are left alone", isinstance(pp0, Points))
    t.reach("unit edges", L.U[0](*u))
    t.reach("periodic edges", L.P[1](u[0], u[2]))


def exists_(en):
    from pv.logic import exists

    return exists(list(en.vars), zb(en.guard)) if en.vars else en.guard


def refuse_unit(t, method):
    e = t.e
    e.reals = True
    L = Lattice(t)
    e.obj_set(L.g, "graph", e.new_dict())
    disp = z3.Real("disp")
    e.assume(z3.Or(disp <= 0, disp >= z3.Q(1, 2)))
    t.case = lambda m: dict(b="primal", d=[2, 2, 2], pad=False, disp=0.5 if z3.is_true(m.eval(disp > 0)) else -0.1, bad=True, seed=1)
    kw = dict(disp=SNum(disp))
    e.call(e.getattr(L.g, "macronize"), [], kw) if method else e.call(e.lookup(EGM + "macronize"), [L.g], kw)
    t.prove("displacements outside of (0, 1/2) are refused", t.raised("ValueError"))
    u = [z3.Int(f"u{a}") for a in AX]
    t.reach("a graph with edges", L.U[0](*u))


def units():
    us = []
    for pad in (False, True):
        for perfect in (None, "empty", "some"):
            us.append(Unit(f"macronize, {'padded' if pad else 'plain'}, perfect points: {perfect}", unit, (pad, perfect, False)))
        us.append(Unit(f"EGraph.macronize, {'padded' if pad else 'plain'}", unit, (pad, "some", True)))
    us += [Unit(f"refusals{' of the method' if m else ''}", refuse_unit, (m,)) for m in (False, True)]
    return us
