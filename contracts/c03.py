"""C03: the stabilizer graph of any code satisfying the contract of SurfaceCode."""
from pv.prove import Unit
from pv.logic import exists
from contracts.geometry import *
from pv import models, logic

SG = "flamingpy.codes.graphs.stabilizer_graph."
BIT = z3.Function("bit", *[z3.IntSort()] * 3, z3.BoolSort())
WT = z3.Function("weight", *[z3.IntSort()] * 3, z3.RealSort())


class BoundPoints:
    """A list of 2 n points: the lower plane, then the upper one (postcondition of identify_boundary, C02)."""

    def __init__(self, e, ax, d, bs, ec):
        self.n = z3.Int("boundary_size")
        e.assume(self.n >= 1)
        self.ax, self.d, self.bs, self.ec = ax, d, bs, ec
        lo, hi = extent(d[ax], bs[ax])
        self.low, self.high = self.part(e, "low", lo), self.part(e, "high", hi)

    def part(self, e, name, x):
        v = [z3.Int(fresh_name(name)) for _ in range(3)]
        return e.new_list(entries=[Entry(v, z3.And(is_syndrome(v, self.d, self.bs, self.ec), v[self.ax] == x), tuple(SNum(y) for y in v))])

    def length(self, e):
        return SNum(2 * self.n)

    def truth(self, e):
        return True

    def chunks(self, e):
        return e.iterate(self.low) + e.iterate(self.high)

    def getitem(self, e, i):
        if isinstance(i, slice) and i.step is None:
            at = lambda x, k: x is not None and e.entails(lift_num(x) == k)
            if (i.start is None or at(i.start, 0)) and at(i.stop, self.n):
                return e.new_list(entries=e.ents(self.low))
            if at(i.start, self.n) and (i.stop is None or at(i.stop, 2 * self.n)):
                return e.new_list(entries=e.ents(self.high))
        raise Unsupported("part of the boundary points")


def the_code(t, ec, b):
    e = t.e
    code, d, bs = spec_code(t, ec, b, attrs=dict(bit_val=lambda *w: SNum(bool_to_bit(BIT(*w))), weight=lambda *w: SNum(WT(*w))), stabilizers=True)
    ax = None if "periodic" in bs else bs.index(ec)
    e.obj_set(code, ec + "_bound_points", e.new_list() if ax is None else BoundPoints(e, ax, d, bs, ec))
    ch, = e.iterate(e.getattr(code, ec + "_stabilizers"))

    def stab(c):
        return subst_value(ch.value, list(zip(ch.vars, c)))
    return code, d, bs, ax, stab


def unit(t, ec, b, cls):
    e = t.e
    t.case = lambda m: dict(d=dims_of(m, t.small), ec=ec, b=b, sb="networkx" if cls[0] == "N" else "rustworkx", seed=5)
    code, d, bs, ax, stab = the_code(t, ec, b)
    sg = e.call(e.lookup(SG + cls), [ec, code])
    t.no_raise()
    call = lambda name, *a: e.call(e.getattr(sg, name), list(a))
    c, _ = point("c")
    c2, _ = point("k")
    p, P = point("p")
    p2, P2 = point("r")
    cell, cell2 = is_cell(c, d, bs, ec), is_cell(c2, d, bs, ec)
    lo, hi = extent(d[ax], bs[ax]) if ax is not None else (None, None)
    syn = is_syndrome(p, d, bs, ec)
    low = z3.And(syn, p[ax] == lo) if ax is not None else z3.BoolVal(False)
    high = z3.And(syn, p[ax] == hi) if ax is not None else z3.BoolVal(False)
    bp = z3.Or(low, high)
    nodes = call("nodes")
    has = lambda x: zb(e.contains(nodes, x))
    t.prove("'low' and 'high' are nodes", And(has("low"), has("high")))
    with e.guard(cell):
        t.prove("every stabilizer is a node", has(stab(c)))
    t.prove("the points that are nodes are the boundary points", has(P) == bp)
    link = lambda x, y: has_edge(e, sg, x, y)
    with e.guard(z3.And(cell, cell2)):
        share = z3.Or(*[z3.And(in_cell(q, c, d, bs), in_cell(q, c2, d, bs)) for q in [step(c, a, s, d, bs) for a, s in DIRS]])
        linked = link(stab(c), stab(c2))
        t.prove("linked stabilizers share a qubit", z3.Implies(linked, z3.And(z3.Not(eq3(c, c2)), share)), qf=True)
        t.prove("stabilizers that share a qubit are linked", z3.Implies(z3.And(z3.Not(eq3(c, c2)), share), linked), qf=True)
    with e.guard(cell):
        t.prove("a stabilizer is linked exactly to its boundary points", link(stab(c), P) == z3.And(bp, in_cell(p, c, d, bs)))
        t.prove("stabilizers are not linked to the connectors", z3.Not(z3.Or(link(stab(c), "low"), link(stab(c), "high"))))
    t.prove("'low' is linked to the lower plane", link("low", P) == low)
    t.prove("'high' is linked to the upper plane", link("high", P) == high)
    t.prove("the connectors are not linked", z3.Not(link("low", "high")))
    t.prove("boundary points are not linked", z3.Not(link(P, P2)))
    world = dict(e=e, d=d, bs=bs, ec=ec, stab=stab, call=call, link=link, low=low, high=high, bp=bp, ax=ax,
                 c=c, k=c2, p=p, P=P, cell=cell, cell2=cell2, p2=p2, P2=P2, sg=sg, code=code)
    common(t, **world)
    queries(t, **world)
    t.prove("has_bound_points", zb(e.truth(call("has_bound_points"))) == z3.BoolVal(ax is not None))
    odd(t, **world)
    weights(t, **world)
    converted(t, cls, **world)


def common(t, e, d, bs, c, k, p, P, stab, call, link, bp, cell, cell2, low, high, ax, **_):
    """Every edge between real nodes carries a qubit of both ends, the others none."""
    with e.guard(z3.And(cell, cell2, link(stab(c), stab(k)))):
        for x, y in ((c, k), (k, c)):
            q = e.getitem(call("edge_data", stab(x), stab(y)), "common_vertex")
            q = [lift_num(z) for z in e.unpack(q)]
            t.prove("the edge carries a qubit of both stabilizers", z3.And(in_cell(q, c, d, bs), in_cell(q, k, d, bs)), qf=True)
    with e.guard(z3.And(cell, link(stab(c), P))) :
        for x, y in ((stab(c), P), (P, stab(c))) if ax is not None else ():
            t.prove("the edge to a boundary point carries it", e.eq(e.getitem(call("edge_data", x, y), "common_vertex"), P))
    for n, g in (("low", low), ("high", high)) if ax is not None else ():
        with e.guard(g):
            t.prove(f"edges at '{n}' carry no qubit", e.eq(e.getitem(call("edge_data", n, P), "common_vertex"), None))
    t.no_raise("edge data exist")


def queries(t, e, d, bs, ec, c, k, p, P, p2, P2, stab, call, link, bp, cell, cell2, low, high, sg, ax, **_):
    """nodes, neighbours and edges as reported by the methods."""
    share = link(stab(c), stab(k))
    for name, which in (("neighbors", lambda n: (lambda x, y: e.contains(call("neighbors", x), y))),
                        ("out_edges", lambda n: (lambda x, y: Or(e.contains(call("out_edges", x), (x, y)), e.contains(call("out_edges", x), (y, x)))))):
        f = which(name)
        with e.guard(z3.And(cell, cell2)):
            t.prove(f"{name} of a stabilizer: stabilizers", zb(f(stab(c), stab(k))) == share, qf=True)
        with e.guard(cell):
            t.prove(f"{name} of a stabilizer: boundary points", zb(f(stab(c), P)) == link(stab(c), P), qf=True)
            t.prove(f"{name} of a stabilizer: no connectors", Not(Or(f(stab(c), "low"), f(stab(c), "high"))), qf=True)
        t.prove(f"{name} of 'low'", zb(f("low", P)) == low, qf=True)
        t.prove(f"{name} of 'high'", zb(f("high", P)) == high, qf=True)
        t.prove(f"{name} of connectors: connectors", Not(Or(f("low", "high"), f("high", "low"))), qf=True)
        with e.guard(cell):
            t.prove(f"{name} of connectors: no stabilizers", Not(Or(f("low", stab(c)), f("high", stab(c)))), qf=True)
        if ax is None:
            continue
        with e.guard(bp):
            with e.guard(cell2):
                t.prove(f"{name} of a boundary point: stabilizers", zb(f(P, stab(k))) == link(stab(k), P), qf=True)
            t.prove(f"{name} of a boundary point: connectors", And(zb(f(P, "low")) == low, zb(f(P, "high")) == high), qf=True)
            t.prove(f"{name} of a boundary point: no boundary points", Not(f(P, P2)), qf=True)
    for name in ("edges", "real_edges"):
        es = call(name)
        f = lambda x, y: zb(Or(e.contains(es, (x, y)), e.contains(es, (y, x))))
        with e.guard(z3.And(cell, cell2)):
            t.prove(f"{name}: stabilizers", f(stab(c), stab(k)) == share, qf=True)
        with e.guard(cell):
            t.prove(f"{name}: boundary points", f(stab(c), P) == link(stab(c), P), qf=True)
            t.prove(f"{name}: stabilizers and connectors", Not(Or(f(stab(c), "low"), f(stab(c), "high"))), qf=True)
        t.prove(f"{name}: connectors", z3.And(f("low", P) == low, f("high", P) == high) if name == "edges" else z3.Not(z3.Or(f("low", P), f("high", P))), qf=True)
        t.prove(f"{name}: nothing else", Not(Or(f("low", "high"), f(P, P2))), qf=True)
    for name, want in (("bound_points", bp), ("real_nodes", bp)):
        t.prove(f"{name}: points", zb(e.contains(call(name), P)) == want, qf=True)
        t.prove(f"{name}: no connectors", Not(Or(e.contains(call(name), "low"), e.contains(call(name), "high"))))
    with e.guard(cell):
        t.prove("real_nodes: stabilizers", e.contains(call("real_nodes"), stab(c)), qf=True)
    t.prove("low_bound_points", zb(e.contains(e.getattr(sg, "low_bound_points"), P)) == low, qf=True)
    t.prove("high_bound_points", zb(e.contains(e.getattr(sg, "high_bound_points"), P)) == high, qf=True)
    t.no_raise("queries succeed")


def weights(t, e, d, bs, c, k, p, P, stab, call, link, bp, cell, cell2, low, high, code, ax, **_):
    """assign_weights gives every edge the weight of its qubit, on any state of the stabilizer graph."""
    call("assign_weights", code)
    t.no_raise("weights can be assigned")
    with e.guard(z3.And(cell, cell2, link(stab(c), stab(k)))):
        data = call("edge_data", stab(c), stab(k))
        q = [lift_num(z) for z in e.unpack(e.getitem(data, "common_vertex"))]
        t.prove("an edge between stabilizers weighs as its qubit", e.eq(e.getitem(data, "weight"), SNum(WT(*q))), qf=True)
        t.prove("and still carries a qubit of both", z3.And(in_cell(q, c, d, bs), in_cell(q, k, d, bs)), qf=True)
    with e.guard(z3.And(cell, link(stab(c), P))):
        if ax is not None:
            t.prove("an edge to a boundary point weighs as the point", e.eq(e.getitem(call("edge_data", stab(c), P), "weight"), SNum(WT(*p))), qf=True)
    for n, g in (("low", low), ("high", high)) if ax is not None else ():
        with e.guard(g):
            t.prove(f"edges at '{n}' weigh 0", e.eq(e.getitem(call("edge_data", n, P), "weight"), 0), qf=True)
    t.no_raise("every edge has a weight")


def odd(t, e, d, bs, c, P, stab, call, cell, **_):
    """odd_parity_stabilizers are those with an odd number of bit values 1."""
    CELL = z3.Function("cell_parity", *[z3.IntSort()] * 3, z3.BoolSort())

    def identify(en, agg, sym):
        cc = en.path_vars()[-3:]
        if agg.kind not in ("xor", "sum") or len(agg.vars) != 3 or len(cc) != 3:
            return
        g, x = zb(agg.guard), agg.value
        if agg.kind == "sum":
            if not (z3.is_expr(x) and x.sort() == z3.IntSort() and en.entails(z3.Implies(g, z3.Or(x == 0, x == 1)))):
                return
            x = x == 1
        # membership in the cell, given a position; no need for the code's other assumptions
        r = t.quick([*en.assumptions, zb(en.path_formula()), z3.And(g, zb(x)) != z3.And(in_cell(agg.vars, cc, d, bs), BIT(*agg.vars))], 10)
        if r == z3.unsat and {x.get_id() for x in agg.params} <= {x.get_id() for x in cc}:
            f = (sym if agg.kind == "xor" else sym % 2 == 1) == CELL(*cc)
            logic.DEFS[agg.sym.name()] = (agg.params, z3.Implies(zb(en.path_formula()), f))
    e.on_aggregate = identify
    l = call("odd_parity_stabilizers")
    e.on_aggregate = None
    with e.guard(cell):
        t.prove("odd-parity stabilizers", zb(e.contains(l, stab(c))) == CELL(*c), qf=True)
    for n in ("low", "high", P):
        t.prove("nothing else has odd parity", Not(e.contains(l, n)))
    t.no_raise("parities exist")


def converted(t, cls, e, d, bs, ec, c, k, p, P, p2, P2, stab, call, link, bp, cell, cell2, low, high, sg, ax, **_):
    """to_nx keeps the edges with their qubits and weights."""
    nxg = call("to_nx")
    t.no_raise("conversion succeeds")
    if e.same(nxg, sg) if hasattr(e, "same") else nxg == sg:
        t.prove("to_nx of the networkx backend", cls == "NxStabilizerGraph")
        return
    data = lambda x, y: e.call(e.getattr(nxg, "edge_data"), [x, y])
    old = lambda x, y: call("edge_data", x, y)
    lk = lambda x, y: has_edge(e, nxg, x, y)
    with e.guard(z3.And(cell, cell2)):
        t.prove("to_nx: links between stabilizers", lk(stab(c), stab(k)) == link(stab(c), stab(k)), qf=True)
        with e.guard(link(stab(c), stab(k))):
            for n in ("common_vertex", "weight"):
                t.prove(f"to_nx: {n}", e.eq(e.getitem(data(stab(c), stab(k)), n), e.getitem(old(stab(c), stab(k)), n)), qf=True)
    with e.guard(cell):
        t.prove("to_nx: links to boundary points", lk(stab(c), P) == link(stab(c), P), qf=True)
        t.prove("to_nx: no links from stabilizers to connectors", z3.Not(z3.Or(lk(stab(c), "low"), lk(stab(c), "high"))), qf=True)
        if ax is not None:
            with e.guard(link(stab(c), P)):
                for n in ("common_vertex", "weight"):
                    t.prove(f"to_nx: {n} at boundary points", e.eq(e.getitem(data(stab(c), P), n), e.getitem(old(stab(c), P), n)), qf=True)
    t.prove("to_nx: links of connectors", z3.And(lk("low", P) == low, lk("high", P) == high, z3.Not(lk("low", "high")), z3.Not(lk(P, P2))), qf=True)
    t.no_raise("to_nx: data exist")


def has_edge(e, sg, x, y):
    """The backend graph links x and y."""
    g = e.getattr(sg, "graph")
    if "rx" in g.store.meta:
        tab = e.getattr(sg, "node_to_index")
        idx = []
        for n in (x, y):
            f, v = e.dict_get(tab, n)
            if is_false(f):
                return z3.BoolVal(False)
            idx.append((f, v))
        with e.guard(And(*[f for f, _ in idx])):
            r = models.graph_has_edge(e, g, *[v for _, v in idx])
        return zb(And(r, *[f for f, _ in idx]))
    return zb(models.graph_has_edge(e, g, x, y))


def units():
    return [Unit(f"{cls} {ec} {b}", unit, (ec, b, cls)) for cls in ("NxStabilizerGraph", "RxStabilizerGraph") for ec, b in COMBOS]
