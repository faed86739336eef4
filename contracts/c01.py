"""C01: RHG_graph."""
from pv.prove import Unit
from contracts.geometry import *


def setup(t, bs):
    e = t.e
    d = [z3.Int(f"d{i}") for i in range(3)]
    for x in d:
        e.assume(x >= 2)
    t.small = d
    t.case = lambda m: dict(d=[m.eval(x, model_completion=True).as_long() for x in d], b=list(bs), pol="hash")
    return e, d


def graph_unit(t, bs, pol="symbolic", name=None, form="tuple"):
    e, d = setup(t, bs)
    if form == "int":
        e.assume(d[0] == d[1])
        e.assume(d[1] == d[2])
    polarity = None
    POL = z3.Function("POL", *([z3.IntSort()] * 6), z3.IntSort())
    if pol == "symbolic":
        # any polarity function of the edge's end points
        def f(en, args, kw):
            u, v = args[0]
            return SNum(POL(*[lift_num(x) for x in u + v]))
        polarity = ModelFn("polarity parameter", f)
    D = [SNum(x) for x in d]
    dims = {"tuple": lambda: tuple(D), "list": lambda: e.new_list(D), "array": lambda: e.models.arr(D), "int": lambda: D[0]}[form]()
    kw = {} if polarity is None else {"polarity": polarity}
    G = e.call(e.lookup(SC + "RHG_graph"), [dims, name if name else e.new_list(bs)], kw)
    t.no_raise()
    v = [z3.Int(f"v{i}") for i in range(3)]
    u = [z3.Int(f"u{i}") for i in range(3)]
    V, U = tuple(SNum(x) for x in v), tuple(SNum(x) for x in u)
    M = e.models
    inn, p2, p1 = is_node(v, d, bs)
    has = zb(M.graph_has_node(e, G, V))
    t.prove("vertices", has == z3.And(inn, z3.Or(p2, p1)))
    t.reach("a vertex", has)
    with e.guard(has):
        typ = e.getitem(e.getitem(e.getattr(G, "nodes"), V), "type")
        t.prove("type primal", zb(e.eq(typ, "primal")) == p2)
        t.prove("type dual", zb(e.eq(typ, "dual")) == p1)
    # edges
    inu, u2, u1 = is_node(u, d, bs)
    he = zb(M.graph_has_edge(e, G, U, V))
    plain, wrap = adjacent(u, v, d, bs)
    pd = z3.Or(z3.And(u2, p1), z3.And(u1, p2))
    t.prove("edges", he == z3.And(inn, inu, pd, z3.Or(plain, wrap)))
    t.reach("an edge", he)
    with e.guard(he):
        data = e.getitem(e.getattr(G, "edges"), (U, V))
        per = e.contains(data, "periodic")
        t.prove("periodic mark", zb(per) == wrap)
        w = e.getitem(data, "weight")
        if pol == "none":
            t.prove("weight 1", e.eq(w, 1))
        else:
            t.prove("weight is the polarity of the end points",
                    z3.Or(lift_num(w) == POL(*u, *v), lift_num(w) == POL(*v, *u)))


def polarity_unit(t):
    """alternating_polarity: +1/-1, and balanced over the four edges at any vertex, whichever end comes first."""
    e = t.e
    v = [z3.Int(f"v{i}") for i in range(3)]
    d = [z3.Int(f"d{i}") for i in range(3)]
    for x, y in zip(v, d):
        e.assume(y >= 2)
        e.assume(x >= 0)
        e.assume(x <= 2 * y - 1)
    odd = [x % 2 == 1 for x in v]
    e.assume(z3.Or(z3.PbEq([(o, 1) for o in odd], 2), z3.PbEq([(o, 1) for o in odd], 1)))
    two = z3.PbEq([(o, 1) for o in odd], 2)
    f = e.lookup(SC + "alternating_polarity")
    w = {}
    for a in range(3):
        m = 2 * d[a]
        for s in (1, -1):
            n = [v[i] if i != a else z3.If(v[a] + s >= m, 0, z3.If(v[a] + s < 0, m - 1, v[a] + s)) for i in range(3)]
            for k in (0, 1):
                x, y = tuple(SNum(z) for z in v), tuple(SNum(z) for z in n)
                with e.guard(two == odd[a]):
                    r = e.call(f, [(x, y) if k == 0 else (y, x)])
                w[a, s, k] = lift_num(r)
                t.prove(f"axis {a} step {s} order {k}: +1 or -1", z3.Implies(two == odd[a], z3.Or(w[a, s, k] == 1, w[a, s, k] == -1)))
    t.no_raise()
    import itertools as it
    for a, b in ((0, 1), (0, 2), (1, 2)):
        for ks in it.product((0, 1), repeat=4):
            ws = [w[a, 1, ks[0]], w[a, -1, ks[1]], w[b, 1, ks[2]], w[b, -1, ks[3]]]
            t.prove(f"two +1 and two -1 (axes {a}{b}, orders {ks})",
                    z3.Implies(z3.And(two == odd[a], two == odd[b]), z3.Sum(ws) == 0))


NAMED = {"open_primal": ("primal", "dual", "primal"), "open_dual": ("primal", "dual", "dual"), "primal": ("primal",) * 3,
         "dual": ("dual",) * 3, "periodic": ("periodic",) * 3, "periodic_primal": ("periodic", "periodic", "primal"),
         "periodic_dual": ("periodic", "periodic", "dual")}


def units():
    out = [Unit("alternating_polarity", polarity_unit)]
    for bs in itertools.product(TYPES, repeat=3):
        out.append(Unit("RHG_graph " + "/".join(bs), graph_unit, (bs, "symbolic")))
    for n, bs in NAMED.items():
        out.append(Unit(f"RHG_graph '{n}'", graph_unit, (bs, "none", n)))
    out.append(Unit("RHG_graph int dims", graph_unit, (("primal", "dual", "dual"), "symbolic", "open_dual", "int")))
    out.append(Unit("RHG_graph list dims", graph_unit, (("primal", "dual", "periodic"), "none", None, "list")))
    out.append(Unit("RHG_graph array dims", graph_unit, (("primal", "dual", "periodic"), "none", None, "array")))
    return out
