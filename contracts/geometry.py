"""Specification of the RHG lattice and of the cells of an error complex (shared by the contracts)."""
import itertools
import z3
from pv.values import *
from pv.engine import *

SC = "flamingpy.codes.surface_code."
TYPES = ("primal", "dual", "periodic")
BOUNDS = {("primal", "open"): ("primal", "dual", "dual"), ("dual", "open"): ("primal", "dual", "primal"),
          ("primal", "toric"): ("periodic", "periodic", "dual"), ("dual", "toric"): ("periodic", "periodic", "primal"),
          ("primal", "periodic"): ("periodic",) * 3, ("dual", "periodic"): ("periodic",) * 3}
COMBOS = list(BOUNDS)


def extent(d, typ):
    lo = 1 if typ == "dual" else 0
    hi = 2 * d - 2 if typ == "primal" else 2 * d - 1
    return lo, hi


def inside(v, d, bs):
    out = []
    for x, dd, b in zip(v, d, bs):
        lo, hi = extent(dd, b)
        out.append(z3.And(x >= lo, x <= hi))
    return z3.And(*out)


def odd_count(v, k):
    return z3.PbEq([(x % 2 == 1, 1) for x in v], k)


def is_node(v, d, bs):
    """(inside, type primal, type dual)"""
    return inside(v, d, bs), odd_count(v, 2), odd_count(v, 1)


def node(v, d, bs):
    i, a, b = is_node(v, d, bs)
    return z3.And(i, z3.Or(a, b))


def adjacent(u, v, d, bs):
    """(plain unit step, wrapping step) between the points."""
    plain, wrap = [], []
    for a in range(3):
        same = [u[i] == v[i] for i in range(3) if i != a]
        plain.append(z3.And(*same, z3.Or(u[a] - v[a] == 1, v[a] - u[a] == 1)))
        if bs[a] == "periodic":
            m = 2 * d[a] - 1
            wrap.append(z3.And(*same, z3.Or(z3.And(u[a] == 0, v[a] == m), z3.And(v[a] == 0, u[a] == m))))
    return z3.Or(*plain), z3.Or(*wrap) if wrap else z3.BoolVal(False)


def edge(u, v, d, bs):
    iu, u2, u1 = is_node(u, d, bs)
    iv, v2, v1 = is_node(v, d, bs)
    p, w = adjacent(u, v, d, bs)
    return z3.And(iu, iv, z3.Or(z3.And(u2, v1), z3.And(u1, v2)), z3.Or(p, w))


def step(c, a, s, d, bs):
    """c + s*e_a, wrapped around a periodic axis."""
    x = c[a] + s
    if bs[a] == "periodic":
        x = z3.If(x < 0, x + 2 * d[a], z3.If(x > 2 * d[a] - 1, x - 2 * d[a], x))
    return [x if i == a else c[i] for i in range(3)]


DIRS = [(a, s) for a in range(3) for s in (-1, 1)]


def eq3(u, v):
    return z3.And(*[x == y for x, y in zip(u, v)])


def is_cell(c, d, bs, ec):
    """c is the centre of a unit cell of the error complex."""
    return z3.And(inside(c, d, bs), *[x % 2 == (1 if ec == "primal" else 0) for x in c])


def in_cell(p, c, d, bs):
    """p is a lattice vertex on a face of the cell with centre c."""
    return z3.And(node(p, d, bs), z3.Or(*[eq3(p, step(c, a, s, d, bs)) for a, s in DIRS]))


def cells_of(p, d, bs):
    """Candidates for the centres of the cells at p."""
    return [step(p, a, s, d, bs) for a, s in DIRS]


def is_syndrome(p, d, bs, ec):
    return z3.And(node(p, d, bs), z3.Or(*[is_cell(c, d, bs, ec) for c in cells_of(p, d, bs)]))


def point(name):
    v = [z3.Int(f"{name}{i}") for i in range(3)]
    return v, tuple(SNum(x) for x in v)


def sym_dims(t, lo=2):
    e = t.e
    d = [z3.Int(f"d{i}") for i in range(3)]
    for x in d:
        e.assume(x >= lo)
    t.small = d
    return d


def dims_of(m, d):
    return [m.eval(x, model_completion=True).as_long() for x in d]


def no_stab_graph(e):
    """Stabilizer graphs are built from the attributes specified here (C03)."""
    for n in ("NxStabilizerGraph", "RxStabilizerGraph"):
        e.contracts["flamingpy.codes.graphs.stabilizer_graph." + n] = lambda en, a, k: Opaque("stabilizer graph")


def real_code(t, ec, b, lo=2, extra=None, polarity=None):
    """SurfaceCode(d, ec, b) executed from the source, without its stabilizer graphs."""
    e = t.e
    bs = BOUNDS[ec, b]
    d = sym_dims(t, lo)
    no_stab_graph(e)
    kw = {} if polarity is None else {"polarity": polarity}
    code = e.call(e.lookup(SC + "SurfaceCode"), [tuple(SNum(x) for x in d), ec, b], kw)
    return code, d, bs


BOUND_STR = {("primal", "open"): "open_dual", ("dual", "open"): "open_primal",
             ("primal", "toric"): "periodic_dual", ("dual", "toric"): "periodic_primal",
             ("primal", "periodic"): "periodic", ("dual", "periodic"): "periodic"}


def only_specified(e, o):
    """Attributes that the specification does not list are unknown (not missing)."""
    def attr(en, ob, name):
        c, m = en.find_member(ob.cls, name)
        if name in ob.store.data or m is not None or en.models.base_method(en, ob.cls, name, ob) is not None:
            return None
        for b in en.mro(ob.cls):
            if not isinstance(b, ClassVal) and en.models.base_method(en, b, name, ob) is not None:
                return None
        raise Unsupported(f"attribute {name} of an object known by its contract only")
    o.store.meta["attr"] = attr


def spec_code(t, ec, b, lo=2, attrs=(), stabilizers=False):
    """Any code satisfying the postconditions of SurfaceCode.__init__ (C01, C02); attrs: {name: terms -> value} of all nodes."""
    from pv import models
    e = t.e
    bs = BOUNDS[ec, b]
    d = sym_dims(t, lo)
    code = e.new_obj(e.lookup(SC + "SurfaceCode"))
    G = models.new_graph(e, e.lookup("flamingpy.codes.graphs.egraph.EGraph"))
    only_specified(e, code)
    only_specified(e, G)
    v, V = point("v")
    u, U = point("u")
    st = G.store
    st.data["%nodes"] = [Entry(v, node(v, d, bs), True, key=V)]
    st.data["%edges"] = [Entry(tuple(u) + tuple(v), edge(u, v, d, bs), True, key=models.EdgeKey(U, V))]
    for name, f in dict(attrs).items():
        w, W = point("w")
        st.data["%nattr:" + name] = [Entry(w, node(w, d, bs), f(*w), key=W)]
    dims = tuple(SNum(x) for x in d)
    syn = [z3.Int(f"s{i}") for i in range(3)]
    coords = e.new_list(entries=[Entry(syn, is_syndrome(syn, d, bs, ec), tuple(SNum(x) for x in syn))])
    for k, x in dict(distance=dims, dims=dims, ec=e.new_list([ec]), bound_str=BOUND_STR[ec, b], boundaries=np.array(bs),
                     graph=G, all_syndrome_coords=coords).items():
        e.obj_set(code, k, x)
    e.obj_set(code, ec + "_syndrome_coords", coords)
    if stabilizers:
        c = [z3.Int(f"c{i}") for i in range(3)]
        q = [z3.Int(f"q{i}") for i in range(3)]
        e.push_binder(c)
        e.push_guard(is_cell(c, d, bs, ec))
        mem = e.new_list(entries=[Entry(q, in_cell(q, c, d, bs), tuple(SNum(x) for x in q))])
        sub = e.call(e.getattr(G, "subgraph"), [mem])
        cube = e.call(e.lookup("flamingpy.codes.stabilizer.Stabilizer"), [sub])
        e.pop()
        e.pop()
        e.obj_set(code, ec + "_stabilizers", e.new_list(entries=[Entry(c, is_cell(c, d, bs, ec), cube)]))
    return code, d, bs
