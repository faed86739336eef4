"""The stabilizer graph as the decoders see it: any finite graph.

Nodes are of an unknown sort; the odd stabilizers are item(0), ..., item(n - 1) in the order of the graph's list.  The
shortest-path methods are used through their contracts, which contracts/c07.py proves of both implementations against
the contracts of the two Dijkstra routines."""
import z3
from pv import logic, models
from pv.models import SymList, Chunks
from contracts.absgraph import *

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SG = "flamingpy.codes.graphs.stabilizer_graph."
MG = "flamingpy.decoders.mwpm.matching."
ALG = "flamingpy.decoders.mwpm.algos."


def law(name, vs, f):
    logic.DEFS[name] = (list(vs), f)


def node(name="n"):
    v = z3.Const(fresh_name(name), NODE)
    return v, SRef(v)


class Path(SymList):
    """A list of nodes: kind(ends, i) for 0 <= i < n."""

    def __init__(self, n, at):
        super().__init__(n, at)


class World:
    def __init__(self, t, boundary, sg_cls="NxStabilizerGraph", n_odd=None):
        e = self.e = t.e
        self.t, self.boundary = t, boundary
        fn = z3.Function
        # odd stabilizers
        self.n = z3.Int("n_odd") if n_odd is None else z3.IntVal(n_odd)
        self.item, self.place, self.ODD = fn("odd_item", I, NODE), fn("odd_place", NODE, I), fn("odd", NODE, B)
        e.assume(self.n >= 0)
        logic.bijection_n([self.item], self.place, lambda i: z3.And(i >= 0, i < self.n), lambda x: self.ODD(x))
        self.odd = SymList(SNum(self.n) if n_odd is None else n_odd, lambda i: SRef(self.item(lift_num(i))))
        # distances and shortest paths between stabilizers (not through the connectors)
        self.D, self.DN, self.DP = fn("distance", NODE, NODE, R), fn("path_length", NODE, NODE, I), fn("path_node", NODE, NODE, I, NODE)
        s, u, i = z3.Const("s!", NODE), z3.Const("u!", NODE), z3.Int("i!")
        self.LINK, self.CV = fn("linked", NODE, NODE, B), fn("shared_qubit", NODE, NODE, NODE)
        odd2 = z3.And(self.ODD(s), self.ODD(u), s != u)
        law("path_length", [s, u], z3.Implies(odd2, z3.And(self.DN(s, u) >= 2, self.DP(s, u, z3.IntVal(0)) == s, self.DP(s, u, self.DN(s, u) - 1) == u)))
        law("path_node", [s, u, i], z3.Implies(z3.And(odd2, 0 <= i, i < self.DN(s, u) - 1), self.LINK(self.DP(s, u, i), self.DP(s, u, i + 1))))
        law("linked", [s, u], z3.And(self.LINK(s, u) == self.LINK(u, s), z3.Implies(self.LINK(s, u), z3.And(s != self.low, s != self.high, u != self.low, u != self.high)))) if False else None
        # shortest paths from the connectors; node 0 is the connector, the others are nodes
        self.C = {}
        for k in ("low", "high"):
            self.C[k] = (fn(k + "_distance", NODE, R), fn(k + "_path_length", NODE, I), fn(k + "_path_node", NODE, I, NODE), fn(k + "_passes", NODE, B))
        # on the path from one connector there is the other only if the other is closer
        for k, o in (("low", "high"), ("high", "low")):
            dist, num, pn, passes = self.C[k]
            law(k + "_path_length", [s], z3.Implies(self.ODD(s), z3.And(num(s) >= 3, pn(s, num(s) - 1) == s)))
            law(k + "_passes", [s], z3.Implies(z3.And(self.ODD(s), passes(s)), dist(s) > self.C[o][0](s)))
            law(k + "_path_node", [s, i], z3.Implies(z3.And(self.ODD(s), z3.Not(passes(s)), 1 <= i, i < num(s) - 1), self.LINK(pn(s, i), pn(s, i + 1))))
        self.sg = e.new_obj(e.lookup(SG + sg_cls))
        self.code = simple_obj(e, "code", **{ec + "_stab_graph": self.sg for ec in ("primal", "dual")})
        m = "flamingpy.codes.graphs.stabilizer_graph."
        tables = {
            "shortest_paths_without_high_low": self.from_stab,
            "shortest_paths_from_low": lambda en, a, k: self.from_connector("low"),
            "shortest_paths_from_high": lambda en, a, k: self.from_connector("high"),
            "odd_parity_stabilizers": lambda en, a, k: self.odd,
            "has_bound_points": lambda en, a, k: boundary,
            "edge_data": self.edge_data,
        }
        for c in ("StabilizerGraph", "NxStabilizerGraph", "RxStabilizerGraph"):
            for f, g in tables.items():
                e.contracts[f"{m}{c}.{f}"] = g

    def path(self, s, u):
        return SymList(SNum(self.DN(s, u)), lambda i: SRef(self.DP(s, u, lift_num(i))))

    def from_stab(self, e, a, k):
        src = (a[1] if len(a) > 1 else k["source"]).e
        self.t.prove("shortest paths start from a stabilizer", self.ODD(src))
        v, V = node("target")
        g = z3.And(self.ODD(v), v != src)
        return (e.new_dict(entries=[Entry((v,), g, SNum(self.D(src, v)), key=V)]),
                e.new_dict(entries=[Entry((v,), g, self.path(src, v), key=V)]))

    def from_connector(self, kind):
        e = self.e
        self.t.prove("paths from the connectors are asked for only if there are boundary points", z3.BoolVal(self.boundary))
        dist, num, pn, passes = self.C[kind]
        v, V = node("target")

        def at(i):
            return e.merge(lift_num(i) == 0, kind, SRef(pn(v, lift_num(i)))) if not (isinstance(i, int) and i > 0) else SRef(pn(v, lift_num(i)))
        w, W = node("target")

        def at2(i):
            k = lift_num(i)
            if e.entails(k >= 1):
                return SRef(pn(w, k))
            return e.merge(k == 0, kind, SRef(pn(w, k)))
        return (e.new_dict(entries=[Entry((v,), self.ODD(v), SNum(dist(v)), key=V)]),
                e.new_dict(entries=[Entry((w,), self.ODD(w), SymList(SNum(num(w)), at2), key=W)]))

    def edge_data(self, e, a, k):
        u, w = a[1], a[2]
        if not (isinstance(u, SRef) and isinstance(w, SRef)):
            raise Unsupported("edges at these nodes")
        self.t.prove("looked up edges exist", self.LINK(u.e, w.e))
        return e.new_dict([("common_vertex", SRef(self.CV(u.e, w.e)))])
