"""An arbitrary graph with indexed nodes and a CV noise layer on it."""
import z3
from pv import logic, models
from pv.models import SymArr, SymList
from pv.rng import RNG
from contracts.absgraph import *

CV = "flamingpy.noise.cv.CVLayer"


class Indexed(AnyGraph):
    """Nodes numbered 0 .. N-1 (the postcondition of index_generator, C04): pt and idx are inverse to each other."""

    def __init__(self, t, perfect=None):
        super().__init__(t)
        e = t.e
        self.n = self.order
        self.pt = z3.Function("pt", z3.IntSort(), NODE)
        self.idx = z3.Function("idx", NODE, z3.IntSort())
        logic.bijection(self.pt, self.idx, lambda j: z3.And(j >= 0, j < self.n), lambda v: self.N(v))
        self.perfect = None
        self.PF = lambda x: z3.BoolVal(False)
        d = e.new_dict()
        if perfect == "empty":
            e.dict_set(d, "perfect_points", e.new_list())
        elif perfect:
            # the perfect qubits: any sequence of nodes, indexed by perf
            self.PF, self.perf, self.np = members(t, "perf", self.n)
            e.dict_set(d, "perfect_points", SymList(SNum(self.np), lambda k: SRef(self.pt(self.perf(lift_num(k))))))
            e.assume(self.np > 0)
        e.obj_set(self.g, "graph", d)
        self.adj = models_adj(self)
        e.contracts[EG + ".adj_generator"] = self.adj_generator

    def adj_generator(self, e, a, kw):
        """Contract of adj_generator (C04): the nodes are numbered, the adjacency matrix is returned."""
        j = z3.Int(fresh_name("j"))
        v = z3.Const(fresh_name("v"), NODE)
        e.obj_set(self.g, "to_points", e.new_dict(entries=[Entry((j,), z3.And(j >= 0, j < self.n), SRef(self.pt(j)), key=SNum(j))]))
        e.obj_set(self.g, "to_indices", e.new_dict(entries=[Entry((v,), self.N(v), SNum(self.idx(v)), key=SRef(v))]))
        return self.adj


class models_adj:
    """The adjacency matrix (only handed on)."""

    def __init__(self, g):
        self.g = g

    def __repr__(self):
        return "<adjacency matrix>"


def members(t, name, n, distinct=False):
    """(predicate, function, length) of an arbitrary sequence of integers in [0, n)."""
    P = z3.Function("in_" + name, z3.IntSort(), z3.BoolSort())
    f = z3.Function(name, z3.IntSort(), z3.IntSort())
    pos = z3.Function("place_" + name, z3.IntSort(), z3.IntSort())
    m = z3.Int("len_" + name)
    t.e.assume(m >= 0)
    x = z3.Int(fresh_name("x"))
    logic.DEFS[P.name()] = ([x], z3.Implies(P(x), z3.And(x >= 0, x < n, m > 0, pos(x) >= 0, pos(x) < m, f(pos(x)) == x)))
    dom = lambda k: z3.And(k >= 0, k < m)
    if distinct:
        logic.bijection(f, pos, dom, lambda y: P(y))
    else:
        logic.enumeration(f, dom, lambda y: P(y), pos)
    return P, f, m


def seq(kind, f, m):
    at = lambda k: SNum(f(lift_num(k)))
    if kind == "list":
        return SymList(SNum(m), at)
    r = SymArr(SNum(m), at)
    r.whole = True
    return r


def snapshot_dict(d):
    return [(e.vars, e.guard, e.key, e.value) for e in d.store.data]


def same_dict(d, snap):
    now = snapshot_dict(d)
    return len(now) == len(snap) and all(a is b for x, y in zip(now, snap) for a, b in zip(x, y))
