"""An arbitrary EGraph: node set, edge set and attributes are unknown."""
import itertools
import z3
from pv.values import *
from pv.engine import *
from pv import models

EG = "flamingpy.codes.graphs.egraph.EGraph"
NODE = z3.DeclareSort("Node")


class AnyGraph:
    """g: the engine's graph; has(n), edge(u, v), attribute tables."""

    def __init__(self, t, name="G", points=False, cls=EG):
        e = t.e
        self.e = e
        self.points = points
        self.sorts = [z3.IntSort()] * 3 if points else [NODE]
        self.N = z3.Function(name + "_node", *self.sorts, z3.BoolSort())
        self.E = z3.Function(name + "_edge", *self.sorts, *self.sorts, z3.BoolSort())
        c = e.lookup(cls)
        g = self.g = models.new_graph(e, c)
        v, V = self.var("v")
        g.store.data["%nodes"] = [Entry(v, self.N(*v), True, key=V)]
        u, U = self.var("u")
        w, W = self.var("w")
        g.store.data["%edges"] = [Entry(tuple(u) + tuple(w), self.edge(u, w), True, key=models.EdgeKey(U, W))]
        self.order = z3.Int(name + "_order")
        e.assume(self.order >= 0)
        g.store.meta["order"] = SNum(self.order)
        for a in ("to_indices", "to_points", "adj_mat", "macro_to_micro"):
            e.obj_set(g, a, None)
        self.attrs = {}

    def var(self, name):
        vs = [z3.Const(fresh_name(name), s) for s in self.sorts]
        return vs, self.val(vs)

    def val(self, vs):
        return tuple(SNum(x) for x in vs) if self.points else SRef(vs[0])

    def terms(self, v):
        return [lift_num(x) for x in v] if self.points else [v.e]

    def edge(self, u, w):
        """u and w are linked (symmetric by construction; no self-loops)."""
        return z3.And(self.N(*u), self.N(*w), z3.Or(*[a != b for a, b in zip(u, w)]), z3.Or(self.E(*u, *w), self.E(*w, *u)))

    def node_attr(self, name, value, present=True):
        """Attribute of every node (value: terms -> value; present: terms -> formula, True or False)."""
        v, V = self.var("v")
        p = present(*v) if callable(present) else present
        self.g.store.data["%nattr:" + name] = [Entry(v, And(self.N(*v), p), value(*v), key=V)]

    def edge_attr(self, name, value, present=True):
        u, U = self.var("u")
        w, W = self.var("w")
        p = present(u, w) if callable(present) else present
        self.g.store.data["%eattr:" + name] = [Entry(tuple(u) + tuple(w), And(self.edge(u, w), p), value(u, w), key=models.EdgeKey(U, W))]

    def snapshot(self):
        self.snap = {f: [(e.vars, e.guard, e.value) for e in es] if isinstance(es, list) else es for f, es in self.g.store.data.items()}

    def written(self, but=()):
        """Facets written since the snapshot."""
        now = {f: [(e.vars, e.guard, e.value) for e in es] if isinstance(es, list) else es for f, es in self.g.store.data.items()}
        return [f for f in now if f not in but and (f not in self.snap or len(now[f]) != len(self.snap[f])
                or any(a is not b for x, y in zip(now[f], self.snap[f]) for a, b in zip(x, y)))]

    def read(self, name, V):
        """(present, value) of a node attribute now."""
        return models.graph_read(self.e, self.g, "%nattr:" + name, V)


def simple_obj(e, name, **attrs):
    """An object of an unknown class with these attributes."""
    o = e.new_obj(ExtModule(name))
    for k, v in attrs.items():
        e.obj_set(o, k, v)
    return o
