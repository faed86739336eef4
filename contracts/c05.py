"""C05: check_correction (decoders/decoder.py) on any code satisfying the contract of SurfaceCode."""
from pv.prove import Unit
from pv.logic import exists
from contracts.geometry import *
from pv import models

DEC = "flamingpy.decoders.decoder."
BIT = z3.Function("bit", *[z3.IntSort()] * 3, z3.BoolSort())
AXES = "xyz"


def checked(ec, b):
    """The checked directions."""
    return (0, 1, 2) if b == "periodic" else (0, 1) if b == "toric" else (0,) if ec == "primal" else (1,)


class Planes:
    """Parity of the syndrome qubits on a plane, identified with what the code aggregates."""

    def __init__(self, t, ec, b, d, bs):
        self.t, self.ec, self.b, self.d, self.bs = t, ec, b, d, bs
        self.PAR = [z3.Function(f"parity_{a}", z3.IntSort(), z3.BoolSort()) for a in AXES]
        self.first = 0 if ec == "primal" else 1

    def bit(self, p):
        return BIT(*p)

    def identify(self, e, agg, sym):
        """The aggregate is the parity of the plane axis=a, coordinate=k: a fact about PAR."""
        if agg.kind not in ("xor", "sum") or len(agg.vars) != 3 or any(v.sort() != z3.IntSort() for v in agg.vars):
            return
        g = zb(agg.guard)
        p = agg.vars
        if agg.kind == "xor":
            val = zb(agg.value)
        else:
            x = agg.value
            if not z3.is_expr(x) or x.sort() != z3.IntSort():
                return
            if not e.entails(z3.Implies(g, z3.Or(x == 0, x == 1))):
                return
            val = x == 1
        for a in (0, 1, 2):
            for k in self.sheets(agg):
                plane = z3.And(is_syndrome(p, self.d, self.bs, self.ec), p[a] == k)
                r = self.t.quick([*e.assumptions, zb(e.path_formula()), z3.And(g, val) != z3.And(plane, self.bit(p))], 10)
                if r == z3.unsat:
                    s = sym if agg.kind == "xor" else sym % 2 == 1
                    e.add_fact(s == self.PAR[a](k))
                    return

    def sheets(self, agg):
        out = [z3.IntVal(self.first + i) for i in (0, 2, 1, -1)]
        for x in agg.params:
            if x.sort() == z3.IntSort():
                out += [x, 2 * x + self.first, x + self.first]
        return out

    def result(self):
        return z3.And(*[z3.Not(self.PAR[a](z3.IntVal(self.first))) for a in checked(self.ec, self.b)])


def unit(t, ec, b, sanity):
    e = t.e
    t.case = lambda m: dict(d=dims_of(m, t.small), ec=ec, b=b, seed=5, mode="random")
    code, d, bs = spec_code(t, ec, b, attrs=dict(bit_val=lambda *w: SNum(bool_to_bit(BIT(*w)))))
    G = e.getattr(code, "graph")
    before = {f: list(x) if isinstance(x, list) else x for f, x in G.store.data.items()}
    pl = Planes(t, ec, b, d, bs)
    e.on_aggregate = pl.identify
    r = e.call(e.lookup(DEC + "check_correction"), [code], {"sanity_check": sanity} if sanity else {})
    t.no_raise()
    if sanity:
        if not isinstance(r, tuple) or len(r) != 2:
            raise Unsupported("result of the sanity check")
        r, dicts = r
    v = e.getitem(r, 0)
    t.prove("one result per error complex", e.eq(models.length(e, r), 1))
    t.prove("success exactly if the first plane of every checked direction is even", zb(e.truth(v)) == pl.result())
    t.prove("the graph is only read", before.keys() == G.store.data.keys() and all(
        len(x) == len(G.store.data[f]) and all(p is q for p, q in zip(x, G.store.data[f])) if isinstance(x, list) else x is G.store.data[f]
        for f, x in before.items()))
    if sanity:
        t.prove("one report per error complex", e.eq(models.length(e, dicts), 1))
        rep = e.getitem(dicts, 0)
        j = z3.Int("j")
        for a in range(3):
            l = e.getitem(rep, AXES[a])
            n = lift_num(models.length(e, l))
            want = d[a] if a in checked(ec, b) else z3.IntVal(0)
            t.prove(f"one report per {AXES[a]} plane", n == want)
            if a in checked(ec, b):
                with e.guard(z3.And(j >= 0, j < d[a])):
                    x = e.getitem(l, SNum(j))
                    t.prove(f"every {AXES[a]} plane is reported correctly", zb(e.truth(x)) == z3.Not(pl.PAR[a](pl.first + 2 * j)))
        t.no_raise("reports are complete")
    t.reach("a plane with odd parity", pl.PAR[checked(ec, b)[0]](z3.IntVal(pl.first)))


def layers(t, ec, b):
    """The cells between two neighbouring planes cover each of their qubits once, and every other qubit not at all or twice."""
    e = t.e
    bs = BOUNDS[ec, b]
    d = sym_dims(t)
    first = 0 if ec == "primal" else 1
    for a in checked(ec, b):
        p, _ = point("p")
        c, _ = point("c")
        c2, _ = point("o")
        c3, _ = point("t")
        k = z3.Int("k")
        n = AXES[a]
        # planes first, first + 2, ..., first + 2 (d - 1)
        hyp = [k % 2 == first, k >= first, k + 2 <= first + 2 * (d[a] - 1), is_syndrome(p, d, bs, ec)]

        def layer(x):
            return z3.And(is_cell(x, d, bs, ec), x[a] == k + 1, in_cell(p, x, d, bs))
        cand = cells_of(p, d, bs)
        some = z3.Or(*[layer(x) for x in cand])
        t.prove(f"{n}: members of the layer are among the neighbours", z3.Implies(layer(c), z3.Or(*[eq3(c, x) for x in cand])), hyp)
        for s in (0, 2):
            t.prove(f"{n}: a qubit of plane k+{s} is in a cell of the layer", z3.Implies(p[a] == k + s, some), hyp)
            t.prove(f"{n}: a qubit of plane k+{s} is in one cell of the layer", z3.Implies(z3.And(p[a] == k + s, layer(c), layer(c2)), eq3(c, c2)), hyp)
        off = z3.And(p[a] != k, p[a] != k + 2)
        two = z3.Or(*[z3.And(layer(cand[i]), layer(cand[j]), z3.Not(eq3(cand[i], cand[j]))) for i in range(6) for j in range(i)])
        t.prove(f"{n}: another qubit of the layer is in two of its cells", z3.Implies(z3.And(off, layer(c)), two), hyp)
        t.prove(f"{n}: another qubit of the layer is in no third cell", z3.Implies(
            z3.And(off, layer(c), layer(c2), layer(c3)), z3.Or(eq3(c, c2), eq3(c, c3), eq3(c2, c3))), hyp)
        t.reach(f"{n}: a qubit between two planes", z3.And(off, layer(c), *hyp))
        t.reach(f"{n}: a qubit of a plane", z3.And(p[a] == k, layer(c), *hyp))


def parity(t, ec, b):
    """Stabilizer.parity is the parity of the bit values on the faces of its cell."""
    e = t.e
    t.case = lambda m: dict(d=dims_of(m, t.small), ec=ec, b=b, seed=5, mode="random")
    code, d, bs = spec_code(t, ec, b, attrs=dict(bit_val=lambda *w: SNum(bool_to_bit(BIT(*w)))), stabilizers=True)
    CELL = z3.Function("cell_parity", *[z3.IntSort()] * 3, z3.BoolSort())
    ch, = e.iterate(e.getattr(code, ec + "_stabilizers"))
    c = ch.vars

    def identify(en, agg, sym):
        if agg.kind not in ("xor", "sum") or len(agg.vars) != 3:
            return
        g, x = zb(agg.guard), agg.value
        if agg.kind == "sum":
            if not (z3.is_expr(x) and x.sort() == z3.IntSort() and en.entails(z3.Implies(g, z3.Or(x == 0, x == 1)))):
                return
            x = x == 1
        r = t.quick([*en.assumptions, zb(en.path_formula()), z3.And(g, zb(x)) != z3.And(in_cell(agg.vars, c, d, bs), BIT(*agg.vars))], 10)
        if r == z3.unsat:
            en.add_fact((sym if agg.kind == "xor" else sym % 2 == 1) == CELL(*c))
    e.on_aggregate = identify
    with e.in_chunk(ch):
        x = e.getattr(ch.value, "parity")
        t.prove("parity of a stabilizer", lift_num(x) == z3.If(CELL(*c), z3.IntVal(1), z3.IntVal(0)))
        t.no_raise()


def planes_agree(t):
    """With the layer lemmas: parallel planes have the same parity if no stabilizer is odd."""
    t.lean("planes covered once, other qubits evenly: equal parities", "planes.lean")


def units():
    return [Unit("parallel planes", planes_agree)] + [Unit(f"neighbouring planes {ec} {b}", layers, (ec, b)) for ec, b in COMBOS] + [
        Unit(f"Stabilizer.parity {ec} {b}", parity, (ec, b)) for ec, b in COMBOS] + [Unit(f"check_correction {ec} {b}{' sanity' if s else ''}", unit, (ec, b, s)) for ec, b in COMBOS for s in (False, True)]
