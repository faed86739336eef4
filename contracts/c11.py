"""C11: IidNoise on an arbitrary graph."""
from pv.prove import Unit
from pv.logic import exists
from pv.rng import RNG
from contracts.absgraph import *

IID = "flamingpy.noise.iid.IidNoise"


def setup(t):
    e = t.e
    G = AnyGraph(t)
    # bit values of an earlier application (or none)
    old = z3.Function("old_bit", NODE, z3.IntSort())
    has = z3.Function("has_old_bit", NODE, z3.BoolSort())
    G.node_attr("bit_val", lambda v: SNum(old(v)), lambda v: has(v))
    p = z3.Real("p")
    code = simple_obj(e, "any code", graph=G.g)
    return e, G, p, code


def create_unit(t):
    e, G, p, code = setup(t)
    def case(m):
        x = float(m.eval(p, model_completion=True).as_fraction())
        return dict(d=[2, 2, 2], ec="primal", b="open", p=x, seed=1, **({} if 0 <= x <= 1 else {"bad": True}))
    t.case = case
    e.call(e.lookup(IID), [code, SNum(p)])
    t.prove("refused exactly outside of [0, 1]", zb(t.raised("ValueError")) == z3.Or(p < 0, p > 1))
    t.no_raise("no other exception", allowed=("ValueError",))


def apply_unit(t, calls):
    e, G, p, code = setup(t)
    e.assume(p >= 0)
    e.assume(p <= 1)
    t.case = lambda m: dict(d=[2, 3, 2], ec="primal", b="open", p=float(m.eval(p, model_completion=True).as_fraction()), seed=4, mock=True)
    noise = e.call(e.lookup(IID), [code, SNum(p)])
    for _ in range(calls):
        rng = RNG()
        e.call(e.getattr(noise, "apply_noise"), [], {"rng": rng})
    t.no_raise()
    v = z3.Const("v", NODE)
    d = rng.draws
    if any(x.method != "random" or x.args != (None,) for x in d):
        raise Unsupported("draws other than rng.random() per qubit")
    ids = []
    for x in d:
        if len(x.vars) != 1 or x.vars[0].sort() != NODE:
            raise Unsupported("draws that are not indexed by the qubits")
        ids.append((zb(subst(zb(x.guard), [(x.vars[0], v)])), subst(x.value.e, [(x.vars[0], v)])))
    has = G.N(v)
    t.prove("exactly one draw per qubit", z3.And(z3.PbEq([(g, 1) for g, _ in ids], 1) if ids else z3.BoolVal(False)) == has
            if ids else z3.Not(has))
    t.prove("no draw without a qubit", z3.Implies(z3.Or(*[g for g, _ in ids]), has))
    if not ids:
        return
    draw = ids[-1][1]
    for g, x in ids[:-1]:
        draw = z3.If(g, x, draw)
    with e.guard(has):
        f, b = G.read("bit_val", SRef(v))
        t.prove("a bit value is set", f)
        if not is_num(b) or isinstance(b, (bool, SBool)) or isinstance(b, float) or (isinstance(b, SNum) and not b.is_int):
            t.prove("an integer", False)
            return
        t.prove("1 if and only if the qubit's draw is below p", lift_num(b) == z3.If(draw < p, 1, 0))
        t.prove("all 0 for p = 0", z3.Implies(p == 0, lift_num(b) == 0))
        t.prove("all 1 for p = 1", z3.Implies(p == 1, lift_num(b) == 1))
    for fct in G.g.store.data:
        if fct.startswith("%nattr:") and fct != "%nattr:bit_val" or fct.startswith("%eattr:"):
            t.prove("no other attribute is written", False)


def units():
    return [Unit("IidNoise", create_unit), Unit("apply_noise", apply_unit, (1,)), Unit("apply_noise twice", apply_unit, (2,))]
