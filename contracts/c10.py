"""C10: assign_weights (decoders/decoder.py) on an arbitrary graph."""
import sys
from pv.prove import Unit
from pv.logic import exists, free_vars
from contracts.absgraph import *

DEC = "flamingpy.decoders.decoder."
NB = z3.Function("p_neighbours", NODE, z3.IntSort())
DEG = z3.Function("degree", NODE, z3.IntSort())
ISP = z3.Function("is_p", NODE, z3.BoolSort())
ISG = z3.Function("is_gkp", NODE, z3.BoolSort())
SYN = z3.Function("syndrome_node", NODE, z3.BoolSort())
STATED = z3.Function("has_state", NODE, z3.BoolSort())
PC = z3.Function("p_phase_cond", NODE, z3.RealSort())
HOM = z3.Function("hom_val_p", NODE, z3.RealSort())
W0 = z3.Function("old_weight", NODE, z3.RealSort())
HASW0 = z3.Function("has_old_weight", NODE, z3.BoolSort())
ZC = z3.Function("Z_err_cond", z3.RealSort(), z3.RealSort(), z3.RealSort())


def world(t, ecs, states=True):
    e = t.e
    e.reals = True
    G = AnyGraph(t)
    G.node_attr("state", lambda v: GU([(ISP(v), "p"), (z3.And(z3.Not(ISP(v)), ISG(v)), "GKP"), (z3.And(z3.Not(ISP(v)), z3.Not(ISG(v))), "perfect")]),
                True if states else (lambda v: STATED(v)))
    G.node_attr("p_phase_cond", lambda v: SNum(PC(v)))
    G.node_attr("hom_val_p", lambda v: SNum(HOM(v)))
    G.node_attr("weight", lambda v: SNum(W0(v)), lambda v: HASW0(v))
    v = z3.Const(fresh_name("s"), NODE)
    coords = e.new_list(entries=[Entry((v,), z3.And(G.N(v), SYN(v)), SRef(v))])
    calls = []

    def stab(ec):
        def f(en, a, k):
            calls.append((ec, a, k, len(en.path), len(G.g.store.data["%nattr:weight"])))
        return simple_obj(e, "any stabilizer graph", assign_weights=ModelFn("StabilizerGraph.assign_weights", f))
    code = simple_obj(e, "any code", graph=G.g, ec=e.new_list(list(ecs)), all_syndrome_coords=coords,
                      **{ec + "_stab_graph": stab(ec) for ec in ecs})
    G.snapshot()
    x = z3.Const("x", NODE)
    e.facts += [z3.ForAll([x], z3.And(NB(x) >= 0, NB(x) <= DEG(x), DEG(x) <= 4)), z3.ForAll([x], z3.And(PC(x) >= 0, PC(x) <= 1))]
    return e, G, code, calls


def counts(t, G, states):
    """Identify the counts that the code computes: number of neighbours, number of p-squeezed neighbours."""
    t.counted = []

    def hook(e, ag, sym):
        if ag.kind != "sum" or len(ag.params) != 1 or ag.params[0].sort() != NODE or len(ag.vars) != 1 or ag.vars[0].sort() != NODE:
            return
        x, y = ag.params[0], ag.vars[0]
        nb = G.edge([x], [y])
        val = ag.value if z3.is_expr(ag.value) else lift_num(ag.value)
        if val.sort() != z3.IntSort():
            return
        p = ISP(y) if states else z3.And(STATED(y), ISP(y))
        term = z3.If(zb(ag.guard), val, 0)
        for want, fn in ((z3.And(nb, p), NB), (nb, DEG)):
            if t.quick([G.N(x), z3.Not(term == z3.If(want, 1, 0))], 5) == z3.unsat:
                v = z3.Const("x", NODE)
                t.counted.append((z3.Implies(G.N(x), term == z3.If(want, 1, 0)), fn))
                e.facts.append(z3.ForAll([v], z3.Implies(G.N(v), ag.sym(v) == fn(v))))
                e.solver.add(z3.Implies(G.N(x), sym == fn(x)), NB(x) >= 0, NB(x) <= DEG(x), DEG(x) <= 4)
                break
    t.e.on_aggregate = hook


def counted(t):
    for i, (f, fn) in enumerate(t.counted):
        t.prove(f"count {i} is the number of {'neighbours' if fn is DEG else 'p-squeezed neighbours'}", f)


def probability(v, pre, delta):
    tiny = lift_num(sys.float_info.min)
    pe = PC(v) if pre else ZC(z3.ToReal(DEG(v) + 1) * delta, HOM(v))
    pe = z3.If(pe > z3.Q(1, 2), z3.Q(1, 2), pe)
    pe = z3.If(pe == 0, tiny, pe)
    n = NB(v)
    return z3.If(n == 2, lift_num(1 / 4), z3.If(n == 3, lift_num(1 / 3), z3.If(n == 4, lift_num(2 / 5), pe)))


def unit(t, dec, ecs, opts):
    mode = opts.get("method", "uniform")
    states = not (mode == "uniform")
    e, G, code, calls = world(t, ecs, states)

    def case(m):
        if mode == "uniform":
            md = "uniform-U" if dec == "UF" else "uniform-M"
        else:
            md = ("pre" if opts.get("prob_precomputed") else "hom") + ("-int" if opts.get("integer") else "")
        return dict(d=[3, 3, 3], ec="primal", b="open", sb="rustworkx", mode=md, seed=4)
    t.case = case
    delta = z3.Real("delta")
    mult = z3.Int("multiplier")
    e.assume(delta > 0)
    e.assume(mult >= 1)
    kw = dict(opts)
    if kw.get("delta") is Ellipsis:
        kw["delta"] = SNum(delta)
    if kw.get("multiplier") is Ellipsis:
        kw["multiplier"] = SNum(mult)
    else:
        mult = z3.IntVal(1)

    def zcond(en, a, k):
        kk = {**dict(zip(["var", "hom_val", "var_num", "replace_undefined", "use_hom_val"], a)), **k}
        for n, d in (("var_num", 10), ("replace_undefined", 0), ("use_hom_val", False)):
            if not (type(kk.get(n, d)) is type(d) and kk.get(n, d) == d):
                raise Unsupported("other options of Z_err_cond")
        x, y = [z3.ToReal(q) if q.sort() == z3.IntSort() else q for q in (lift_num(en.force(kk["var"])), lift_num(en.force(kk["hom_val"])))]
        r = ZC(x, y)
        en.add_fact(z3.And(r >= 0, r <= 1))
        return SNum(r)
    e.contracts["flamingpy.cv.gkp.Z_err_cond"] = zcond
    counts(t, G, states)
    e.call(e.lookup(DEC + "assign_weights"), [code, dec], kw)
    counted(t)
    v = z3.Const("v", NODE)
    for i, r in enumerate(e.raises):
        inst = [h for h in t.instances([x for x in r["vars"] if x.sort() == NODE])]
        t.prove(f"no exception ({r['exc']} at {r['where']})", Not(r["cond"]), inst)
    inst = t.instances([v])
    rnd = e.builtin("round")
    with e.guard(G.N(v)):
        with e.guard(SYN(v)):
            f, w = G.read("weight", SRef(v))
            t.prove("every syndrome qubit has a weight", f, inst)
            if mode == "uniform":
                want = z3.If(NB(v) >= 2, z3.IntVal(-1), z3.IntVal(2)) if dec == "UF" else z3.IntVal(1)
            else:
                L = -LOG(probability(v, opts.get("prob_precomputed"), delta))
                want = lift_num(e.call(rnd, [SNum(z3.ToReal(mult) * L)])) if opts.get("integer") else L
            t.prove("the weight is as defined", w is not None and e.eq(w, SNum(want)), inst)
            if opts.get("integer") or mode == "uniform":
                t.prove("an integer", w is not None and all(isinstance(x, int) or (isinstance(x, SNum) and x.is_int) for x in alternatives(e, w)))
            t.reach("three p-squeezed neighbours", NB(v) == 3)
        with e.guard(z3.Not(SYN(v))):
            f, w = G.read("weight", SRef(v))
            t.prove("weights of other nodes stay", zb(f) == HASW0(v), inst)
            t.prove("weight values of other nodes stay", z3.Implies(HASW0(v), zb(w is not None and e.eq(w, SNum(W0(v))))), inst)
    for fct in G.written(("%nattr:weight",)):
        t.prove(f"{fct} is not written", False)
    if any(c[3] for c in calls):
        raise Unsupported("stabilizer graphs weighted under conditions")
    n = len(G.g.store.data["%nattr:weight"])
    t.prove("the stabilizer graph of every complex gets the weights", sorted(c[0] for c in calls) == sorted(ecs))
    t.prove("the stabilizer graphs get the final weights of this code", all(
        c[4] == n and [e.force(x) for x in [*c[1], *c[2].values()]] == [code] for c in calls))


def alternatives(e, w):
    w = e.force(w)
    if not isinstance(w, GU):
        return [w]
    out = []
    for g, x in w.alts:
        if e.decide(g) is not False:
            out.append(x)
    return out


def refuse_unit(t):
    e, G, code, calls = world(t, ("primal",))
    t.case = lambda m: dict(d=[3, 3, 3], ec="primal", b="open", sb="rustworkx", mode="refuse", seed=4)
    delta = z3.Real("delta")
    e.assume(delta > 0)
    e.call(e.lookup(DEC + "assign_weights"), [code, "UF"], dict(method="blueprint", delta=SNum(delta)))
    t.prove("blueprint weights are refused for Union-Find", zb(t.raised()))
    t.prove("nothing is written when refused", not G.written())


def units():
    out = []
    for ecs in (("primal",), ("dual",), ("primal", "dual")):
        n = "+".join(ecs)
        for o in ({}, {"method": "uniform"}, {"method": "uniform", "integer": True, "multiplier": 5}):
            for dec in ("MWPM", "UF"):
                out.append(Unit(f"uniform {dec} {n} {sorted(o)}", unit, (dec, ecs, o)))
        for pre in (True, False, None):
            for integer in (True, False, None):
                for mult in (True, False):
                    if mult and not integer and len(ecs) > 1:
                        continue
                    o = dict(method="blueprint")
                    if pre is not None:
                        o["prob_precomputed"] = pre
                    if not pre:
                        o["delta"] = ...
                    if integer is not None:
                        o["integer"] = integer
                    if mult:
                        o["multiplier"] = ...
                    out.append(Unit(f"blueprint {n} pre={pre} int={integer} mult={mult}", unit, ("MWPM", ecs, o)))
    out.append(Unit("refused", refuse_unit))
    return out


ASSUMPTIONS = ["sums whose terms are 1 exactly for the (p-squeezed) neighbours of a node are their number",
               "every node has at most four neighbours (C01)", "Z_err_cond is a function of its arguments with values between 0 and 1 (C15)",
               "precomputed probabilities lie between 0 and 1", "1/3 and 2/5 are the nearest floats; the logarithm is a function of its argument"]
