"""C06: recovery and correct (decoders/decoder.py)."""
from pv.prove import Unit
from contracts.absgraph import *

DEC = "flamingpy.decoders.decoder."


def world(t, ecs=("primal",)):
    e = t.e
    G = AnyGraph(t)
    bit = z3.Function("bit", NODE, z3.IntSort())
    v = z3.Const("v", NODE)
    S = z3.Function("to_flip", NODE, z3.BoolSort())
    e.facts.append(z3.ForAll([v], z3.Or(bit(v) == 0, bit(v) == 1)))
    G.node_attr("bit_val", lambda x: SNum(z3.If(bit(x) == 1, z3.IntVal(1), z3.IntVal(0))))
    w = z3.Function("weight", NODE, z3.RealSort())
    G.node_attr("weight", lambda x: SNum(w(x)))
    odd = z3.Function("odd_parity_stabilizers", z3.IntSort(), z3.BoolSort())
    k = z3.Int("k")
    stab = {}
    for ec in ecs:
        stab[ec + "_stab_graph"] = simple_obj(e, "any stabilizer graph", odd_parity_stabilizers=ModelFn(
            "odd_parity_stabilizers (reads only)", lambda en, a, kw: en.new_list(entries=[Entry((k,), odd(k), SNum(k))])))
    code = simple_obj(e, "any code", graph=G.g, ec=e.new_list(list(ecs)), **stab)
    G.snapshot()
    return e, G, bit, w, S, v, code


def frame(t, G, bit, w, flipped, label=""):
    """Bits are inverted exactly on `flipped`, everything else is as before."""
    e = G.e
    v = z3.Const("v", NODE)
    with e.guard(G.N(v)):
        f, b = G.read("bit_val", SRef(v))
        t.prove(label + "bit values stay", f)
        ok = z3.Or(bit(v) == 0, bit(v) == 1)
        new = lift_num(b)
        t.prove(label + "exactly the given qubits are flipped", new == z3.If(flipped(v), 1 - bit(v), bit(v)), [ok])
        f, x = G.read("weight", SRef(v))
        t.prove(label + "weights stay", And(f, e.eq(x, SNum(w(v)))))
    for f in G.written(("%nattr:bit_val", "%nattr:weight")):
        t.prove(label + f"{f} is not written", False)


def flips(e, G, S, form):
    v = z3.Const(fresh_name("q"), NODE)
    if form == "set":
        return e.new_set(entries=[Entry((v,), z3.And(G.N(v), S(v)), SRef(v))])
    return e.new_list(entries=[Entry((v,), z3.And(G.N(v), S(v)), SRef(v))])


def recovery_unit(t, form, ec, sanity):
    e, G, bit, w, S, v, code = world(t, (ec,))
    t.case = lambda m: dict(d=[2, 3, 3], ec=ec, b="open", dec="MWPM", san=sanity, seed=3)
    r = e.call(e.lookup(DEC + "recovery"), [flips(e, G, S, form), code, ec], {"sanity_check": sanity})
    t.no_raise()
    t.prove("nothing is returned", r is None)
    frame(t, G, bit, w, lambda x: S(x))
    t.reach("a flipped qubit", z3.And(G.N(v), S(v)))


def plain_dict(e, k, what):
    out = {}
    for a, b in k.items():
        out[a] = e.force(b)
    return out


OPTS = {
    "none": (None, {}), "empty": ({}, {}), "uniform": ({"method": "uniform"}, {"method": "uniform"}),
    "blueprint": ({"method": "blueprint", "integer": True, "multiplier": 7, "prob_precomputed": True},) * 2,
}
DOPTS = {"none": (None, {}), "empty": ({}, {}), "networkx": ({"backend": "networkx"},) * 2,
         "more": ({"backend": "lemon", "zzz": 5},) * 2}
FULL = {"method": "uniform", "integer": False, "multiplier": 1}


def correct_unit(t, dec, ecs, sanity, wo, do):
    e, G, bit, w, S, v, code = world(t, ecs)
    t.case = lambda m: dict(d=[3, 2, 2], ec="primal", b="open", dec=dec, san=sanity, seed=4, opts=True)
    log = []
    flip = {ec: z3.Function("flips_" + ec, NODE, z3.BoolSort()) for ec in ecs}

    def assign(en, a, k):
        log.append(("w", a, k, len(en.path)))

    def decoder(name):
        def f(en, a, k):
            log.append((name, a, k, len(en.path)))
            names = ["code", "ec"] + (["backend", "draw", "drawing_opts"] if name == "MWPM" else [])
            kk = {**dict(zip(names, a)), **k}
            ec = en.force(kk.get("ec"))
            if ec not in flip:
                raise Unsupported("the complex given to the decoder")
            return flips(en, G, flip[ec], "set")
        return f
    good = {ec: z3.Bool("check_" + ec) for ec in ecs}

    def check(en, a, k):
        kk = {**dict(zip(["code", "sanity_check"], a)), **k}
        log.append(("check", (kk.get("code"),), {}, len(en.path)))
        r = en.new_list([mk_bool(good[ec]) for ec in ecs])
        san = en.force(kk.get("sanity_check", False))
        if not isinstance(san, bool):
            raise Unsupported("symbolic sanity_check")
        if san:
            return (r, en.new_list([Opaque("parities per plane") for _ in ecs]))
        return r
    e.contracts[DEC + "assign_weights"] = assign
    e.contracts[DEC + "check_correction"] = check
    e.contracts["flamingpy.decoders.mwpm.algos.mwpm_decoder"] = decoder("MWPM")
    e.contracts["flamingpy.decoders.unionfind.algos.uf_decoder"] = decoder("UF")
    kw = dict(decoder=dec, sanity_check=sanity)

    def opt(x):
        return e.new_dict(list(x.items())) if isinstance(x, dict) else x
    given, want_w = OPTS[wo]
    dgiven, want_d = DOPTS[do]
    kw["weight_options"] = opt(given)
    kw["decoder_opts"] = opt(dgiven)
    r = e.call(e.lookup(DEC + "correct"), [code], kw)
    t.no_raise()
    if any(x[3] for x in log):
        raise Unsupported("callees called under conditions")

    def bound(x, names):
        return {**dict(zip(names, [e.force(y) for y in x[1]])), **plain_dict(e, x[2], "")}
    kinds = [x[0] for x in log]
    t.prove("weights are assigned once, before decoding", kinds.count("w") == 1 and kinds[0] == "w")
    for x in log:
        if x[0] == "w":
            k = bound(x, ["code", "decoder"])
            t.prove("weights: the code", k.pop("code") is code)
            t.prove("weights: the decoder", k.pop("decoder") == dec)
            t.prove("weights: the given options", {**FULL, **k} == {**FULL, **want_w})
    calls = [x for x in log if x[0] in ("MWPM", "UF")]
    t.prove("the chosen decoder is called once per complex", [x[0] for x in calls] == [dec] * len(ecs))
    seen = []
    for x in calls:
        k = bound(x, ["code", "ec"] + (["backend", "draw", "drawing_opts"] if x[0] == "MWPM" else []))
        t.prove("decoder: the code", k.pop("code") is code)
        seen.append(k.pop("ec"))
        t.prove("decoder: no drawing", k.pop("draw", False) is False)
        k.pop("drawing_opts", None)
        full = {"backend": "rustworkx"}
        t.prove("decoder: the given options", {**full, **k} == {**full, **want_d})
    t.prove("every complex is decoded", sorted(seen) == sorted(ecs))
    t.prove("the check comes last and once", kinds.count("check") == 1 and kinds[-1] == "check")
    t.prove("check: the code", all(x[1][0] is code for x in log if x[0] == "check"))
    # order of flips does not matter
    frame(t, G, bit, w, lambda x: xor_all([f(x) for f in flip.values()]))
    t.prove("true iff the check succeeds in every complex", e.truth(r) == zb(And(*good.values())))
    t.prove("a truth value", isinstance(e.force(r), (bool, SBool)))


def xor_all(fs):
    out = fs[0]
    for f in fs[1:]:
        out = z3.Xor(out, f)
    return out


def correct_default_unit(t):
    """Defaults: MWPM without options."""
    correct_unit(t, "MWPM", ("primal",), False, "none", "none")


def units():
    out = []
    for form in ("set", "list"):
        for ec in ("primal", "dual"):
            for s in (False, True):
                out.append(Unit(f"recovery {form} {ec}{' sanity' if s else ''}", recovery_unit, (form, ec, s)))
    for dec in ("MWPM", "UF"):
        for ecs in (("primal",), ("dual",), ("primal", "dual")):
            for s in (False, True):
                for wo, do in zip(OPTS, DOPTS):
                    if dec == "UF" and wo == "blueprint":
                        wo = "uniform"
                    out.append(Unit(f"correct {dec} {'+'.join(ecs)}{' sanity' if s else ''} {wo} {do}", correct_unit, (dec, ecs, s, wo, do)))
    return out


ASSUMPTIONS = ["a list of qubits to flip names no qubit twice", "the decoders, weight assignment and the stabilizer graph's "
               "odd_parity_stabilizers do not write bit values (decoders: C07, C09; weights: C10)", "printing has no effect"]
