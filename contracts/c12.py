"""C12: the states of a CV noise layer on an arbitrary graph, after every call."""
from pv.prove import Unit
from contracts.cvlayer import *


def concrete(swap, form, both=False):
    return lambda m: dict(kind="egraph", seed=3, **({"form": form} if form else {}), **({} if swap is None else {"ps": swap if swap != "p" else 0.5}),
                          **({"both": True} if both else {}))


def swap_value(t, swap):
    if swap != "p":
        return swap
    p = z3.Real("p_swap")
    t.e.assume(z3.And(p > 0, p < 1))
    return SNum(p)


def refusal_unit(t, swap, form):
    """Both a swap-out probability and indices are refused, everything else is accepted."""
    e = t.e
    G = Indexed(t)
    _, f, m = members(t, "sup", G.n)
    states = e.new_dict([("p", seq(form, f, m))])
    t.case = concrete(swap, form, True)
    kw = dict(delta=SNum(z3.Real("delta")), states=states)
    if swap != "absent":
        kw["p_swap"] = swap_value(t, swap)
    e.call(e.lookup(CV), [G.g], kw)
    if swap in (None, "absent"):
        t.no_raise()
    else:
        t.prove("refused exactly if some index is supplied", zb(t.raised()) == (m > 0))


def layer(t, G, swap, form, as_code):
    """A new layer; returns (layer, predicate of the supplied indices, the caller's dict)."""
    e = t.e
    kw = dict(delta=SNum(z3.Real("delta")))
    P, d = (lambda x: z3.BoolVal(False)), None
    if form == "emptydict":
        d = kw["states"] = e.new_dict()
    elif form:
        P, f, m = members(t, "sup", G.n)
        if form == "range":
            e.assume(m <= G.n)
            P = lambda x: z3.And(x >= 0, x < m)
        d = kw["states"] = e.new_dict([("p", models.SymRange(0, SNum(m)) if form == "range" else seq(form, f, m))])
        if swap is not None:
            e.assume(m == 0)
    if swap is not None:
        kw["p_swap"] = swap_value(t, swap)
    target = simple_obj(e, "any code", graph=G.g) if as_code else G.g
    snap = d and snapshot_dict(d)
    L = e.call(e.lookup(CV), [target], kw)
    t.no_raise("layer")
    return L, P, d, snap


def earlier(t, G, L, swap):
    """Anything a sequence of earlier calls may have left behind."""
    e = t.e
    _, f, m = members(t, "old_gkp", G.n)
    states = e.getattr(L, "states")
    e.dict_set(states, "GKP", seq("array", f, m))
    if swap not in (None, 0):
        _, f, m = members(t, "old_p", G.n)
        e.dict_set(states, "p", seq("array", f, m))
    isp, has = z3.Function("was_p", NODE, z3.BoolSort()), z3.Function("had_state", NODE, z3.BoolSort())
    G.node_attr("state", lambda v: e.merge(isp(v), "p", "GKP"), lambda v: has(v))


def distinct(t, what, a):
    e = t.e
    n = models.length(e, a)
    if isinstance(n, int) and n == 0:
        return
    i, j = z3.Ints("i j")
    f = z3.And(0 <= i, i < j, j < lift_num(n))
    with e.guard(f):
        t.prove(f"no {what} mode is listed twice", lift_num(e.getitem(a, SNum(i))) != lift_num(e.getitem(a, SNum(j))))


def populate_unit(t, swap, form, as_code, again, how):
    e = t.e
    G = Indexed(t)
    L, P, d, snap = layer(t, G, swap, form, as_code)
    t.case = concrete(swap, form)
    if again:
        earlier(t, G, L, swap)
    rng = RNG()
    if how == "apply_noise":
        for m in ("measure_syndrome", "inner_decoder"):
            e.contracts[f"{CV}.{m}"] = lambda en, a, kw: None
    e.call(e.getattr(L, how), [], {"rng": rng})
    t.no_raise("populate")
    if swap == 1:
        P = lambda x: z3.And(x >= 0, x < G.n)
    elif swap == "p":
        ds = [x for x in rng.draws if x.method == "choice"]
        if len(ds) != 1 or any(x.method not in ("choice", "binomial") for x in rng.draws) or ds[0].vars or len(rng.draws) != 2:
            raise Unsupported("draws other than one binomial and one choice")
        b, c = rng.draws
        if b.method != "binomial":
            raise Unsupported("order of the draws")
        t.prove("the number of p-squeezed states is binomial in the number of modes", lift_num(b.args[0]) == G.n)
        t.prove("with the swap-out probability", lift_num(b.args[1]) == z3.Real("p_swap"))
        t.prove("as many modes are drawn", lift_num(c.args[1]) == lift_num(b.value))
        t.prove("without repetition", c.args[2] is False)
        t.prove("drawn in every call", zb(And(b.guard, c.guard)))
        pop = c.args[0]
        x = z3.Int("x")
        t.prove("from all modes", zb(e.contains(pop, SNum(x))) == z3.And(x >= 0, x < G.n))
        P = lambda x: c.extra["drawn"](x)
        if not isinstance(pop, models.SymRange) or not lift_num(pop.lo).eq(z3.IntVal(0)):
            raise Unsupported("population of the draw")
    v = z3.Const("v", NODE)
    with e.guard(G.N(v)):
        f, s = G.read("state", SRef(v))
        t.prove("every node has a state", f)
        t.prove("the state is p or GKP according to the node's index",
                zb(e.eq(s, "p")) == P(G.idx(v)))
        t.prove("GKP otherwise", zb(e.eq(s, "GKP")) == z3.Not(P(G.idx(v))))
    x = z3.Int("x")
    pi, gi = e.getattr(L, "p_inds"), e.getattr(L, "gkp_inds")
    t.prove("p_inds are the p-squeezed modes", zb(e.contains(pi, SNum(x))) == P(x))
    t.prove("gkp_inds are the others", zb(e.contains(gi, SNum(x))) == z3.And(x >= 0, x < G.n, z3.Not(P(x))))
    i, j = z3.Ints("i j")
    distinct(t, "GKP", gi)
    if swap not in (None, 0):
        distinct(t, "drawn", pi)
    if d is not None:
        t.prove("the caller's dictionary is left alone", same_dict(d, snap))


def units():
    us = []
    for swap in ("absent", None, 0, 0.0, 1, 1.0, "p"):
        for form in ("list", "array"):
            us.append(Unit(f"CVLayer with indices ({form}), p_swap {swap}", refusal_unit, (swap, form)))
    for again in (False, True):
        for how in ("populate_states", "apply_noise"):
            for as_code in (False, True):
                for swap, form in ((None, None), (None, "list"), (None, "array"), (None, "emptydict"), (None, "range"), (0, None), (0, "list"), (1, None), (1, "list"), ("p", None), ("p", "array")):
                    us.append(Unit(f"{how}{' of a code' if as_code else ''}, p_swap {swap}, states {form}{', after earlier calls' if again else ''}",
                                   populate_unit, (swap, form, as_code, again, how)))
    return us
