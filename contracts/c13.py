"""C13: homodyne outcomes of a CV noise layer on an arbitrary graph."""
from pv.prove import Unit
from contracts.cvlayer import *

AQ = z3.Function("propagated", z3.IntSort(), z3.IntSort(), z3.RealSort())
DELTA = z3.Real("delta")


class Propagation:
    """Contract of SCZ_apply on a vector (C16): positions unchanged, momenta plus the adjacency matrix times the positions."""

    def __init__(self, t, G):
        self.calls = []
        self.G = G
        t.e.contracts["flamingpy.cv.ops.SCZ_apply"] = self

    def __call__(self, e, a, kw):
        adj, x = a[0], e.force(a[1])
        if len(a) > 2 or kw:
            raise Unsupported("SCZ_apply with options")
        if adj is not self.G.adj or not isinstance(x, SymArr) or e.path_formula() is not True:
            raise Unsupported(f"SCZ_apply of something else")
        if not e.entails(lift_num(x.n) == 2 * self.G.n):
            raise Unsupported("SCZ_apply of a vector of another length")
        k = len(self.calls)
        src = x.at
        self.calls.append(src)
        return SymArr(SNum(2 * self.G.n), self.at(k))

    def at(self, k):
        """Element j of the k-th result; the sum over neighbours is a function of the call."""
        src = self.calls[k]

        def f(j):
            j = lift_num(j)
            x = lift_num(src(SNum(j)))
            x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
            return SNum(z3.If(j < self.G.n, x, x + AQ(k, j - self.G.n)))
        return f


def setup(t, order, perfect, sup="array"):
    """A populated layer: any partition of the modes (the postcondition of populate_states, C12)."""
    e = t.e
    e.symbolic_pi = e.reals = True
    G = Indexed(t, perfect)
    e.assume(DELTA > 0)
    P, f, m = members(t, "p", G.n, distinct=True)
    K, g, n = members(t, "gkp", G.n, distinct=True)
    x = z3.Int(fresh_name("x"))
    for a, b in ((P, K), (K, P)):
        v, fo = logic.DEFS[a.name()]
        logic.DEFS[a.name()] = (v, z3.And(fo, z3.Implies(z3.And(v[0] >= 0, v[0] < G.n), a(v[0]) != b(v[0]))))
    code = simple_obj(e, "any code", graph=G.g)
    kw = dict(delta=SNum(DELTA))
    if order:
        kw["sampling_order"] = order
    L = e.call(e.lookup(CV), [code], kw)
    e.obj_set(L, "states", e.new_dict([("p", seq("array", f, m)), ("GKP", seq("array", g, n))]))
    t.no_raise("layer")
    S = Propagation(t, G)
    # outcomes of earlier measurements
    for q in "qp":
        old, had = z3.Function("old_" + q, NODE, z3.RealSort()), z3.Function("had_" + q, NODE, z3.BoolSort())
        G.node_attr("hom_val_" + q, (lambda old: lambda v: SNum(old(v)))(old), (lambda had: lambda v: had(v))(had))
    return e, G, L, P, K, S, code


def requested(t, G, kind):
    """(the argument, number, the i-th index, predicate, place)"""
    e = t.e
    if kind == "none":
        return None, G.n, (lambda i: i), (lambda x: z3.And(x >= 0, x < G.n)), (lambda x: x)
    if kind == "range":
        lo, hi = z3.Ints("lo hi")
        e.assume(z3.And(0 <= lo, lo <= hi, hi <= G.n))
        return models.SymRange(SNum(lo), SNum(hi)), z3.simplify(hi - lo), (lambda i: lo + i), (lambda x: z3.And(x >= lo, x < hi)), (lambda x: x - lo)
    I, f, m = members(t, "req", G.n, distinct=kind != "repeats")
    pos = z3.Function("place_req", z3.IntSort(), z3.IntSort())
    return seq("list" if kind == "repeats" else kind, f, m), m, (lambda i: f(i)), I, (lambda x: pos(x))


def real(x):
    x = lift_num(x)
    return z3.ToReal(x) if x.sort() == z3.IntSort() else x


def root(x):
    return SQRT(x)


def one_normal(t, rng, others=()):
    ds = [d for d in rng.draws if d.method == "normal"]
    if any(d.method not in ("normal",) + tuple(others) for d in rng.draws) or len(ds) != 1 or ds[0].vars or not is_true(ds[0].guard):
        raise Unsupported("draws other than one array of normal numbers")
    return ds[0]


def elem(e, x, i):
    """Element i of an array or the number itself."""
    return real(x if is_num(x) else x.at(SNum(i)))


def outcome(t, G, quad, I, want, snap):
    """The requested nodes carry want(index), and nothing else is written."""
    e = t.e
    v = z3.Const("v", NODE)
    with e.guard(G.N(v)):
        i = G.idx(v)
        f, h = G.read("hom_val_" + quad, SRef(v))
        with e.guard(I(i)):
            t.prove("a requested node has an outcome", f)
            if not is_num(h):
                raise Unsupported("outcome of another kind")
            t.prove("the outcome of its own index", real(h) == want(i))
        with e.guard(z3.Not(I(i))):
            t.prove("no outcome on other nodes", zb(f) == z3.Function("had_" + quad, NODE, z3.BoolSort())(v))
            t.prove("earlier outcomes of other nodes are kept", z3.Implies(zb(f), real(h) == z3.Function("old_" + quad, NODE, z3.RealSort())(v)))
    w = [x for x in G.written(but=("%nattr:hom_val_" + quad,))]
    t.prove("nothing else is written", not w)


def case(order, quad, kind, perfect, **kw):
    return lambda m: dict(order=order or "initial", quad=quad, inds=kind if kind in ("none", "array") else "list", perf=bool(perfect), seed=11, means=order == "two-step", **kw)


def initial_unit(t, order, quad, kind, perfect, default_quad=False):
    e, G, L, P, K, S, code = setup(t, order, perfect)
    t.case = case(order, quad, kind, perfect)
    arg, m, at, I, place = requested(t, G, kind)
    rng = RNG()
    kw = {"rng": rng}
    if not default_quad:
        kw["quad"] = quad
    if kind != "none":
        kw["inds"] = arg
    G.snapshot()
    e.call(e.getattr(L, "measure_hom"), [], kw)
    t.no_raise()
    d = one_normal(t, rng)
    t.prove("one normal draw per quadrature of each mode", lift_num(d.value.n) == 2 * G.n)
    j = z3.Int("j")
    mean, sd = d.args
    with e.guard(z3.And(j >= 0, j < G.n)):
        t.instances([P(j), K(j)])
        pf = G.PF(j)
        small = root(DELTA / 2)
        t.prove("mean 0", z3.And(elem(e, mean, j) == 0, elem(e, mean, j + G.n) == 0))
        q, p = elem(e, sd, j), elem(e, sd, j + G.n)
        t.prove("position of a p-squeezed mode: 1/sqrt(2 delta)", z3.Implies(z3.And(P(j), z3.Not(pf)), z3.And(q * root(2 * DELTA) == 1)))
        t.prove("position of a GKP mode: sqrt(delta/2)", z3.Implies(z3.And(K(j), z3.Not(pf)), q == small))
        t.prove("momentum: sqrt(delta/2)", z3.Implies(z3.Not(pf), p == small))
        t.prove("a perfect qubit has no noise", z3.Implies(pf, z3.And(q == 0, p == 0)))
    t.prove("propagated once through the CZ gates of the graph", len(S.calls) == 1)
    if len(S.calls) != 1:
        return
    with e.guard(z3.And(j >= 0, j < 2 * G.n)):
        t.prove("the drawn values are propagated", real(S.calls[0](SNum(j))) == elem(e, d.value, j))
    y = lambda i: real(S.at(0)(SNum(i if quad == "q" else i + G.n)))
    outcome(t, G, quad, I, y, None)


def supplied(t, G, name):
    f = z3.Function(name, z3.IntSort(), z3.RealSort())
    return f, SymArr(SNum(2 * G.n), lambda i: SNum(f(lift_num(i))))


def twostep_unit(t, quad, kind, perfect, means, covs, propagate=True):
    e, G, L, P, K, S, code = setup(t, "two-step", perfect)
    t.case = case("two-step", quad, kind, perfect, **({"covs": True} if covs else {})) if means else (lambda m: dict(order="two-step", prop="sampled", quad=quad, seed=1))
    arg, m, at, I, place = requested(t, G, kind)
    rng = RNG()
    kw = {"rng": rng, "quad": quad}
    if kind != "none":
        kw["inds"] = arg
    if means:
        mu, kw["updated_means"] = supplied(t, G, "mu")
    if covs:
        sg, kw["updated_covs"] = supplied(t, G, "sigma")
    if not propagate:
        kw["propagate"] = False
    G.snapshot()
    e.call(e.getattr(L, "measure_hom"), [], kw)
    t.no_raise()
    d = one_normal(t, rng, () if means else ("random", "integers"))
    t.prove("one normal draw per requested mode", lift_num(d.value.n) == m)
    off = z3.IntVal(0) if quad == "q" else G.n
    if not means:
        t.prove("propagated exactly if asked", len(S.calls) == (1 if propagate else 0))
        j = z3.Int("j")
        init = e.getattr(L, "_init_means")
        U = [x for x in rng.draws if x.method == "random"]
        B = [x for x in rng.draws if x.method == "integers"]
        if len(U) != 1 or len(B) != 1 or U[0].vars or B[0].vars:
            raise Unsupported("draws of the means")
        t.prove("GKP means are drawn from 0 and 1", z3.And(lift_num(B[0].args[0]) == 0, lift_num(B[0].args[1]) == 2))
        pp, pk = z3.Function("place_p", z3.IntSort(), z3.IntSort()), z3.Function("place_gkp", z3.IntSort(), z3.IntSort())
        sq = SQRT(PI)
        q0 = lambda x: z3.If(P(x), elem(e, U[0].value, pp(x)) * (2 * sq), real(B[0].value.at(SNum(pk(x)))) * sq)
        first = S.calls[0] if S.calls else (lambda i: init.at(i))
        with e.guard(z3.And(j >= 0, j < G.n)):
            t.instances([P(j), K(j)])
            t.prove("mean of the position before the gates: uniform below 2 sqrt(pi), or 0 or sqrt(pi) for GKP", real(first(SNum(j))) == q0(j))
            t.prove("mean of the momentum before the gates: 0", real(first(SNum(j + G.n))) == 0)
        mu = (lambda i: real(S.at(0)(SNum(i)))) if S.calls else (lambda i: real(init.at(SNum(i))))
    i = z3.Int("i")
    with e.guard(z3.And(i >= 0, i < m)):
        x = at(i)
        t.prove("the mean of its mode in the measured quadrature", elem(e, d.args[0], i) == mu(x + off))
        if covs:
            t.prove("the supplied standard deviation", elem(e, d.args[1], i) == sg(x + off))
        else:
            t.prove("standard deviation sqrt(delta/2), none for a perfect qubit", elem(e, d.args[1], i) == z3.If(G.PF(x), z3.RealVal(0), root(DELTA / 2)))
    outcome(t, G, quad, I, lambda x: elem(e, d.value, place(x)), None)


def syndrome_unit(t):
    """measure_syndrome measures p on the syndrome qubits, with the given generator."""
    e, G, L, P, K, S, code = setup(t, None, None)
    t.case = lambda m: dict(code=["primal", "open"], order="initial", perf=False, tr=False, seed=5)
    calls = []
    e.contracts[CV + ".measure_hom"] = lambda en, a, kw: calls.append((a[1:], dict(kw)))
    inds = Opaque("syndrome indices")
    e.obj_set(code, "all_syndrome_inds", inds)
    rng = RNG()
    e.call(e.getattr(L, "measure_syndrome"), [], {"rng": rng})
    t.no_raise()
    if len(calls) != 1:
        t.prove("one measurement", False)
        return
    a, kw = calls[0]
    names = ["quad", "inds", "updated_means", "updated_covs", "propagate", "rng"]
    args = {**dict(zip(names, a)), **kw}
    t.prove("the momentum is measured", args.get("quad", "p") == "p")
    t.prove("the syndrome qubits are measured", args.get("inds") is inds)
    t.prove("with the generator that was given", args.get("rng") is rng)
    t.prove("with no supplied means", args.get("updated_means") is None and args.get("updated_covs") is None and args.get("propagate", True) is True)


def apply_unit(t):
    """apply_noise: populate, measure, decode, in this order and with the same generator."""
    e, G, L, P, K, S, code = setup(t, None, None)
    t.case = lambda m: dict(code=["primal", "open"], order="initial", perf=False, tr=False, seed=5)
    calls = []
    for m in ("populate_states", "measure_syndrome", "inner_decoder"):
        e.contracts[f"{CV}.{m}"] = (lambda m: lambda en, a, kw: calls.append((m, (list(a[1:]) + list(kw.values())))))(m)
    rng = RNG()
    e.call(e.getattr(L, "apply_noise"), [rng], {})
    t.no_raise()
    t.prove("populate, measure, decode", [c[0] for c in calls] == ["populate_states", "measure_syndrome", "inner_decoder"])
    t.prove("with the generator that was given", all(c[1] == [rng] for c in calls if c[0] != "inner_decoder"))


def decoder_unit(t, translator):
    e = t.e
    G = Indexed(t)
    TR = z3.Function("translated", z3.RealSort(), z3.IntSort())
    t.case = lambda m: dict(code=["primal", "open"], order="initial", perf=False, tr=translator, seed=5)

    def tr(en, a, kw):
        if len(a) != 1 or kw:
            raise Unsupported("translator with options")
        v = en.unpack(a[0])
        return en.new_list([SNum(TR(real(x))) for x in v])
    fn = ModelFn("translator", tr)
    if not translator:
        e.contracts["flamingpy.cv.gkp.GKP_binner"] = tr
    I, f, m = members(t, "syn", G.n)
    hom = z3.Function("hom", NODE, z3.RealSort())
    bit = z3.Function("old_bit", NODE, z3.IntSort())
    had = z3.Function("had_bit", NODE, z3.BoolSort())
    G.node_attr("hom_val_p", lambda v: SNum(hom(v)), lambda v: I(G.idx(v)))
    G.node_attr("hom_val_q", lambda v: SNum(z3.Function("homq", NODE, z3.RealSort())(v)))
    G.node_attr("bit_val", lambda v: SNum(bit(v)), lambda v: had(v))
    code = simple_obj(e, "any code", graph=G.g, all_syndrome_coords=SymList(SNum(m), lambda k: SRef(G.pt(f(lift_num(k))))))
    kw = dict(delta=SNum(DELTA), **({"translator": fn} if translator else {}))
    L = e.call(e.lookup(CV), [code], kw)
    G.snapshot()
    e.call(e.getattr(L, "inner_decoder"), [])
    t.no_raise()
    v = z3.Const("v", NODE)
    with e.guard(G.N(v)):
        i = G.idx(v)
        fnd, b = G.read("bit_val", SRef(v))
        with e.guard(I(i)):
            t.prove("every syndrome qubit has a bit", fnd)
            if not is_num(b):
                raise Unsupported("bit of another kind")
            t.prove("the translated bit of its own outcome", lift_num(b) == TR(hom(v)))
        with e.guard(z3.Not(I(i))):
            t.prove("other qubits keep theirs", z3.And(zb(fnd) == had(v), z3.Implies(had(v), lift_num(b) == bit(v))))
    t.prove("nothing else is written", not G.written(but=("%nattr:bit_val",)))


def getter_unit(t, what, kind):
    """hom_outcomes and bit_values list the stored values of the requested modes."""
    e, G, L, P, K, S, code = setup(t, None, None)
    bit, had = z3.Function("bit", NODE, z3.IntSort()), z3.Function("had_bit", NODE, z3.BoolSort())
    G.node_attr("bit_val", lambda v: SNum(bit(v)), lambda v: z3.BoolVal(True))
    for q in "qp":
        G.node_attr("hom_val_" + q, (lambda q: lambda v: SNum(z3.Function("old_" + q, NODE, z3.RealSort())(v)))(q))
    t.case = case(None, "q" if what == "q" else "p", kind, False)
    arg, m, at, I, place = requested(t, G, kind)
    kw = {} if kind == "none" else {"inds": arg}
    if what == "q":
        kw["quad"] = "q"
    r = e.call(e.getattr(L, "bit_values" if what == "bit" else "hom_outcomes"), [], kw)
    t.no_raise()
    t.prove("one value per requested mode", lift_num(models.length(e, r)) == m)
    src = bit if what == "bit" else z3.Function("old_" + what, NODE, z3.RealSort())
    i = z3.Int("i")
    with e.guard(z3.And(i >= 0, i < m)):
        x = e.force(e.getitem(r, SNum(i)))
        if not is_num(x):
            raise Unsupported("value of another kind")
        t.prove("the value of the node with that index", lift_num(x) == src(G.pt(at(i))))


def units():
    us = []
    for perfect in (None, "empty", "some"):
        for quad in ("p", "q"):
            for kind in ("none", "list", "array", "range"):
                n = f"{quad}, indices {kind}, perfect qubits {perfect}"
                us.append(Unit(f"initial, {n}", initial_unit, (None if kind == "list" else "initial", quad, kind, perfect, quad == "p" and kind == "array")))
                if kind == "list":
                    us.append(Unit(f"initial, {n}, repeated", initial_unit, ("initial", quad, "repeats", perfect)))
                for means in (True, False):
                    for covs in ((False, True) if not perfect else (False,)):
                        us.append(Unit(f"two-step, {n}, {'supplied' if means else 'propagated'} means{', supplied deviations' if covs else ''}", twostep_unit, (quad, kind, perfect, means, covs)))
                if not perfect:
                    us.append(Unit(f"two-step, {n}, means before the gates", twostep_unit, (quad, kind, perfect, False, False, False)))
    us += [Unit("measure_syndrome", syndrome_unit), Unit("apply_noise", apply_unit), Unit("inner_decoder, default translator", decoder_unit, (False,)),
           Unit("inner_decoder, any translator", decoder_unit, (True,))]
    for what in ("p", "q", "bit"):
        for kind in ("none", "list", "array", "range"):
            us.append(Unit(f"{'bit_values' if what == 'bit' else 'hom_outcomes ' + what}, indices {kind}", getter_unit, (what, kind)))
    return us
