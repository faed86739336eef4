"""C18: macronode noise (CVMacroLayer) on an arbitrary macronized lattice."""
from pv.prove import Unit
import numpy as np
from contracts.cvlayer import *
from contracts.geometry import *
from pv.rng import RNG

ASSUMPTIONS = [
    "macronize and adj_generator by contract: four micronodes per macronode, indices 4k .. 4k+3, the centre is the nearest "
    "integer point, a micronode has at most one neighbour, dangling ones none (C17, C04)",
    "populate_states (C12), _means_sampler and measure_hom (C13), invert_permutation and SCZ_apply (C16), GKP_binner (C14) "
    "and Z_err_cond (C15) enter by their contracts",
    "thewalrus: beam_splitter(pi/4, 0) is the 50/50 beam splitter, expand embeds a matrix",
    "without noise: a normal draw of standard deviation 0 is its mean; sqrt(pi) multiples are exact",
    "composition, on paper: the outcomes of the circuit unit are those assumed in the noiseless units; the bits of a "
    "stabilizer add up to an even number because each vertex neighbours an even number of its faces (units: parity of the cells)",
]
ML = "flamingpy.noise.cv.CVMacroLayer"
DELTA = z3.Real("delta")
I, R = z3.IntSort(), z3.RealSort()


class Macro(Indexed):
    """The graph that macronize (with four micronodes everywhere) and adj_generator leave (C17, C04): indices 4k .. 4k+3
    belong to the k-th macronode, whose centre is the integer point nearest to each of its micronodes; every micronode has
    at most one neighbour."""

    def edge(self, u, w):
        return z3.And(self.N(*u), self.N(*w), self.HN(*u), self.NB(*u) == w[0])

    def __init__(self, t):
        self.HN, self.NB = z3.Function("linked", NODE, z3.BoolSort()), z3.Function("partner", NODE, NODE)
        super().__init__(t)
        e = t.e
        self.M = z3.Int("macronodes")
        e.assume(z3.And(self.M >= 1, self.n == 4 * self.M))
        self.C = [z3.Function("centre" + a, I, I) for a in "xyz"]
        self.mac = z3.Function("macronode", I, I, I, I)
        self.R = AnyGraph(t, "R", points=True)
        logic.bijection_n(self.C, self.mac, lambda k: z3.And(k >= 0, k < self.M), lambda x, y, z: self.R.N(x, y, z))
        D = [z3.Function("off" + a, NODE, R) for a in "xyz"]
        v = z3.Const(fresh_name("v"), NODE)
        for f in D:
            logic.DEFS[f.name()] = ([v], z3.And(-z3.Q(1, 2) < f(v), f(v) < z3.Q(1, 2)))
        e.ref_coords = lambda v: tuple(SNum(z3.ToReal(c(self.number(v))) + f(v)) for c, f in zip(self.C, D))
        logic.DEFS["linked"] = ([v], z3.Implies(z3.And(self.N(v), self.HN(v)), z3.And(self.N(self.NB(v)), self.HN(self.NB(v)), self.NB(self.NB(v)) == v)))
        self.g.store.meta["neighbor_chunks"] = lambda en, g, x: [Chunk((), self.HN(x.e), SRef(self.NB(x.e)))]
        k = z3.Int(fresh_name("k"))
        mics = tuple(SRef(self.pt(4 * k + i)) for i in range(4))
        tbl = e.new_dict(entries=[Entry((k,), z3.And(k >= 0, k < self.M), mics, key=tuple(SNum(c(k)) for c in self.C))])
        e.obj_set(self.g, "macro_to_micro", tbl)
        e.obj_set(self.g, "_macronodes", True)
        # weights: any, or none (then 1)
        self.WT, self.HW = z3.Function("weight", NODE, R), z3.Function("weighted", NODE, z3.BoolSort())
        logic.DEFS["weight"] = ([v], z3.Implies(z3.And(self.N(v), self.HN(v)), self.WT(self.NB(v)) == self.WT(v)))
        logic.DEFS["weighted"] = ([v], z3.Implies(z3.And(self.N(v), self.HN(v)), self.HW(self.NB(v)) == self.HW(v)))
        self.edge_attr("weight", lambda u, w: SNum(self.WT(*u)), lambda u, w: self.HW(*u))
        self.gkp = z3.Function("is_gkp", NODE, z3.BoolSort())
        self.node_attr("state", lambda v: e.merge(self.gkp(v), "GKP", "p"))
        # the permutation: any one within the macronodes
        self.PI, self.PINV = z3.Function("PI", I, I), z3.Function("PINV", I, I)
        dom = lambda j: z3.And(j >= 0, j < self.n)
        logic.bijection(self.PI, self.PINV, dom, dom)
        for f in (self.PI, self.PINV):
            vs, fo = logic.DEFS[f.name()]
            logic.DEFS[f.name()] = (vs, z3.And(fo, z3.Implies(dom(vs[-1]), f(vs[-1]) / 4 == vs[-1] / 4)))

    def block(self, v):
        return self.idx(v) / 4

    def number(self, v):
        """The same, simplified by the laws of pt, idx and PI."""
        i = v.arg(0) if v.num_args() == 1 and v.decl().eq(self.pt) else self.idx(v)
        if i.num_args() == 1 and i.decl().eq(self.PI) and self.e.entails(z3.And(i.arg(0) >= 0, i.arg(0) < self.n)):
            i = i.arg(0)
        return z3.simplify(i / 4)

    def place(self, v):
        """0 for the star, 1 .. 3 for the planets."""
        return self.PINV(self.idx(v)) % 4

    def tidy(self, x, memo):
        """x, simplified by the laws of pt, idx, PI and macronode for numbers known to be in range."""
        if x.get_id() in memo or x.num_args() == 0:
            return memo.get(x.get_id(), x)
        c = [self.tidy(y, memo) for y in x.children()]
        f, a = x.decl(), c[0]
        arg = lambda g: a.num_args() == 1 and a.decl().eq(g)
        r = f(*c)
        if f.eq(self.idx) and arg(self.pt) or f.eq(self.PINV) and arg(self.PI) or z3.is_idiv(x) and arg(self.PI) and c[1].eq(z3.IntVal(4)):
            y = a.arg(0)
            if self.e.entails(z3.And(y >= 0, y < self.n)):
                r = z3.simplify(y / 4 if z3.is_idiv(x) else y)
        elif f.eq(self.mac) and all(c[i].num_args() == 1 and c[i].decl().eq(self.C[i]) and c[i].arg(0).eq(c[0].arg(0)) for i in range(3)):
            y = a.arg(0)
            if self.e.entails(z3.And(y >= 0, y < self.M)):
                r = y
        elif f.kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bool(r):
            r = z3.BoolVal(True) if self.e.entails(r) else z3.BoolVal(False) if self.e.entails(z3.Not(r)) else r
        memo[x.get_id()] = r
        self.keep = getattr(self, "keep", []) + [x]
        return r

    def mic(self, k, i):
        """The i-th micronode (star first) of macronode k."""
        return self.pt(self.PI(4 * k + i))

    def centre(self, k):
        return tuple(SNum(c(k)) for c in self.C)


def layer(t, G, permuted=True, **attrs):
    e = t.e
    W = z3.Function("network", I, I, R)
    net = models.arr([SNum(W(i, j)) for i in range(8) for j in range(8)], (8, 8))
    L = e.new_obj(e.lookup(ML))
    a = dict(egraph=G.g, reduced_graph=G.R.g, delta=SNum(DELTA), _N=SNum(G.n), _to_points=e.obj_get(G.g, "to_points")[1], bs_network=net,
             _adj=G.adj, _sampling_order="two-step", _perfect_inds=None)
    if permuted:
        p = SymArr(SNum(G.n), lambda j: SNum(G.PI(lift_num(j))))
        p.whole = True
        a["permuted_inds"] = p
    a.update(attrs)
    for k, v in a.items():
        e.obj_set(L, k, v)
    return L, W


def setup(t):
    e = t.e
    e.symbolic_pi = e.reals = True
    G = Macro(t)
    G.adj_generator(e, [], {})
    return e, G


W4 = [[1, 1, 1, 1], [-1, 1, -1, 1], [-1, -1, 1, 1], [1, -1, -1, 1]]  # twice the four-splitter


def occurs(s, x, memo):
    if x.get_id() not in memo:
        memo[x.get_id()] = x.eq(s) or any(occurs(s, c, memo) for c in x.children())
    return memo[x.get_id()]


def quotient(x, s):
    """x / s for a term x that is linear in s without a constant part."""
    if x.eq(s):
        return z3.RealVal(1)
    if x.num_args() < 2 and z3.is_rational_value(z3.simplify(x)) and z3.simplify(x).as_fraction() == 0:
        return z3.RealVal(0)
    has = [occurs(s, c, {}) for c in x.children()]
    if z3.is_add(x) or z3.is_sub(x) or x.decl().kind() == z3.Z3_OP_UMINUS:
        return x.decl()(*[quotient(c, s) for c in x.children()]) if x.num_args() < 3 else z3.Sum([quotient(c, s) for c in x.children()])
    if z3.is_app_of(x, z3.Z3_OP_ITE) and not has[0]:
        return z3.If(x.arg(0), quotient(x.arg(1), s), quotient(x.arg(2), s))
    if z3.is_mul(x) and sum(has) == 1:
        return z3.Product([quotient(c, s) if h else c for c, h in zip(x.children(), has)])
    if z3.is_div(x) and has[0] and not has[1]:
        return quotient(x.arg(0), s) / x.arg(1)
    raise Unsupported("outcome that is not a multiple of sqrt(pi)")


def noiseless_case(m):
    return dict(d=[2, 3, 2], ec="primal", b="open", delta=0, noiseless=True, pol=True, seed=2)


def noisy_case(m):
    return dict(d=[2, 2, 2], ec="primal", b="open", delta=0.1, ps=0.3, seed=1)


KINDS = list(itertools.product(("none", "p", "GKP"), repeat=4))


def spread(x, memo):
    """x with products of numbers and choices between numbers as choices between multiples."""
    if x.get_id() not in memo:
        memo[x.get_id()] = x, spread_(x, memo)
    return memo[x.get_id()][1]


def spread_(x, memo):
    if x.num_args() == 0:
        return x
    c = [spread(y, memo) for y in x.children()]
    if z3.is_mul(x):
        choices = [y for y in c if choice(y)]
        rest = [y for y in c if not choice(y)]
        r = z3.Product(rest) if len(rest) > 1 else rest[0] if rest else z3.RealVal(1)
        for y in choices:
            r = multiple(y, r)
        return r
    return x.decl()(*c)


def choice(x):
    if x.decl().kind() == z3.Z3_OP_TO_REAL:
        x = x.arg(0)
    return z3.is_app_of(x, z3.Z3_OP_ITE) and all(choice(y) or z3.is_rational_value(y) or z3.is_int_value(y) for y in x.children()[1:])


def multiple(x, y):
    if x.decl().kind() == z3.Z3_OP_TO_REAL:
        x = x.arg(0)
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        return z3.If(x.arg(0), multiple(x.arg(1), y), multiple(x.arg(2), y))
    return z3.simplify(x * y)


def reduce_unit(t, noiseless, kinds=()):
    e, G = setup(t)
    t.case = noiseless_case if noiseless else noisy_case
    e.assume(DELTA >= 0)
    G.node_attr("body_index", lambda v: SNum(G.place(v) + 1))
    k = z3.Int("k")
    e.assume(z3.And(k >= 0, k < G.M))
    SP = SQRT(PI)
    BIN = z3.Function("binned", R, I)
    x, y = z3.Real("x"), z3.Real("y")
    logic.DEFS["binned"] = ([x], z3.And(BIN(x) >= 0, BIN(x) <= 1))
    if noiseless:
        # the outcomes are the quadratures behind the gates and the four-splitters: position b sqrt(pi) of a GKP mode, any
        # position of a p-squeezed one, momentum the weighted position of the partner; weights of 1 and -1; the
        # neighbouring macronodes have GKP stars
        B, Y, plus = z3.Function("bit", NODE, I), z3.Function("position", NODE, R), z3.Function("positive", NODE, z3.BoolSort())
        v = z3.Const(fresh_name("v"), NODE)
        logic.DEFS["bit"] = ([v], z3.And(B(v) >= 0, B(v) <= 1))
        logic.DEFS["positive"] = ([v], z3.Implies(z3.And(G.N(v), G.HN(v)), plus(G.NB(v)) == plus(v)))
        G.edge_attr("weight", lambda u, w: SNum(z3.If(plus(*u), z3.IntVal(1), z3.IntVal(-1))), lambda u, w: G.HW(*u))
        X = lambda v: z3.If(G.gkp(v), z3.ToReal(B(v)), Y(v))
        pos = lambda v: z3.Or(plus(v), z3.Not(G.HW(v)))
        star = lambda v: G.mic(G.block(v), 0)
        P = lambda v: z3.If(G.HN(v), z3.If(pos(v), X(G.NB(v)), -X(G.NB(v))), 0)
        Q = lambda v: z3.If(G.gkp(G.NB(v)), B(G.NB(v)), B(star(G.NB(v))))
        half = z3.Q(1, 2)

        def hq(v):
            r = [half * sum(W4[i][l] * X(G.mic(G.number(v), l)) for l in range(4)) for i in range(4)]
            return SP * z3.If(G.place(v) == 1, r[1], z3.If(G.place(v) == 2, r[2], r[3]))

        def hp(v):
            return SP * (half * z3.Sum([P(G.mic(G.number(v), l)) for l in range(4)]))
    else:
        hp, hq = z3.Function("hom_p", NODE, R), z3.Function("hom_q", NODE, R)
    G.node_attr("hom_val_p", lambda v: SNum(hp(v)), lambda v: G.place(v) == 0)
    G.node_attr("hom_val_q", lambda v: SNum(hq(v)), lambda v: G.place(v) != 0)

    errors = []
    # names for the bits of the partners and of the stars of their macronodes
    names = []

    def named(x):
        return z3.substitute(x, *names)

    undecided = []

    def entails(f, timeout):
        r = e.check(Not(f), timeout)
        if r == z3.unknown:
            undecided.append(f)
        return r == z3.unsat

    def by_neighbour(u, share):
        """u is the sum of the shares: summand by summand."""
        parts = [[] for m in mine]
        for x in u.children() if z3.is_add(u) else [u]:
            ls = [l for l, m in enumerate(mine) if occurs(z3.simplify(m), x, {})]
            if len(ls) != 1:
                return entails(u == z3.ToReal(z3.Sum(share)), 5000)
            parts[ls[0]].append(x)
        return all(entails(z3.Sum(x) == z3.ToReal(n) if x else n == 0, 10000) for x, n in zip(parts, share))

    def one(x):
        x = real(x)
        if noiseless:
            # the outcome in units of sqrt(pi)
            u = z3.simplify(G.tidy(z3.simplify(spread(quotient(x, SP), {})), {}))
            # which whole number this is; then its parity (the contract of GKP_binner, C14)
            r = z3.Int(fresh_name("binned"))
            e.add_fact(z3.And(r >= 0, r <= 1))
            par = z3.Sum([z3.If(G.HN(m), Q(m), 0) for m in mine])
            share = [z3.If(G.HN(m), z3.If(pos(m), Q(m), -Q(m)), 0) for m in mine]
            for l, n in enumerate([z3.Sum(share)] + [B(G.NB(m)) - B(star(G.NB(m))) for m in mine]):
                if l == 0:
                    if by_neighbour(u, share) and entails(n % 2 == par % 2, 5000):
                        e.add_fact(r == named(par) % 2)
                        break
                elif entails(u == z3.ToReal(n), 5000):
                    e.add_fact(r == named(n) % 2)
                    break
            else:
                if undecided:
                    raise Unsupported("the whole number that is binned")
                e.add_fact(z3.And(*[x == c for x, c in names]))
                e.add_fact(z3.Implies(z3.IsInt(u), r == z3.ToInt(u) % 2))
            return SNum(r)
        return SNum(BIN(x))

    def binner(en, a, kw):
        if len(a) != 1 or kw:
            raise Unsupported("GKP_binner with options")
        v = en.force(a[0])
        if is_num(v) and not isinstance(v, np.ndarray):
            return one(v)
        out = []
        for ch in en.iterate(v):
            if ch.vars:
                raise Unsupported("binning of a family")
            y = en.force(ch.value)
            if not is_num(y):
                raise Unsupported("binning of another value")
            with en.guard(ch.guard):
                out.append((ch.guard, one(y)))
        if all(is_true(g) for g, _ in out):
            return models.arr([y for _, y in out])
        return models.PartArr(out)

    ZE = z3.Function("Z_err_cond", R, R, R)
    logic.DEFS["Z_err_cond"] = ([x, y], z3.And(ZE(x, y) >= 0, ZE(x, y) <= 1))

    def zerr(en, a, kw):
        if len(a) != 2 or set(kw) - {"use_hom_val"} or kw.get("use_hom_val") is not True:
            raise Unsupported("Z_err_cond with options")
        d, x = en.force(a[0]), en.force(a[1])
        if isinstance(x, GU):
            return en.lift(x, lambda y: zerr(en, [d, y], kw))
        if x is None:
            raise Unsupported("error probability of None")
        en.do_raise("ZeroDivisionError", "", real(d) <= 0)
        if kinds and not noiseless:
            r = z3.Real(fresh_name("error"))
            en.add_fact(z3.And(r >= 0, r <= 1))
            errors.append((en.path_formula(), real(d), z3.simplify(G.tidy(z3.simplify(spread(real(x), {})), {})), r))
            return SNum(r)
        return SNum(ZE(real(d), real(x)))
    e.contracts["flamingpy.cv.gkp.GKP_binner"] = binner
    e.contracts["flamingpy.cv.gkp.Z_err_cond"] = zerr
    L, W = layer(t, G)
    mine = [G.mic(k, l) for l in range(4)]
    for m, kd in zip(mine, kinds):
        e.assume(z3.Not(G.HN(m)) if kd == "none" else z3.And(G.HN(m), G.gkp(G.NB(m)) if kd == "GKP" else z3.Not(G.gkp(G.NB(m)))))
    if noiseless:
        for m in mine:
            for x in (B(G.NB(m)), B(G.mic(G.block(G.NB(m)), 0))):
                c = z3.Int(fresh_name("bit"))
                e.assume(z3.And(c >= 0, c <= 1))
                names.append((x, c))
            e.assume(z3.Implies(G.HN(m), G.gkp(star(G.NB(m)))))
    elif kinds:
        e.assume(DELTA > 0)
        for m in mine:
            e.assume(z3.Or(G.WT(m) == 1, G.WT(m) == -1))
    G.R.snapshot()
    G.snapshot()
    e.call(e.getattr(L, "_reduce_jth_macronode"), [SNum(4 * k)])
    t.no_raise()
    for n in ("bit_val", "p_phase_cond"):
        f, b = G.R.read(n, G.centre(k))
        t.prove(f"{n} is set", f)
        if not is_num(b):
            raise Unsupported(n)
        t.prove(f"{n} in its range", z3.And(0 <= lift_num(b), real(b) <= (1 if n == "bit_val" else z3.Q(1, 2))))
        if n == "bit_val":
            t.prove("the bit is a whole number", z3.IsInt(real(b)))
            if noiseless:
                want = named(z3.Sum([z3.If(G.HN(m), B(G.mic(G.block(G.NB(m)), 0)), 0) for m in mine]))
                t.prove("without noise, the bit is the parity of the stars of the neighbouring macronodes", (real(b) - z3.ToReal(want)) / 2 == z3.ToReal(z3.ToInt((real(b) - z3.ToReal(want)) / 2)))
    if kinds and not noiseless:
        # the outcomes that are binned, and the variance of each: delta / 2 for every measured quadrature in it
        # (twice for the star's; Z_err_cond takes twice the variance)
        want = []
        out, np_ = 2 * hp(G.mic(k, 0)), kinds.count("p")
        for m, kd in zip(mine, kinds):
            if kd != "none":
                q = [hq(G.mic(G.block(G.NB(m)), l)) for l in range(4)]
                pl = G.place(G.NB(m))
                z = z3.If(pl == 0, 0, z3.If(pl == 1, q[1] - q[3], z3.If(pl == 2, q[2] - q[3], q[1] + q[2])))
                if kd == "GKP":
                    want.append((2 * DELTA, z))
                else:
                    out = out - z3.If(G.HW(m), G.WT(m), 1) * z
        want.append((2 * (2 + np_) * DELTA, out))
        t.prove("one conditional error probability for each binned outcome", len(errors) == len(want) and And(*[zb(c[0]) for c in errors]))
        left = list(errors)
        for n, (d, x) in enumerate(want):
            x = z3.simplify(G.tidy(z3.simplify(spread(x, {})), {}))
            c = next((c for c in left if e.entails(z3.And(c[1] == d, c[2] == x), 3000)), left[0] if left else None)
            if c is not None:
                left = [y for y in left if y is not c]
                t.prove(f"error probability {n}: the variance that the outcome carries", c[1] == d)
                t.prove(f"error probability {n}: the outcome that is binned", c[2] == x)
        tot = z3.Sum([c[3] for c in errors])
        t.prove("the error probability adds up, at most 1/2", real(G.R.read("p_phase_cond", G.centre(k))[1]) == z3.If(tot < z3.Q(1, 2), tot, z3.Q(1, 2)))
        return
    u = [z3.Int(f"u{i}") for i in range(3)]
    with e.guard(z3.And(G.R.N(*u), z3.Or(*[p != c(k) for p, c in zip(u, G.C)]))):
        for n in ("bit_val", "p_phase_cond"):
            t.prove(f"{n} of other nodes is not set", zb(Not(G.R.read(n, tuple(SNum(x) for x in u))[0])))
    t.prove("nothing else is written", not G.R.written(but=("%nattr:bit_val", "%nattr:p_phase_cond")) and not G.written())


def star_unit(t):
    """The permutation keeps every macronode together and puts a GKP mode first if there is one."""
    e, G = setup(t)
    t.case = noisy_case
    L, W = layer(t, G, permuted=False)
    G.R.snapshot()
    G.snapshot()
    e.call(e.getattr(L, "_permute_star_inds"), [])
    t.no_raise()
    p = e.force(e.obj_get(L, "permuted_inds")[1])
    if not isinstance(p, SymArr):
        raise Unsupported("permutation of another kind")
    t.prove("as many indices as modes", lift_num(p.n) == G.n)
    k = z3.Int("k")
    with e.guard(z3.And(k >= 0, k < G.M)):
        xs = [e.force(p.at(SNum(4 * k + i))) for i in range(4)]
        if not all(is_num(x) for x in xs):
            raise Unsupported("permutation of another kind")
        xs = [lift_num(x) for x in xs]
        for i in range(4):
            t.prove(f"place {i}: a mode of the same macronode", z3.And(4 * k <= xs[i], xs[i] <= 4 * k + 3))
        t.prove("every mode once", z3.Distinct(*xs))
        t.prove("the star is a GKP mode if there is one", z3.Implies(z3.Or(*[G.gkp(G.pt(4 * k + i)) for i in range(4)]), G.gkp(G.pt(xs[0]))))
    t.prove("nothing else is written", not G.R.written() and not G.written())


def label_unit(t):
    """One star (body index 1) and planets 2, 3, 4 in each macronode; the reduced node has the star's state."""
    e, G = setup(t)
    t.case = noisy_case
    L, W = layer(t, G)
    old = z3.Function("old_body", NODE, I)
    G.node_attr("body_index", lambda v: SNum(old(v)), lambda v: z3.Function("had_body", NODE, z3.BoolSort())(v))
    G.R.node_attr("state", lambda *u: "p", lambda *u: z3.Function("had_state", I, I, I, z3.BoolSort())(*u))
    G.R.snapshot()
    G.snapshot()
    e.call(e.getattr(L, "_apply_macro_and_reduced_labels"), [])
    t.no_raise()
    v = z3.Const("v", NODE)
    with e.guard(G.N(v)):
        f, b = G.read("body_index", SRef(v))
        t.prove("every micronode has a body index", f)
        b = e.force(b)
        if not is_num(b):
            raise Unsupported("body index of another kind")
        t.prove("its place in the macronode", lift_num(b) == G.place(v) + 1)
    k = z3.Int("k")
    with e.guard(z3.And(k >= 0, k < G.M)):
        f, s = G.R.read("state", G.centre(k))
        t.prove("every reduced node has a state", f)
        t.prove("the state of the star", zb(e.eq(s, e.merge(G.gkp(G.mic(k, 0)), "GKP", "p"))))
    t.prove("nothing else is written", not G.R.written(but=("%nattr:state",)) and not G.written(but=("%nattr:body_index",)))


def call_args(a, kw, names, defaults):
    if len(a) > len(names) or set(kw) - set(names):
        raise Unsupported("call with other arguments")
    return {**defaults, **dict(zip(names, a)), **kw}


def circuit_unit(t):
    """Gates and beamsplitters, then measurement: each star in momentum, each planet in position."""
    e, G = setup(t)
    t.case = lambda m: dict(d=[2, 2, 2], ec="primal", b="open", delta=1e-13, bs="swap", seed=3)
    L, W = layer(t, G)
    rng = RNG()
    mean = z3.Function("mean", I, R)
    sampled, measured = [], []

    def sampler(en, a, kw):
        sampled.append(call_args(a[1:], kw, ["propagate", "rng"], dict(propagate=False)))
        return SymArr(SNum(2 * G.n), lambda j: SNum(mean(lift_num(j))))

    def inverse(en, a, kw):
        """Contract of invert_permutation (C16)."""
        p = en.force(a[0])
        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        if not isinstance(p, SymArr):
            raise Unsupported("inverse of another kind")
        n = lift_num(p.n)
        inn = lambda x: z3.And(x >= 0, x < n)
        x, y = lift_num(p.at(SNum(i))), lift_num(p.at(SNum(j)))
        if not en.entails(z3.Implies(inn(i), inn(x))) or not en.entails(z3.Implies(z3.And(inn(i), inn(j), x == y), i == j)):
            raise Unsupported("inverse of an array not known to be a permutation")
        f = z3.Function(fresh_name("inverse"), I, I)
        logic.DEFS[f.name()] = ([i], z3.Implies(inn(i), z3.And(inn(f(i)), lift_num(p.at(SNum(f(i)))) == i)))
        return SymArr(p.n, lambda j: SNum(f(lift_num(j))))

    def measure(en, a, kw):
        measured.append(call_args(a[1:], kw, ["quad", "inds", "updated_means", "updated_covs", "propagate", "rng"], dict(quad="p", inds=None, updated_means=None, updated_covs=None, propagate=True)))

    e.contracts[CV + "._means_sampler"] = sampler
    e.contracts["flamingpy.cv.ops.invert_permutation"] = inverse
    e.contracts[CV + ".measure_hom"] = measure
    G.R.snapshot()
    G.snapshot()
    e.call(e.getattr(L, "_entangle_states"), [], {"rng": rng})
    e.call(e.getattr(L, "_measure_syndrome"), [], {"rng": rng})
    t.no_raise()
    t.prove("the means are sampled once, behind the gates, with the generator that was given", len(sampled) == 1 and sampled[0]["propagate"] is True and sampled[0].get("rng") is rng)
    t.prove("the generator that was given measures", all(x.get("rng") is rng for x in measured))
    t.prove("no supplied deviations", all(x["updated_covs"] is None for x in measured))
    t.prove("one measurement of each quadrature", sorted(x["quad"] for x in measured) == ["p", "q"])
    if len(measured) != 2 or measured[0]["quad"] == measured[1]["quad"]:
        return
    k, j = z3.Ints("k j")
    for x in measured:
        inds, mu = e.force(x["inds"]), e.force(x["updated_means"])
        if inds is None or mu is None:
            t.prove(f"{x['quad']}: modes and means are given", False)
            continue
        if not isinstance(inds, (SymArr, SymList)) or not isinstance(mu, SymArr):
            raise Unsupported("modes or means of another kind")
        star = x["quad"] == "p"
        who = "stars" if star else "planets"
        i1, i2 = z3.Ints("i1 i2")
        with e.guard(z3.And(i1 >= 0, i1 < lift_num(inds.n), i2 >= 0, i2 < lift_num(inds.n), i1 != i2)):
            t.prove(f"{who}: one measurement per mode", lift_num(inds.at(SNum(i1))) != lift_num(inds.at(SNum(i2))))
        with e.guard(z3.And(j >= 0, j < G.n)):
            t.prove(f"the modes measured in {x['quad']} are the {who}", zb(e.contains(inds, SNum(j))) == ((G.PINV(j) % 4 == 0) if star else (G.PINV(j) % 4 != 0)))
        with e.guard(z3.And(k >= 0, k < G.M)):
            for i in [0] if star else [1, 2, 3]:
                off = 4 if star else 0
                at = (lambda l: G.n + G.PI(4 * k + l)) if star else (lambda l: G.PI(4 * k + l))
                want = z3.Sum([W(i + off, l + off) * mean(at(l)) for l in range(4)])
                t.prove(f"mean of mode {i}: row {i + off} of the network applied to the macronode", real(mu.at(SNum(at(i)))) == want)
    t.prove("nothing else is written", not G.R.written() and not G.written())


def build_unit(t, bound, net, kw):
    """The layer works on the macronized graph, padded unless the code is periodic; the network is the supplied one."""
    e, G = setup(t)
    t.case = (lambda m: dict(d=[2, 2, 2], ec="primal", b="open", delta=1e-13, bs="swap", seed=3)) if net else noisy_case
    calls = []

    def macronize(en, a, kw):
        calls.append((a[0], call_args(a[1:], kw, ["pad_boundary", "disp"], dict(pad_boundary=False, disp=0.1))))
        return G.g
    e.contracts[EG + ".macronize"] = macronize
    standard, mine = Opaque("four-splitter"), models.arr([SNum(z3.Real(f"w{i}")) for i in range(64)], (8, 8))
    split = []
    e.contracts["flamingpy.cv.ops.splitter_symp"] = lambda en, a, kw: split.append((a, kw)) or standard
    code = simple_obj(e, "any code", graph=G.R.g, bound_str=bound)
    args = dict(delta=SNum(DELTA))
    if net is not None:
        args["bs_network"] = mine if net else None
    p = z3.Real("p_swap")
    e.assume(z3.And(0 < p, p < 1))
    if kw:
        args["p_swap"] = SNum(p)
    G.R.snapshot()
    G.snapshot()
    L = e.call(e.lookup(ML), [code], args)
    t.no_raise()
    t.prove("macronized once", len(calls) == 1 and calls[0][0].store is G.R.g.store)
    t.prove("padded unless periodic", calls[0][1]["pad_boundary"] is (bound != "periodic"))
    get = lambda n: e.force(e.getattr(L, n))
    t.prove("the macronode graph", isinstance(get("egraph"), PObj) and get("egraph").store is G.g.store)
    t.prove("the graph of the code is the reduced graph", isinstance(get("reduced_graph"), PObj) and get("reduced_graph").store is G.R.g.store)
    t.prove("the network", get("bs_network") is (mine if net else standard) and all(not x[1] and list(x[0]) in ([], [4]) for x in split))
    t.prove("delta", lift_num(get("delta")) == DELTA)
    t.prove("two-step sampling", get("_sampling_order") == "two-step")
    ps = get("p_swap")
    t.prove("swap-out probability", is_num(ps) and lift_num(ps) == p if kw else ps is None)
    t.prove("nothing is written to the code's graph", not G.R.written())


def apply_unit(t):
    """Every application: populate, permute, label, entangle, measure, and reduce every macronode."""
    e, G = setup(t)
    t.case = noisy_case
    L, W = layer(t, G)
    order, reduced = [], []
    rng = RNG()
    for m in ("populate_states", "_permute_star_inds", "_apply_macro_and_reduced_labels", "_entangle_states", "_measure_syndrome", "_reduce_jth_macronode"):
        def f(en, a, kw, m=m):
            if en.path_vars():
                if m != "_reduce_jth_macronode":
                    raise Unsupported("repeated step")
            if m == "_reduce_jth_macronode":
                order.append(m)
                reduced.append((en.path_vars(), en.path_formula(), lift_num(call_args(a[1:], kw, ["j"], {})["j"])))
            else:
                if en.path_formula() is not True:
                    raise Unsupported("step under a condition")
                order.append(m)
                if m in ("populate_states", "_entangle_states", "_measure_syndrome"):
                    t.prove(f"{m} uses the generator that was given", list(a[1:]) + list(kw.values()) == [rng])
        e.contracts[f"{CV if m == 'populate_states' else ML}.{m}"] = f
    e.call(e.getattr(L, "apply_noise"), [rng], {})
    t.no_raise()
    first = ["populate_states", "_permute_star_inds", "_apply_macro_and_reduced_labels", "_entangle_states", "_measure_syndrome"]
    if sorted(set(order)) != sorted(first + ["_reduce_jth_macronode"]):
        raise Unsupported("other steps")
    at = {m: order.index(m) for m in order}
    n = len(order) - 1 - order[::-1].index("_measure_syndrome")
    t.prove("each step once before the reductions", order[:5] == first or all(order.count(m) == 1 for m in first))
    t.prove("states before stars, stars before labels and gates, gates before measurement, all before the reductions",
            at["populate_states"] < at["_permute_star_inds"] < min(at["_apply_macro_and_reduced_labels"], at["_entangle_states"])
            and at["_entangle_states"] < at["_measure_syndrome"] and max(at[m] for m in first) < at["_reduce_jth_macronode"])
    k = z3.Int("k")
    with e.guard(z3.And(k >= 0, k < G.M)):
        t.prove("every macronode is reduced", Or(*[logic.exists(list(v), zb(And(g, j == 4 * k))) if v else And(g, j == 4 * k) for v, g, j in reduced]))
    for n, (v, g, j) in enumerate(reduced):
        t.prove(f"only macronodes are reduced {n}", z3.Implies(zb(g), z3.And(j % 4 == 0, j >= 0, j < G.n)))


def degree_unit(t, ec, b):
    """Macronodes are full: four neighbours everywhere on a periodic lattice, at most four otherwise (then padded, C17)."""
    e = t.e
    d, bs = sym_dims(t), BOUNDS[ec, b]
    t.case = noiseless_case
    p = [z3.Int(f"p{i}") for i in range(3)]
    e.assume(node(p, d, bs))
    n = z3.Sum([z3.If(edge(p, step(p, *D, d, bs), d, bs), 1, 0) for D in DIRS])
    t.prove("neighbours", n == 4 if b == "periodic" else n <= 4)


def splitter_unit(t):
    """The default network: the four-splitter on positions and on momenta."""
    e = t.e
    e.symbolic_pi = e.reals = True
    t.case = noiseless_case
    c = z3.Real("cos45")
    e.assume(z3.And(c > 0, 2 * c * c == 1))

    def beam_splitter(en, a, kw):
        th = en.force(a[0])
        if len(a) != 2 or kw or not en.entails(real(th) == PI / 4) or not en.entails(real(en.force(a[1])) == 0):
            raise Unsupported("another beam splitter")
        m = [[c, -c, 0, 0], [c, c, 0, 0], [0, 0, c, -c], [0, 0, c, c]]
        return models.arr([SNum(x) if z3.is_expr(x) else 0 for r in m for x in r], (4, 4))

    def expand(en, a, kw):
        S, modes, N = en.force(a[0]), models.native(a[1])[1], a[2]
        if len(a) != 3 or kw or not isinstance(S, np.ndarray) or not isinstance(N, int) or 2 * len(modes) != S.shape[0] or len(set(modes)) != len(modes):
            raise Unsupported("expand")
        out = models.arr([int(i == j) for i in range(2 * N) for j in range(2 * N)], (2 * N, 2 * N))
        w = list(modes) + [x + N for x in modes]
        for i, x in enumerate(w):
            for j, y in enumerate(w):
                out[x, y] = S[i, j]
        return out
    e.ext_contracts["thewalrus.symplectic.beam_splitter"] = ModelFn("beam_splitter", beam_splitter)
    e.ext_contracts["thewalrus.symplectic.expand"] = ModelFn("expand", expand)
    m = e.force(e.call(e.lookup("flamingpy.cv.ops.splitter_symp"), []))
    t.no_raise()
    ok = isinstance(m, np.ndarray) and m.shape == (8, 8)
    t.prove("an 8 by 8 matrix", ok)
    if ok:
        for i in range(8):
            t.prove(f"row {i}", z3.And(*[2 * real(m[i, j]) == (W4[i % 4][j % 4] if i // 4 == j // 4 else 0) for j in range(8)]))


def parity_unit(t, ec, b):
    """Every lattice vertex is adjacent to an even number of the faces of a cell: a bit per vertex, added up over the
    neighbours of each face and over the faces of a cell, is even."""
    e = t.e
    d, bs = sym_dims(t), BOUNDS[ec, b]
    t.case = noiseless_case
    c = [z3.Int(f"c{i}") for i in range(3)]
    q = [z3.Int(f"q{i}") for i in range(3)]
    e.assume(is_cell(c, d, bs, ec))
    face = {D: step(c, *D, d, bs) for D in DIRS}
    nb = {(D, F): step(face[D], *F, d, bs) for D in DIRS for F in DIRS}
    term = {k: z3.And(node(face[k[0]], d, bs), edge(face[k[0]], nb[k], d, bs)) for k in nb}
    t.prove("the faces are different", z3.And(*[z3.Not(eq3(face[D], face[F])) for D, F in itertools.combinations(DIRS, 2)]))
    for D in DIRS:
        t.prove(f"neighbours of face {D}", z3.Implies(z3.And(node(face[D], d, bs), edge(face[D], q, d, bs)), z3.Or(*[eq3(q, nb[D, F]) for F in DIRS])))
        t.prove(f"neighbours of face {D} are different", z3.And(*[z3.Not(eq3(nb[D, F], nb[D, K])) for F, K in itertools.combinations(DIRS, 2)]))
        for F in DIRS:
            if F[0] == D[0]:
                t.prove(f"no vertex beyond face {D} on its axis ({F[1]})", z3.Not(term[D, F]))
            elif D < F:
                t.prove(f"faces {D} and {F} share a vertex", z3.And(eq3(nb[D, F], nb[F, D]), term[D, F] == term[F, D]))
    # the sum
    x = {k: z3.Bool(f"bit_{DIRS.index(k[0])}_{DIRS.index(k[1])}") for k in nb}
    tot = z3.BoolVal(False)
    for k in nb:
        tot = z3.Xor(tot, x[k])
    t.prove("the sum is even", z3.Implies(z3.And(*[x[D, F] == x[F, D] if F[0] != D[0] else z3.Not(x[D, F]) for D, F in nb]), z3.Not(tot)))


def real(x):
    x = lift_num(x)
    return z3.ToReal(x) if x.sort() == z3.IntSort() else x


def units():
    us = [Unit("stars first", star_unit), Unit("labels", label_unit), Unit("gates, network, measurement", circuit_unit)]
    us += [Unit("reduction of a macronode", reduce_unit, (False,)), Unit("splitter_symp", splitter_unit)]
    us += [Unit(f"reduction of a macronode without noise, neighbours {' '.join(k)}", reduce_unit, (True, k)) for k in KINDS]
    us += [Unit(f"error probability of a macronode, neighbours {' '.join(k)}", reduce_unit, (False, k)) for k in KINDS]
    us += [Unit(f"constructor, {b}, network {n}", build_unit, (b, n, b == "open_primal")) for b in ("open_primal", "open_dual", "periodic_primal", "periodic_dual", "periodic") for n in (None, False, True)]
    us += [Unit("apply_noise", apply_unit)]
    us += [Unit(f"degrees, {ec} {b}", degree_unit, (ec, b)) for ec, b in COMBOS]
    us += [Unit(f"parity of the cells, {ec} {b}", parity_unit, (ec, b)) for ec, b in COMBOS]
    return us
