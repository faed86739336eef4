from base import *
import math

RULE = "one graph, states, sampling order, quadrature, index sequence and perfect points per case; outcomes recomputed from the generator's own standard normal stream; non-trivial: every case"


def core(tier):
    for order in ("initial", "two-step"):
        for quad in ("p", "q"):
            for inds in ("none", "list", "array", "range", "tuple"):
                for perf in (False, True):
                    yield dict(order=order, quad=quad, inds=inds, perf=perf, seed=11, means=order == "two-step")
    for order in ("initial", "two-step"):
        for perf in (False, True):
            for tr in (False, True):
                for ec, b in CODES:
                    yield dict(code=[ec, b], order=order, perf=perf, tr=tr, seed=5)
    yield dict(order="two-step", prop="sampled", quad="p", seed=1)
    yield dict(order="two-step", prop="sampled", quad="q", seed=2)


def count(tier):
    return dict(quick=500, thorough=6000, search=6000)[tier]


def rand(rng, tier):
    if rng.random() < 0.3:
        return dict(code=list(rng.choice(CODES)), order=rng.choice(["initial", "two-step"]), perf=rng.random() < 0.5, tr=rng.random() < 0.3, seed=rng.randrange(10**6))
    if rng.random() < 0.2:
        return dict(order="two-step", prop="sampled", quad=rng.choice("pq"), seed=rng.randrange(10**6))
    o = rng.choice(["initial", "two-step"])
    return dict(order=o, quad=rng.choice("pq"), inds=rng.choice(["none", "list", "array", "range", "tuple"] if o == "x" else ["none", "list", "array", "range"]),
                perf=rng.random() < 0.5, seed=rng.randrange(10**6), means=o == "two-step", covs=rng.random() < 0.15)


def nontrivial(c):
    return True


def graph(rng):
    from flamingpy.codes.graphs import EGraph

    g = EGraph()
    n = rng.choice([1, 2, 3, 6, 9])
    for i in range(n):
        g.add_node((rng.randint(-4, 4), i, 0))
    pts = list(g.nodes)
    for _ in range(2 * n):
        a, b = rng.choice(pts), rng.choice(pts)
        if a != b:
            if rng.random() < 0.5:
                g.add_edge(a, b, weight=rng.choice([1, -1, 2]))
            else:
                g.add_edge(a, b)
    return g


def adjacency(g, pts):
    A = np.zeros((len(pts),) * 2)
    ix = {p: i for i, p in enumerate(pts)}
    for u, v, d in g.edges(data=True):
        A[ix[u], ix[v]] = A[ix[v], ix[u]] = d.get("weight", 1)
    return A


def near(a, b, s=1.0):
    return abs(float(a) - float(b)) <= 1e-5 * max(1.0, abs(b), s)


def check(c):
    from flamingpy.noise import CVLayer

    rng = random.Random(c["seed"])
    if "code" in c:
        return check_code(c, rng)
    g = graph(rng)
    N = len(g)
    delta = rng.choice([0.01, 0.1, 0.5, 1.0])
    S = sorted(rng.sample(range(N), rng.randint(0, N)))
    pts = sorted(g.nodes)
    perf = set()
    if c.get("perf"):
        perf = set(rng.sample(range(N), rng.randint(0, N)))
        g.graph["perfect_points"] = [pts[i] for i in sorted(perf)]
    L = CVLayer(g, delta=delta, states={"p": S}, sampling_order=c["order"])
    ck([g.to_points[i] for i in range(N)] == pts, "index order")
    A = adjacency(g, pts)
    if c.get("prop"):
        return sampled(c, L, g, pts, A, S, N, rng)
    L.populate_states()
    for n in g.nodes:
        g.nodes[n]["hom_val_q"] = g.nodes[n]["hom_val_p"] = "old"
    kind = c["inds"]
    I = list(range(N)) if kind == "none" else rng.sample(range(N), rng.randint(1, N))
    if kind == "range":
        I = list(range(rng.randint(0, N - 1), N))
    arg = {"none": None, "list": I, "array": np.array(I), "range": range(I[0], N) if kind == "range" else None, "tuple": tuple(I)}[kind]
    s = rng.randrange(10**9)
    quad = c["quad"]
    kw = dict(quad=quad, rng=np.random.default_rng(s))
    if kind != "none" or rng.random() < 0.5:
        kw["inds"] = arg
    if kind == "tuple":
        if c["order"] == "two-step":
            kw["inds"] = list(arg)  # a tuple is a multi-index of an array there
        else:
            kw["inds"] = list(arg)
    means = np.zeros(2 * N)
    if c.get("means"):
        means = np.array([rng.uniform(-5, 5) for _ in range(2 * N)])
        kw["updated_means"] = means.copy()
    L.measure_hom(**kw)
    z = np.random.default_rng(s).standard_normal(4 * N + 4)
    if c["order"] == "initial":
        sq = np.array([0 if i in perf else (1 / math.sqrt(2 * delta) if i in S else math.sqrt(delta / 2)) for i in range(N)])
        sp = np.array([0 if i in perf else math.sqrt(delta / 2) for i in range(N)])
        q = sq * z[:N]
        p = sp * z[N:2 * N] + A @ q
        want = {i: (q[i] if quad == "q" else p[i]) for i in I}
    else:
        off = 0 if quad == "q" else N
        want = {i: means[off + i] + (0 if i in perf else math.sqrt(delta / 2)) * z[k] for k, i in enumerate(I)}
    oq = "q" if quad == "p" else "p"
    for i, p in enumerate(pts):
        ck(g.nodes[p]["hom_val_" + oq] == "old", "the other quadrature was written")
        v = g.nodes[p]["hom_val_" + quad]
        if i not in want:
            ck(isinstance(v, str), lambda: f"outcome stored on index {i}, which was not requested ({I})")
        else:
            ck(not isinstance(v, str) and near(v, want[i], 10), lambda: f"index {i}: outcome {v}, expected {want[i]} (delta {delta}, p states {S}, perfect {perf}, requested {I})")
    ho = L.hom_outcomes(inds=I, quad=quad)
    ck(all(near(a, want[i], 10) for a, i in zip(ho, I)), "hom_outcomes")


class Const:
    """a generator whose random/integers return constants, so that sampled means are determined by the state"""

    def __init__(self, u, b):
        self.u, self.b = u, b

    def random(self, size=None):
        return self.u if size is None else np.full(size, self.u)

    def integers(self, lo, hi=None, size=None, **k):
        lo_, hi_ = (0, lo) if hi is None else (lo, hi)
        ck((lo_, hi_) == (0, 2) and not k.get("endpoint"), "GKP means must be drawn from 0 and 1")
        return self.b if size is None else np.full(size, self.b)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return np.array(loc) + 0.0 * np.array(scale)


def sampled(c, L, g, pts, A, S, N, rng):
    L.populate_states()
    u, b = rng.random(), rng.randint(0, 1)
    L.measure_hom(quad=c["quad"], rng=Const(u, b))
    q = np.array([u * 2 * math.sqrt(math.pi) if i in S else b * math.sqrt(math.pi) for i in range(N)])
    want = q if c["quad"] == "q" else A @ q
    for i, p in enumerate(pts):
        v = g.nodes[p]["hom_val_" + c["quad"]]
        ck(near(v, want[i], 30), lambda: f"sampled and propagated mean of index {i} is {v}, expected {want[i]}")


def check_code(c, rng):
    from flamingpy.noise import CVLayer

    ec, b = c["code"]
    code = mkcode(dict(d=[2, rng.choice([2, 3]), 2], ec=ec, b=b, pol=rng.random() < 0.5))
    g = code.graph
    N = len(g)
    pts = [g.to_points[i] for i in range(N)]
    syn = set(getattr(code, ec + "_syndrome_coords"))
    perf = set()
    if c["perf"]:
        perf = set(rng.sample(pts, N // 3))
        g.graph["perfect_points"] = sorted(perf)
    delta = rng.choice([0.05, 0.3])
    S = rng.sample(range(N), N // 4)
    kw = dict(delta=delta, states={"p": S}, sampling_order=c["order"])
    calls = []
    if c["tr"]:

        def tr(x):
            calls.append(list(x))
            return [int(float(v) > 0.3) for v in x]

        kw["translator"] = tr
    L = CVLayer(code, **kw)
    ref_tr = (lambda x: int(float(x) > 0.3)) if c["tr"] else None
    s = rng.randrange(10**9)
    # perfect qubits / distribution through public calls, twice
    for turn in range(2):
        if c["order"] == "initial":
            L.apply_noise(np.random.default_rng(s))
            z = np.random.default_rng(s).standard_normal(2 * N)
            A = adjacency(g, pts)
            sq = np.array([0 if pts[i] in perf else (1 / math.sqrt(2 * delta) if i in set(S) else math.sqrt(delta / 2)) for i in range(N)])
            sp = np.array([0 if pts[i] in perf else math.sqrt(delta / 2) for i in range(N)])
            p = sp * z[N:] + A @ (sq * z[:N])
            for i in range(N):
                if pts[i] in syn:
                    ck(near(g.nodes[pts[i]]["hom_val_p"], p[i], 10), lambda: f"{pts[i]}: outcome {g.nodes[pts[i]]['hom_val_p']}, expected {p[i]}")
        else:
            L.populate_states()
            mm = np.array([rng.uniform(-9, 9) for _ in range(2 * N)])
            inds = code.all_syndrome_inds
            L.measure_hom(quad="p", inds=inds, updated_means=mm, rng=np.random.default_rng(s))
            z = np.random.default_rng(s).standard_normal(len(inds))
            for i in set(inds):
                if pts[i] in perf:
                    opts = [mm[N + i]]
                else:
                    opts = [mm[N + i] + math.sqrt(delta / 2) * z[k] for k in range(len(inds)) if inds[k] == i]
                v = g.nodes[pts[i]]["hom_val_p"]
                ck(any(near(v, o, 10) for o in opts), lambda: f"{pts[i]} (perfect: {pts[i] in perf}): outcome {v}, possible {opts}")
            L.inner_decoder()
        al = math.sqrt(math.pi)
        for p_ in syn:
            h = float(g.nodes[p_]["hom_val_p"])
            bit = g.nodes[p_]["bit_val"]
            if ref_tr:
                ck(bit == ref_tr(h), lambda: f"{p_}: bit {bit} for outcome {h}")
            elif abs(abs(h / al - math.floor(h / al)) - 0.5) > 1e-6:
                ck(bit == math.floor(h / al + 0.5) % 2, lambda: f"{p_}: bit {bit} for outcome {h}")
        for p_ in g.nodes:
            if p_ not in syn:
                ck("bit_val" not in g.nodes[p_] and "hom_val_p" not in g.nodes[p_], "non-syndrome qubit measured")
