from base import *

RULE = "one graph, states/p_swap specification and sequence of calls per case; states partition checked after every call; non-trivial: some p-squeezed state possible"


def core(tier):
    for kind in ("code", "egraph"):
        for form in ("list", "tuple", "array", "range", "empty", "int32", "none", "emptydict"):
            yield dict(kind=kind, form=form, seed=3)
        for ps in (0, 0.0, None, 1, 1.0, 0.5, 0.05, 0.95):
            yield dict(kind=kind, ps=ps, seed=3)
        for form in ("list", "array", "tuple"):
            yield dict(kind=kind, form=form, ps=0.5, both=True, seed=3)
            yield dict(kind=kind, form=form, ps=1, both=True, seed=3)
    for s in range(12):
        yield dict(kind="egraph", ps=0.3, seed=s)
    yield dict(kind="code", stat=0.3, seed=1)
    yield dict(kind="egraph", stat=0.8, seed=1)
    yield dict(kind="macro", ps=0.5, seed=1)


def count(tier):
    return dict(quick=300, thorough=5000, search=5000)[tier]


def rand(rng, tier):
    c = dict(kind=rng.choice(["code", "egraph", "macro"]), seed=rng.randrange(10**6), big=True)
    if rng.random() < 0.5:
        c["form"] = rng.choice(["list", "tuple", "array", "int32", "none"])
    else:
        c["ps"] = rng.choice([0, 1, rng.random(), rng.random()])
    return c


def nontrivial(c):
    return c.get("form") not in ("empty", "none", "emptydict")


def target(c, rng):
    from flamingpy.codes import SurfaceCode, RHG_graph
    from flamingpy.codes.graphs import EGraph

    if c["kind"] == "code":
        ec, b = rng.choice(CODES)
        x = cached_code(dict(d=[2, rng.choice([2, 3]), 2], ec=ec, b=b))
        return x, x.graph
    if c["kind"] == "macro":
        x = RHG_graph(2, rng.choice(["primal", "periodic", "open_dual"])).macronize(disp=0.2)
        return x, x
    g = EGraph()
    n = rng.choice([1, 2, 5, 9])
    for i in range(n):
        g.add_node((rng.randint(-4, 4), i, 0))
    for _ in range(2 * n):
        a, b = rng.choice(list(g.nodes)), rng.choice(list(g.nodes))
        if a != b:
            g.add_edge(a, b)
    return g, g


def check(c):
    from flamingpy.noise import CVLayer, CVMacroLayer

    rng = random.Random(c["seed"])
    t, g = target(c, rng)
    for n in g.nodes:
        g.nodes[n].pop("state", None)
    N = len(g)
    kw = {}
    form = c.get("form")
    sup = sorted(rng.sample(range(N), rng.randint(1, N))) if form else []
    if rng.random() < 0.5:
        rng.shuffle(sup)
    if form in ("empty", "none", "emptydict"):
        sup = []
    if form == "range":
        sup = list(range(min(3, N)))
    keep = None
    if form and form != "none":
        keep = {"list": list, "tuple": tuple, "array": np.array, "range": lambda s: range(len(s)), "empty": list,
                "int32": lambda s: np.array(s, dtype=np.int32), "emptydict": list}[form](sup)
        kw["states"] = {} if form == "emptydict" else {"p": keep}
        supplied = kw["states"]
    if "ps" in c:
        kw["p_swap"] = c["ps"]
    delta = 0.1
    if c.get("both"):
        try:
            CVLayer(t, delta=delta, **kw)
        except Exception:
            return
        raise AssertionError("indices and swap-out probability both accepted")
    if "stat" in c:
        kw["p_swap"] = c["stat"]
    L = CVLayer(t, delta=delta, **kw)
    T = 400 if "stat" in c else 8
    gen = np.random.default_rng(c["seed"])
    sizes, seen = [], set()
    for turn in range(T):
        if c["kind"] == "code" and turn == 2 and "stat" not in c:
            L.apply_noise(gen)
        elif rng.random() < 0.5:
            L.populate_states(gen)
        else:
            L.populate_states(rng=gen)
        P, K = [int(i) for i in L.p_inds], [int(i) for i in L.gkp_inds]
        ck(len(P) == len(set(P)) and len(K) == len(set(K)), "index listed twice")
        ck(not set(P) & set(K) and set(P) | set(K) == set(range(N)), lambda: f"call {turn}: p {sorted(P)} and GKP {sorted(K)} do not partition {N} modes")
        for i in range(N):
            st = g.nodes[g.to_points[i]].get("state")
            ck(st == ("p" if i in set(P) else "GKP"), lambda: f"call {turn}: node of index {i} is labelled {st}, p indices {sorted(P)}")
        ps = kw.get("p_swap")
        if ps in (None, 0):
            ck(sorted(P) == sorted(sup), lambda: f"call {turn}: p indices {sorted(P)}, supplied {sorted(sup)}")
        elif ps == 1:
            ck(len(P) == N, "p_swap=1 leaves GKP modes")
        sizes.append(len(P))
        seen.add(tuple(sorted(P)))
    if keep is not None and form != "emptydict":
        ck(set(supplied) == {"p"} and [int(i) for i in supplied["p"]] == [int(i) for i in (range(len(sup)) if form == "range" else sup)], "the caller's indices were changed")
    if "stat" in c:
        m, sd = N * c["stat"], (N * c["stat"] * (1 - c["stat"]) / T) ** 0.5
        ck(abs(np.mean(sizes) - m) < 6 * sd, lambda: f"mean number of p states {np.mean(sizes)}, expected {m}")
        v = N * c["stat"] * (1 - c["stat"])
        ck(0.5 * v < np.var(sizes) < 2 * v, lambda: f"variance of the number of p states {np.var(sizes)}, expected {v}")
        cnt = [sum(i in s for s in seen) for i in range(N)]
        ck(min(cnt) > 0 and len(seen) > 1, "some mode is never drawn")
