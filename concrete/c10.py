from base import *
import math, sys

RULE = "one code, state/probability/outcome assignment and option set per case; every weight compared with the definition; non-trivial: some p-squeezed state"


def core(tier):
    for ec, b in CODES:
        for sb in ("rustworkx", "networkx"):
            for mode in ("uniform-M", "uniform-U", "pre", "hom", "pre-int", "hom-int", "refuse", "default"):
                yield dict(d=[2, 3, 3], ec=ec, b=b, sb=sb, mode=mode, seed=1)
                yield dict(d=[3, 2, 2], ec=ec, b=b, sb=sb, mode=mode, seed=2)


def count(tier):
    return dict(quick=400, thorough=6000, search=6000)[tier]


def rand(rng, tier):
    ec, b = rng.choice(CODES)
    return dict(d=rand_dims(rng, 2, 5, 50), ec=ec, b=b, sb=rng.choice(["rustworkx", "networkx"]),
                mode=rng.choice(["uniform-M", "uniform-U", "pre", "hom", "pre-int", "hom-int", "default"]), seed=rng.randrange(10**6))


def nontrivial(c):
    return True


def zcond(var, x, nmax=10):
    a = math.sqrt(math.pi)
    n = round(x / a)
    f = x - n * a
    ex = lambda k: math.exp(-((f - k * a) ** 2) / var)
    den = sum(ex(i) for i in range(-nmax, nmax))
    return sum(ex(2 * i + 1) for i in range(-nmax, nmax)) / den if den else 0


def check(c):
    from flamingpy.decoders.decoder import assign_weights

    code = cached_code(c)
    ec = c["ec"]
    rng = random.Random(c["seed"])
    G = code.graph
    syn = set(getattr(code, ec + "_syndrome_coords"))
    m = c["mode"]
    ps = rng.choice([0, 0.1, 0.5, 0.8, 1])
    delta = rng.choice([0.001, 0.01, 0.1, 0.3])
    for p in G.nodes:
        G.nodes[p]["state"] = "p" if rng.random() < ps else "GKP"
        G.nodes[p]["p_phase_cond"] = rng.choice([0, 0.0, 1e-300, rng.random() / 2, 0.5, 0.5000001, 0.7, 1.0])
        G.nodes[p]["hom_val_p"] = rng.choice([0.0, rng.uniform(-0.4, 0.4), rng.uniform(-10, 10), math.sqrt(math.pi) * rng.randint(-3, 3)])
        G.nodes[p]["bit_val"] = rng.randint(0, 1)
        if p not in syn and rng.random() < 0.5:
            G.nodes[p]["weight"] = ("mark", p)
        if rng.random() < 0.5 and p in syn:
            G.nodes[p]["weight"] = 12345
    if m == "uniform-U" and rng.random() < 0.3:  # states are not needed on the nodes
        for p in G.nodes:
            if rng.random() < 0.5:
                G.nodes[p].pop("state")
    before = {p: dict(G.nodes[p]) for p in G.nodes}
    mult = rng.choice([None, 1, 3, 10, 1000])
    opts = {}
    dec = "MWPM"
    if m in ("uniform-M", "uniform-U"):
        dec = "MWPM" if m[-1] == "M" else "UF"
        opts = rng.choice([{}, {"method": "uniform"}, {"method": "uniform", "integer": True}])
    elif m == "refuse":
        try:
            assign_weights(code, "UF", method="blueprint", prob_precomputed=True, delta=0.1)
        except Exception:
            return
        raise AssertionError("blueprint weights accepted with Union-Find")
    elif m != "default":
        opts = {"method": "blueprint"}
        if m.startswith("pre"):
            opts["prob_precomputed"] = True
            if rng.random() < 0.5:
                opts["delta"] = delta
        else:
            opts["delta"] = delta
            if rng.random() < 0.5:
                opts["prob_precomputed"] = False
        if m.endswith("int"):
            opts["integer"] = True
            if mult:
                opts["multiplier"] = mult
        elif rng.random() < 0.3:
            opts["multiplier"] = 5
            opts["integer"] = False
    assign_weights(code, dec, **opts)
    tiny = sys.float_info.min
    for p in G.nodes:
        now = dict(G.nodes[p])
        if p not in syn:
            ck(now == before[p], lambda: f"non-syndrome node {p} changed: {before[p]} -> {now}")
            continue
        w = now.pop("weight")
        old = dict(before[p])
        old.pop("weight", None)
        ck(now == old, "other attributes of a syndrome node changed")
        nb = list(G[p])
        k = sum(before[q].get("state") == "p" for q in nb)
        if opts.get("method", "uniform") == "uniform":
            want = 1 if dec == "MWPM" else (-1 if k >= 2 else 2)
            ck(w == want, lambda: f"weight {w} of {p} with {k} p-squeezed neighbours, expected {want}")
        else:
            if k >= 2:
                pr = {2: 1 / 4, 3: 1 / 3, 4: 2 / 5}[k]
            else:
                pr = old["p_phase_cond"] if opts.get("prob_precomputed") else zcond((len(nb) + 1) * delta, old["hom_val_p"])
                pr = min(pr, 0.5) or tiny
            if opts.get("integer"):
                x = -opts.get("multiplier", 1) * math.log(pr)
                ck(w == int(w) and (w == round(x) or abs(abs(w - x) - 0.5) < 1e-6), lambda: f"integer weight {w} of {p}, expected {round(x)}")
            else:
                x = -math.log(pr)
                ck(abs(w - x) <= 1e-6 * max(1, abs(x)) or (x > 600 and w > 600), lambda: f"weight {w} of {p} with {k} p neighbours of {len(nb)}, expected {x}")
    sg = getattr(code, ec + "_stab_graph")
    for e in sg.edges():
        d = sg.edge_data(*e)
        q = d["common_vertex"]
        ck(d["weight"] == (0 if q is None else G.nodes[q]["weight"]), lambda: f"stabilizer-graph edge at {q} weighs {d['weight']}")
