from base import *

RULE = "one code and state per case: recovery with a random qubit set, and correct() with recording decoders/assigners in place of the real ones and with the real ones; non-trivial: every case"


def core(tier):
    for ec, b in CODES:
        for dec in ("MWPM", "UF"):
            for san in (False, True):
                yield dict(d=[2, 3, 3], ec=ec, b=b, dec=dec, san=san, seed=3)
                yield dict(d=[3, 2, 2], ec=ec, b=b, dec=dec, san=san, seed=4, opts=True)


def count(tier):
    return dict(quick=150, thorough=2500, search=2500)[tier]


def rand(rng, tier):
    ec, b = rng.choice(CODES)
    return dict(d=rand_dims(rng, 2, 4, 36), ec=ec, b=b, dec=rng.choice(["MWPM", "UF"]), san=rng.random() < 0.5, opts=rng.random() < 0.5, seed=rng.randrange(10**6))


def nontrivial(c):
    return True


def snap(code):
    import copy

    g = code.graph
    return ({n: dict(d) for n, d in g.nodes(data=True)}, {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)},
            dict(g.to_indices), {k: v for k, v in g.graph.items() if k != "primal_cubes"})


def check(c):
    import flamingpy.decoders.decoder as dm
    from c05 import planes

    code = cached_code(c)
    ec = c["ec"]
    rng = random.Random(c["seed"])
    nodes = list(code.graph.nodes)

    def setbits(p1=0.3):
        for p in nodes:
            code.graph.nodes[p]["bit_val"] = int(rng.random() < p1)
            code.graph.nodes[p]["other"] = rng.random()

    # 1. recovery
    setbits()
    for form in (set, list, tuple, frozenset):
        Q = set(rng.sample(nodes, rng.randint(0, min(7, len(nodes)))))
        before = snap(code)
        r = dm.recovery(form(Q), code, ec, sanity_check=c["san"])
        after = snap(code)
        ck(r is None, "recovery returns something")
        for n in nodes:
            exp = dict(before[0][n])
            if n in Q:
                exp["bit_val"] ^= 1
            ck(after[0][n] == exp, lambda: f"{n}: {before[0][n]} became {after[0][n]} (in the set: {n in Q})")
        ck(after[1:] == before[1:], "edge data or graph attributes changed")
    # 2. correct() with recorded collaborators
    setbits()
    Q = set(rng.sample(nodes, rng.randint(0, 6)))
    log = []
    saved = (dm.assign_weights, dm.mwpm_decoder, dm.uf_decoder)
    wopts = rng.choice([None, {}, {"method": "uniform"}, {"method": "blueprint", "integer": True, "multiplier": 7, "prob_precomputed": True}]) if c.get("opts") else None
    dopts = rng.choice([None, {}, {"backend": "networkx"}, {"backend": "lemon", "zzz": 5}]) if c.get("opts") else None
    try:
        dm.assign_weights = lambda *a, **k: log.append(("w", a, k))

        def rec(name):
            def f(*a, **k):
                log.append((name, a, k))
                return set(Q)

            return f

        dm.mwpm_decoder, dm.uf_decoder = rec("MWPM"), rec("UF")
        before = snap(code)
        kw = dict(decoder=c["dec"], sanity_check=c["san"])
        if c.get("opts"):
            kw.update(weight_options=wopts, decoder_opts=dopts)
        res = dm.correct(code, **kw)
    finally:
        dm.assign_weights, dm.mwpm_decoder, dm.uf_decoder = saved
    # how collaborators are referred to is not part of the property: judge only the calls that were seen
    wlog = [x for x in log if x[0] == "w"]
    dlog = [x for x in log if x[0] != "w"]

    def bind(call, names):
        a, k = call[1], dict(call[2])
        for n, v in zip(names, a):
            k[n] = v
        return k

    for x in wlog:
        k = bind(x, ["code", "decoder"])
        ck(k.pop("code") is code and k.pop("decoder") == c["dec"], "weights assigned for the wrong code or decoder")
        full = {"method": "uniform", "integer": False, "multiplier": 1}
        ck({**full, **k} == {**full, **(wopts or {})}, lambda: f"assign_weights called with {k}, options {wopts}")
    if dlog:
        ck([x[0] for x in dlog] == [c["dec"]], lambda: f"decoders called: {[x[0] for x in dlog]}")
        k = bind(dlog[0], ["code", "ec"] + (["backend", "draw", "drawing_opts"] if c["dec"] == "MWPM" else []))
        ck(k.pop("code") is code and k.pop("ec") == ec, "decoder called for the wrong code or complex")
        ck(not k.pop("draw", False), "drawing requested")
        k.pop("drawing_opts", None)
        full = {"backend": "rustworkx"}
        ck({**full, **k} == {**full, **(dopts or {})}, lambda: f"decoder options {k}, expected {dopts}")
        ck(not wlog or log[0][0] == "w", "weights assigned after decoding")
    else:
        Q = None
    after = snap(code)
    bits = {}
    for n in nodes if Q is not None else ():
        e = dict(before[0][n])
        if n in Q:
            e["bit_val"] ^= 1
        bits[n] = e["bit_val"]
        ck(after[0][n] == e, lambda: f"correct: {n} became {after[0][n]}, expected {e}")
    if Q is not None:
        dirs, want = planes(code, ec, bits)
        ck(isinstance(res, (bool, np.bool_)) and bool(res) == all(want[x][0] for x in dirs), lambda: f"correct returns {res}, plane parities {want}")
    # 3. correct() with the real decoder and assigner, observed from outside
    from flamingpy.decoders.mwpm.matching import NxMatchingGraph, RxMatchingGraph
    assign_weights = dm.assign_weights

    setbits(0.1)
    for p in nodes:
        del code.graph.nodes[p]["other"]
        code.graph.nodes[p]["state"] = rng.choice(["p", "GKP"])
        code.graph.nodes[p]["p_phase_cond"] = rng.choice([0.0, rng.random() / 2, 0.5])
    init = {p: code.graph.nodes[p]["bit_val"] for p in nodes}
    made = []
    Base = rng.choice([NxMatchingGraph, RxMatchingGraph])

    class Recorder(Base):
        def __init__(self, *a, **k):
            made.append(self)
            super().__init__(*a, **k)

    wopts = {} if c["dec"] == "UF" else rng.choice([{}, {"method": "blueprint", "prob_precomputed": True},
        {"method": "blueprint", "integer": True, "multiplier": 9, "prob_precomputed": True}])
    assign_weights(code, c["dec"], **wopts)
    wts = {p: code.graph.nodes[p].get("weight") for p in nodes}
    outs = []
    for san in (False, True):
        for p in nodes:
            code.graph.nodes[p]["bit_val"] = init[p]
            if code.graph.nodes[p].pop("weight", None) is not None:
                code.graph.nodes[p]["weight"] = 77
        made.clear()
        kw = {} if c["dec"] == "UF" else {"decoder_opts": {"backend": Recorder}}
        r = dm.correct(code, decoder=c["dec"], sanity_check=san, weight_options=wopts, **kw)
        ck(len(made) == (c["dec"] == "MWPM"), lambda: f"the requested matching backend was used {len(made)} times")
        bits = {p: code.graph.nodes[p]["bit_val"] for p in nodes}
        ck({p: code.graph.nodes[p].get("weight") for p in nodes} == wts, "weights assigned with other options")
        dirs, want = planes(code, ec, bits)
        ck(isinstance(r, (bool, np.bool_)) and bool(r) == all(want[x][0] for x in dirs), "correct does not return the outcome of the check")
        syn = set(getattr(code, ec + "_syndrome_coords"))
        ck(all(bits[p] == init[p] for p in nodes if p not in syn), "a non-syndrome qubit was flipped")
        ck(not list(getattr(code, ec + "_stab_graph").odd_parity_stabilizers()), "syndrome remains")
        outs.append((bool(r), bits))
    ck(c["dec"] == "UF" or outs[0] == outs[1], "outcome depends on the sanity check")
