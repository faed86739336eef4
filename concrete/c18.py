from base import *
import math

RULE = "one code, squeezing, swap-out specification and beamsplitter network per case, two applications; non-trivial: every case"
LIMIT = 200


def core(tier):
    for ec, b in CODES:
        for delta in (0, 1e-12):
            yield dict(d=[2, 2, 2], ec=ec, b=b, delta=delta, noiseless=True, seed=1)
            yield dict(d=[2, 3, 2], ec=ec, b=b, delta=delta, noiseless=True, pol=True, seed=2)
            yield dict(d=[2, 3, 2], ec=ec, b=b, delta=delta, noiseless=True, pol=True, ps=0.2, seed=3)
            yield dict(d=[2, 3, 2], ec=ec, b=b, delta=delta, noiseless=True, ps=0.2, seed=4)
        for ps in (0, 0.3, 1):
            yield dict(d=[2, 2, 2], ec=ec, b=b, delta=0.1, ps=ps, seed=3)
        yield dict(d=[2, 2, 2], ec=ec, b=b, delta=1e-13, bs="swap", seed=3)
        yield dict(d=[2, 2, 2], ec=ec, b=b, delta=1e-13, bs="id", seed=4)
        yield dict(d=[2, 2, 3], ec=ec, b=b, delta=1e-13, bs="diag", seed=4)
        yield dict(d=[2, 2, 2], ec=ec, b=b, delta=0.1, bs="same", seed=5)


def count(tier):
    return dict(quick=60, thorough=600, search=600)[tier]


def rand(rng, tier):
    ec, b = rng.choice(CODES)
    c = dict(d=rand_dims(rng, 2, 4, 30), ec=ec, b=b, seed=rng.randrange(10**6), pol=rng.random() < 0.5)
    r = rng.random()
    if r < 0.4:
        c.update(delta=rng.choice([0, 1e-12]), noiseless=True)
        if rng.random() < 0.5:
            c["ps"] = rng.choice([0.05, 0.2, 0.4])
    elif r < 0.8:
        c.update(delta=rng.choice([0.01, 0.1, 0.3]), ps=rng.choice([0, 0.1, 0.5, 0.9, 1]))
    else:
        c.update(delta=1e-13, bs=rng.choice(["swap", "id", "diag"]))
    return c


def nontrivial(c):
    return True


def zerr(v, x):
    """Conditional phase-error probability of an outcome x (C15)."""
    al = math.sqrt(math.pi)
    m = math.floor(x / al + 0.5)
    w = lambda n: math.exp(-((x - n * al) ** 2) / v)
    # the terms that are kept by default
    total = sum(w(n) for n in range(-10, 10))
    return sum(w(2 * n + 1 - m % 2) for n in range(-10, 10)) / total if total else 0


def check(c):
    from flamingpy.noise import CVMacroLayer
    from flamingpy.cv.ops import splitter_symp

    code = mkcode(c)
    ec = c["ec"]
    rng = random.Random(c["seed"])
    kw = {}
    if "ps" in c:
        kw["p_swap"] = c["ps"]
    bs = c.get("bs")
    W = None
    if bs == "id":
        W = np.eye(8)
    elif bs == "swap":
        P = np.eye(4)[rng.sample(range(4), 4)]
        W = np.block([[P, np.zeros((4, 4))], [np.zeros((4, 4)), P]])
    elif bs == "diag":
        W = np.diag([2, 3, 4, 5, 1 / 2, 1 / 3, 1 / 4, 1 / 5])
    elif bs == "same":
        W = splitter_symp()
    if W is not None:
        kw["bs_network"] = W
    L = CVMacroLayer(code, delta=c["delta"], **kw)
    g = L.egraph
    red = code.graph
    for turn in range(2):
        for p in red.nodes:
            for a in ("bit_val", "p_phase_cond", "state"):
                if rng.random() < 0.5:
                    red.nodes[p][a] = "stale"
        for q in g.nodes:
            g.nodes[q].pop("hom_val_p", None)
            g.nodes[q].pop("hom_val_q", None)
        s = rng.randrange(10**9)
        L.apply_noise(np.random.default_rng(s))
        T = g.macro_to_micro
        ck(set(T) == set(red.nodes), "macronodes")
        for p, ms in T.items():
            ck(len(ms) == 4, lambda: f"{p} has {len(ms)} micronodes")
            stars = [q for q in ms if g.nodes[q]["body_index"] == 1]
            ck(len(stars) == 1 and sorted(g.nodes[q]["body_index"] for q in ms) == [1, 2, 3, 4], lambda: f"body indices of {p}: {[g.nodes[q]['body_index'] for q in ms]}")
            st = stars[0]
            states = [g.nodes[q]["state"] for q in ms]
            ck(set(states) <= {"p", "GKP"}, "states")
            ck(g.nodes[st]["state"] == ("GKP" if "GKP" in states else "p"), lambda: f"star of {p} is {g.nodes[st]['state']}, modes {states}")
            ck(red.nodes[p]["state"] == g.nodes[st]["state"], lambda: f"{p} labelled {red.nodes[p]['state']}")
            for q in ms:
                has = {x for x in "pq" if "hom_val_" + x in g.nodes[q]}
                ck(has == ({"p"} if q is st or q == st else {"q"}), lambda: f"{q} (star: {q == st}) measured in {has}")
            b = red.nodes[p]["bit_val"]
            ck(not isinstance(b, str) and b in (0, 1), lambda: f"bit value {b!r} of {p}")
            e = red.nodes[p]["p_phase_cond"]
            ck(not isinstance(e, str) and 0 <= e <= 0.5, lambda: f"error probability {e!r} of {p}")
        if c["delta"] > 1e-6 and bs is None:
            # the variance of the binned outcomes (exp(-x^2 / v) has variance v / 2): delta / 2 per measured quadrature
            val = lambda x, a: float(g.nodes[x]["hom_val_" + a])
            for p, ms in T.items():
                st = next(q for q in ms if g.nodes[q]["body_index"] == 1)
                out, n, tot = 2 * val(st, "p"), 0, 0
                for q in ms:
                    for r in g[q]:
                        h = {g.nodes[x]["body_index"]: x for x in T[tuple(round(i) for i in r)]}
                        z = {1: 0, 2: (2, 4, -1), 3: (3, 4, -1), 4: (2, 3, 1)}[g.nodes[r]["body_index"]]
                        z = z and val(h[z[0]], "q") + z[2] * val(h[z[1]], "q")
                        if g.nodes[r]["state"] == "p":
                            n += 1
                            out -= g.edges[q, r].get("weight", 1) * z
                        else:
                            tot += zerr(2 * c["delta"], z)
                tot += zerr(2 * (2 + n) * c["delta"], out)
                got = float(red.nodes[p]["p_phase_cond"])
                ck(abs(got - min(0.5, tot)) < 1e-4, lambda: f"{p}: error probability {got}, the outcomes give {min(0.5, tot)}")
        if c.get("noiseless"):
            known = lambda v: all(red.nodes[n]["state"] == "GKP" for n in red[v])
            odd = [s_ for s_ in getattr(code, ec + "_stabilizers") if all(known(q) for q in s_.coords()) and sum(int(red.nodes[q]["bit_val"]) for q in s_.coords()) % 2]
            ck(not odd, lambda: f"{len(odd)} stabilizers are odd without noise")
            if "ps" not in c:
                ck(not list(getattr(code, ec + "_stab_graph").odd_parity_stabilizers()), "odd stabilizers without noise")
        if "ps" not in c and bs in ("id", "swap", "diag"):
            # all GKP, no noise: with a permutation network each measured value is the quadrature of one micronode:
            # q is 0 or sqrt(pi), p is its neighbour's q times the edge weight
            al = math.sqrt(math.pi)
            for p, ms in T.items():
                for q in ms:
                    d = g.nodes[q]
                    v = float(d.get("hom_val_p", d.get("hom_val_q"))) / al
                    lim = (-1, 0, 1) if "hom_val_p" in d else (0, 1)
                    if bs == "diag":
                        k = d["body_index"] + 1
                        lim = [x / k if "hom_val_p" in d else x * k for x in lim]
                    ck(any(abs(v - k) < 1e-3 for k in lim), lambda: f"{q}: outcome {v} sqrt(pi) is not a quadrature value of a permutation network")
            if bs == "id":
                for p, ms in T.items():
                    st = next(q for q in ms if g.nodes[q]["body_index"] == 1)
                    nb = list(g[st])
                    if nb and "hom_val_q" in g.nodes[nb[0]]:
                        want = g.edges[st, nb[0]].get("weight", 1) * float(g.nodes[nb[0]]["hom_val_q"])
                        ck(abs(float(g.nodes[st]["hom_val_p"]) - want) < 1e-3, lambda: f"star {st}: p outcome {g.nodes[st]['hom_val_p']}, neighbour's q {want}")
        if turn == 0 and bs == "same":
            got = {p: (red.nodes[p]["bit_val"], red.nodes[p]["p_phase_cond"]) for p in red.nodes}
            code2 = mkcode(c)
            L2 = CVMacroLayer(code2, delta=c["delta"])
            L2.apply_noise(np.random.default_rng(s))
            ck(got == {p: (code2.graph.nodes[p]["bit_val"], code2.graph.nodes[p]["p_phase_cond"]) for p in got}, "the default network differs from the four-splitter")
