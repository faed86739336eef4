from base import *

RULE = "one code, probability and generator per case, several applications; bits compared with the draws; non-trivial: 0 < p < 1"


def core(tier):
    for p in (0, 0.0, 1, 1.0, 0.5, 1e-12, 1 - 1e-12, 0.1):
        for ec, b in CODES:
            yield dict(d=[2, 3, 2], ec=ec, b=b, p=p, seed=4)
            yield dict(d=[2, 3, 2], ec=ec, b=b, p=p, seed=4, mock=True)
    for p in (-1e-12, -1, 1.0000001, 2, float("inf"), -0.5):
        yield dict(d=[2, 2, 2], ec="primal", b="open", p=p, bad=True, seed=0)


def count(tier):
    return dict(quick=200, thorough=3000, search=3000)[tier]


def rand(rng, tier):
    ec, b = rng.choice(CODES)
    return dict(d=rand_dims(rng, 2, 5, 60), ec=ec, b=b, p=rng.choice([rng.random(), rng.random() ** 4, 0.5]), seed=rng.randrange(10**6), mock=rng.random() < 0.4)


def nontrivial(c):
    return 0 < c["p"] < 1


class Mock:
    """uniform draws with prescribed values, some exactly at the error probability"""

    def __init__(self, vals):
        self.vals = vals
        self.i = 0

    def random(self, size=None):
        if size is None:
            self.i += 1
            return self.vals[self.i - 1]
        n = int(np.prod(size))
        self.i += n
        return np.array(self.vals[self.i - n: self.i]).reshape(size)


def check(c):
    from flamingpy.noise import IidNoise

    code = cached_code(c)
    if c.get("bad"):
        return expect_raises(ValueError, lambda: IidNoise(code, c["p"]), f"IidNoise with probability {c['p']}")
    p = c["p"]
    noise = IidNoise(code, p)
    nodes = list(code.graph.nodes)
    idx = [code.graph.to_points[i] for i in sorted(code.graph.to_points)]
    rng = random.Random(c["seed"])
    N = len(nodes)
    other = {n: rng.random() for n in nodes}
    for n in nodes:
        code.graph.nodes[n]["mark"] = other[n]
    for turn in range(3):
        if turn == 1:
            for n in nodes:
                code.graph.nodes[n]["bit_val"] = rng.choice([0, 1, 7])
        if c.get("mock"):
            draws = [rng.choice([p if p < 1 else 0.9999999, rng.random(), 0.0, np.nextafter(p, 0) if p > 0 else 0.0]) for _ in range(N)]
            g = Mock(draws + [0.123] * 10)
            noise.apply_noise(g)
            ck(g.i == N, lambda: f"{g.i} draws for {N} qubits")
        else:
            s = rng.randrange(10**9)
            draws = list(np.random.default_rng(s).random(N + 1))
            g = np.random.default_rng(s)
            noise.apply_noise(g) if rng.random() < 0.5 else noise.apply_noise(rng=g)
            ck(g.random() == draws[N], "number of draws differs from the number of qubits")
        want = [int(u < p) for u in draws[:N]]
        got = {n: code.graph.nodes[n]["bit_val"] for n in nodes}
        ck(all(type(v) is int or isinstance(v, np.integer) for v in got.values()), "bit values are not integers")
        ok = any([got[n] for n in order] == want for order in (nodes, idx))
        ck(ok, lambda: f"bits {[got[n] for n in nodes][:10]} for draws {draws[:10]} and p={p}")
        if p in (0, 1):
            ck(set(got.values()) <= {int(p)}, "p=0 or 1 is not deterministic")
        ck(all(code.graph.nodes[n]["mark"] == other[n] for n in nodes), "other data changed")
    noise.apply_noise()
    ck(all(code.graph.nodes[n]["bit_val"] in (0, 1) for n in nodes), "default generator")
