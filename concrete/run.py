"""Driver: run.py ID [--tier quick|thorough|search] [--seed N] [--out F] [--replay F] [--jobs N] [--budget S]

Runs the bounded, concrete checks of one property against the real code in /repo: used to replay and to search
for failing inputs, to validate assumed contracts of dependencies, and as the labelled bounded stand-in."""
import argparse, importlib, json, os, random, signal, sys, time, traceback, multiprocessing as mp, warnings, io, contextlib

warnings.filterwarnings("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def preload():
    """Use the extension that the check compiled from the current tree, if it did."""
    so = os.environ.get("PV_LEMON_SO")
    if so:
        import importlib.util

        spec = importlib.util.spec_from_file_location("flamingpy.cpp.lemonpy", so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        import types

        sys.modules["flamingpy.cpp.lemonpy"] = m
    import flamingpy

    if so:
        import flamingpy.cpp as cpp

        cpp.lemonpy = m


class HarnessError(Exception):
    pass


class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout("no result within the time limit of a case")


def one(mod, case, limit):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mod.check(case)
        return None
    except AssertionError as e:
        return f"{e}" or traceback.format_exc(limit=-3)
    except CaseTimeout as e:
        return f"CaseTimeout: {e}"
    except ImportError as e:
        raise HarnessError(traceback.format_exc()) from e
    except Exception as e:
        return f"{type(e).__name__}: {e}\n" + traceback.format_exc(limit=-4)
    finally:
        signal.alarm(0)


def worker(a):
    pid, w, jobs, tier, seed, deadline = a
    mod = importlib.import_module(pid.lower())
    n = nontriv = 0
    seen = set()
    samples = []
    fails = []
    core = list(mod.core(tier))
    core_n = len(core)
    rng = random.Random(f"{seed}-{w}-{pid}-{tier}")
    total = mod.count(tier) * {"quick": 12, "thorough": 6, "search": 6}[tier]
    share = total // jobs + (1 if w < total % jobs else 0)

    def gen():
        for i, c in enumerate(core):
            if i % jobs == w:
                yield c
        for _ in range(share):
            yield mod.rand(rng, tier)

    limit = getattr(mod, "LIMIT", 100)
    complete = True
    for c in gen():
        if time.time() > deadline:
            complete = False
            break
        c = json.loads(json.dumps(c))
        r = one(mod, c, limit)
        n += 1
        key = json.dumps(c, sort_keys=True)
        if key not in seen and mod.nontrivial(c):
            seen.add(key)
        if len(samples) < 2:
            samples.append(c)
        if r is not None:
            fails.append((c, r))
            break
    return n, len(seen), samples, fails, complete, core_n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--cases", help="JSON list of cases to try")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--budget", type=float, default=600)
    a = ap.parse_args()
    preload()
    mod = importlib.import_module(a.pid.lower())
    if a.replay:
        case = json.load(open(a.replay))["case"]
        r = one(mod, case, getattr(mod, "LIMIT", 100))
        print("FAILS: " + r if r else "passes")
        return 1 if r else 0
    t0 = time.time()
    if a.cases:
        cases = json.load(open(a.cases))
        fails, n = [], 0
        for c in cases:
            if time.time() - t0 > a.budget:
                break
            n += 1
            r = one(mod, c, getattr(mod, "LIMIT", 100))
            if r is not None:
                fails.append(dict(case=c, error=r))
                break
        json.dump(dict(property=a.pid, tier="counterexamples", evaluations=n, distinct_nontrivial=n, core=n, complete=True, rule=mod.RULE,
                       samples=cases[:3], fails=fails, wall_s=time.time() - t0), open(a.out, "w"), indent=1)
        return 1 if fails else 0
    ctx = mp.get_context("fork")
    with ctx.Pool(a.jobs) as p:
        rs = p.map(worker, [(a.pid, w, a.jobs, a.tier, a.seed, t0 + a.budget) for w in range(a.jobs)])
    fails = [f for r in rs for f in r[3]]
    out = dict(
        property=a.pid,
        tier=a.tier,
        evaluations=sum(r[0] for r in rs),
        distinct_nontrivial=sum(r[1] for r in rs),
        core=rs[0][5],
        complete=all(r[4] for r in rs),
        rule=mod.RULE,
        samples=[s for r in rs for s in r[2]][:3],
        fails=[dict(case=c, error=e) for c, e in sorted(fails, key=lambda f: len(json.dumps(f[0])))],
        wall_s=time.time() - t0,
    )
    if a.out:
        json.dump(out, open(a.out, "w"), indent=1)
    print(json.dumps({k: v for k, v in out.items() if k != "samples"}, indent=1)[:3000])
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main())
