"""Run the proof obligations of one property (contracts/cXX.py) on /repo's source."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

import z3

from pv.values import *
from pv.values import zb
from pv.interp import Engine
from pv import logic


class Unit:
    def __init__(self, name, fn, args=(), tier="quick", bounded=False, covers=()):
        self.name, self.fn, self.args, self.tier = name, fn, args, tier
        self.bounded = bounded  # finite instance of a unit: never counted as proved
        self.covers = covers


class Task:
    """One unit: symbolic execution of real code plus obligations about it."""

    def __init__(self, name, timeout):
        self.name = name
        self.e = Engine(os.environ.get("PV_REPO", "/repo"))
        self.timeout = timeout
        self.obs = []
        self.vac = []
        self.assumed = []
        self.case = None  # model -> input of the concrete oracle
        self.small = []  # integer terms to keep small in counterexamples

    def assume_text(self, s):
        if s not in self.assumed:
            self.assumed.append(s)

    def hyps(self):
        e = self.e
        return list(e.assumptions) + list(e.facts) + [zb(e.path_formula())]

    def solve(self, fs, timeout):
        e = self.e
        t = time.time()
        fs = [zb(f) for f in fs]
        fs += logic.real_axioms(fs)
        fs += logic.ground_axioms(fs)
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        for f in fs:
            s.add(zb(f))
        r = s.check()
        model = None
        if r == z3.sat:
            model = s.model()
        elif r == z3.unknown and timeout > 3:
            for tac in ("smt-seed", "cvc5"):
                if tac == "smt-seed":
                    s2 = z3.SolverFor("AUFLIRA") if False else z3.Solver()
                    s2.set("timeout", int(timeout * 1000))
                    s2.set("random_seed", 7)
                    s2.set("smt.arith.solver", 2)
                    for f in fs:
                        s2.add(zb(f))
                    r = s2.check()
                    if r == z3.sat:
                        model = s2.model()
                else:
                    r = cvc5_check(s, timeout)
                if r != z3.unknown:
                    break
        return r, model, time.time() - t

    def quick(self, fs, timeout=3):
        """unsat / sat / unknown by one solver call (used to look for witnesses)."""
        fs = [zb(f) for f in fs]
        fs += logic.real_axioms(fs)
        fs += logic.ground_axioms(fs)
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.add(*fs)
        return s.check()

    def instances(self, terms):
        """Quantified facts about one variable, at these terms."""
        out = []
        for f in self.e.facts:
            if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1:
                for x in terms:
                    if x.sort() == f.var_sort(0):
                        out.append(z3.substitute_vars(f.body(), x))
        return out

    def prove(self, name, goal, hyps=(), timeout=None, qf=False):
        """Obligation: hypotheses (assumptions, facts, path) entail the goal; qf: without quantified facts."""
        full = f"{self.name}: {name}"
        if isinstance(goal, (list, tuple)):
            for i, g in enumerate(goal):
                self.prove(f"{name}.{i}", g, hyps, timeout, qf)
            return
        if is_true(goal):
            self.obs.append(dict(name=full, status="proved", s=0.0, by="evaluation"))
            return
        base = [h for h in self.hyps() if not (qf and z3.is_quantifier(h))]
        r, model, dt = self.solve(base + [zb(h) for h in hyps] + [z3.Not(zb(goal))], timeout or self.timeout)
        st = "proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown"
        d = dict(name=full, status=st, s=dt, by="z3")
        if st != "proved":
            d["detail"] = (f"counterexample: {model}"[:1500] if model is not None else "no answer in time") + f"\ngoal: {goal}"[:2000]
        if st == "refuted" and self.case is not None:
            try:
                d["case"] = self.case(self.smallest(goal, hyps, model))
            except Exception as x:  # noqa: BLE001 - a counterexample without a replay
                d["detail"] += f"\n(no replay: {x})"
        self.obs.append(d)

    def smallest(self, goal, hyps, model):
        fs = self.hyps() + [zb(h) for h in hyps] + [z3.Not(zb(goal))]
        for b in (2, 3, 4, 5, 6, 8, 10, 13, 17, 25, 40) if self.small else ():
            s = z3.Solver()
            s.set("timeout", 5000)
            for f in fs:
                s.add(zb(f))
            for x in self.small:
                s.add(x <= b, x >= -b)
            if s.check() == z3.sat:
                return s.model()
        return model

    def lean(self, name, file):
        """A lemma about finite sums or orders, checked by Lean (independent of the code)."""
        import subprocess

        t = time.time()
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lemmas", file)
        if "sorry" in open(p).read() or "axiom" in open(p).read():
            raise Unsupported("incomplete Lean lemma")
        try:
            r = subprocess.run(["lean", p], capture_output=True, text=True, timeout=240)
        except (OSError, subprocess.TimeoutExpired) as x:
            raise Unsupported(f"Lean gives no answer: {x}")
        if r.returncode or "error" in r.stdout:
            raise Unsupported("Lean: " + (r.stdout + r.stderr)[:300])
        self.obs.append(dict(name=f"{self.name}: {name} ({file})", status="proved", s=time.time() - t, by="Lean 4"))

    def reach(self, name, f=True):
        """Vacuity check: hypotheses together with f are satisfiable."""
        qf = [h for h in self.hyps() if not z3.is_quantifier(h)]
        r, model, dt = self.solve(qf + [zb(f)], 3)
        self.vac.append(dict(name=f"{self.name}: {name}", result=str(r)))
        if r == z3.unsat:
            self.obs.append(dict(name=f"{self.name}: reachable {name}", status="unknown", s=dt,
                                 detail="the hypotheses are contradictory"))

    def no_raise(self, name="no exception", allowed=()):
        """No exception is raised under the assumptions."""
        for i, r in enumerate(self.e.raises):
            if r["exc"] in allowed:
                continue
            self.prove(f"{name} ({r['exc']} at {r['where']})", Not(r["cond"]))
        if not self.e.raises:
            self.prove(name, True)

    def raised(self, exc=None):
        """Formula: an exception (of that type) was raised."""
        return Or(*[
            self.e_exists(r["vars"], r["cond"]) for r in self.e.raises if exc is None or r["exc"] == exc
        ])

    def e_exists(self, vs, f):
        from pv.logic import exists

        return exists(list(vs), zb(f)) if vs else f


def cvc5_check(s, timeout):
    import subprocess
    import tempfile

    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(["cvc5", f"--tlimit={int(timeout*1000)}", f.name], capture_output=True, text=True)
        out = r.stdout.strip().splitlines()
        if out and out[0] == "unsat":
            return z3.unsat
        return z3.unknown
    finally:
        os.unlink(f.name)


def run_unit(mod, idx, timeout, q):
    sys.setrecursionlimit(20000)
    u = importlib.import_module(mod).units()[idx]
    t = Task(u.name, timeout)
    t0 = time.time()
    res = dict(unit=u.name, unsupported=None)
    try:
        u.fn(t, *u.args)
    except Unsupported as x:
        res["unsupported"] = f"{x} (line {getattr(getattr(t.e, 'cur_node', None), 'lineno', '?')})"
    except AssertionError as x:
        res["unsupported"] = "assertion: " + "".join(traceback.format_exception(x))[-1500:]
    except Exception as x:  # noqa: BLE001 - engine errors make a unit unsupported
        res["unsupported"] = "engine error: " + "".join(traceback.format_exception(x))[-1500:]
    e = t.e
    res.update(obs=t.obs, vac=t.vac, assumed=t.assumed, bounded=u.bounded, t=time.time() - t0,
               solver_s=e.stats["solver_s"] + sum(o["s"] for o in t.obs),
               queries=e.stats["queries"], inlined=sorted(e.inlined), contracts=sorted(e.used_contracts),
               models=sorted(e.models_used), lines=e.exec_lines)
    q.put(res)
    q.close()
    q.join_thread()
    os._exit(0)


def run_all(mod, units, jobs, budget, timeout, verbose=False):
    ctx = mp.get_context("fork")
    todo = list(range(len(units)))
    running, out = {}, []
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=run_unit, args=(mod, units[i][0], timeout, q))
            p.start()
            running[i] = (p, q, time.time())
        for i in list(running):
            p, q, st = running[i]
            res = None
            try:
                res = q.get(timeout=0.02)
            except Exception:  # noqa: BLE001 - queue empty
                if not p.is_alive():
                    try:
                        res = q.get(timeout=0.5)
                    except Exception:  # noqa: BLE001
                        res = dict(unit=units[i][1].name, unsupported="the prover process died", obs=[], vac=[],
                                   assumed=[], bounded=False, t=time.time() - st, solver_s=0, queries=0, inlined=[],
                                   contracts=[], models=[], lines=0)
                elif time.time() - t0 > budget:
                    p.kill()
                    res = dict(unit=units[i][1].name, unsupported="out of time", obs=[], vac=[], assumed=[],
                               bounded=False, t=time.time() - st, solver_s=0, queries=0, inlined=[], contracts=[],
                               models=[], lines=0)
            if res is not None:
                p.join()
                del running[i]
                out.append(res)
                if verbose:
                    n = len(res["obs"])
                    bad = [o for o in res["obs"] if o["status"] != "proved"]
                    print(f"[{res['t']:.1f}s] {res['unit']}: {n-len(bad)}/{n}", "UNSUPPORTED " + res["unsupported"]
                          if res["unsupported"] else "", flush=True)
                    for o in bad:
                        print("    ", o["status"], o["name"], o.get("detail", "")[:1500])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=330)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--timeout", type=float, default=None)
    ap.add_argument("--unit")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    mod = f"contracts.{a.pid.lower()}"
    m = importlib.import_module(mod)
    us = [(i, u) for i, u in enumerate(m.units()) if (u.tier == "quick" or a.tier == "thorough")
          and (a.unit is None or a.unit in u.name)]
    timeout = a.timeout or (60 if a.tier == "quick" else 150)
    out = run_all(mod, us, a.jobs, a.budget, timeout, a.v)
    out.sort(key=lambda r: r["unit"])
    obs, uns, models, inl, con, assumed, vac = [], [], set(), set(), set(), [], []
    bounded = []
    for r in out:
        for o in r["obs"]:
            o = dict(o)
            o["unit"] = r["unit"]
            if r["bounded"]:
                bounded.append(f"{o['name']}: {o['status']}")
                if o["status"] == "proved":
                    continue
            obs.append(o)
        vac += r["vac"]
        if r["unsupported"]:
            uns.append(dict(unit=r["unit"], why=r["unsupported"]))
        models.update(r["models"])
        inl.update(r["inlined"])
        con.update(r["contracts"])
        for s in r["assumed"]:
            if s not in assumed:
                assumed.append(s)
    res = dict(
        obligations=obs, unsupported=uns, solver_s=sum(r["solver_s"] for r in out), vacuity=vac, bounded=bounded,
        trusted_base=["pv engine: verification-condition generator for the Python subset (pv/engine.py, interp.py)",
                      "library contracts (pv/models.py): " + ", ".join(sorted(models)),
                      "z3 %s" % z3.get_version_string()],
        functions=sorted(inl | con), back_end="z3 %s (cvc5 1.1.2 when z3 gives no answer)" % z3.get_version_string() + (", Lean 4.33 (lemmas)" if any(o.get("by") == "Lean 4" for o in obs) else ""),
        assumptions=["assumed contracts on dependencies: " + ", ".join(sorted(models)),
                     "Python floats are treated as mathematical reals in the proofs",
                     "the code is read from /repo's source by the engine on every run; statements outside of the subset are rejected, not skipped"]
        + list(getattr(m, "ASSUMPTIONS", [])) + assumed,
        engine=dict(queries=sum(r["queries"] for r in out), statements=sum(r["lines"] for r in out)),
    )
    if a.out:
        json.dump(res, open(a.out, "w"), indent=1)
    else:
        n = len(obs)
        d = sum(o["status"] == "proved" for o in obs)
        print(f"{d}/{n} proved, {len(uns)} unsupported, solver {res['solver_s']:.1f}s")


if __name__ == "__main__":
    main()
