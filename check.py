#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : decide one property on /repo's current tree.

1. proof stage     (pv/prove.py ID): obligations generated from the current source of /repo, discharged by z3
2. concrete stage  (concrete/run.py ID): validates the contracts and assumptions against the running code (bounded),
                   and is the bounded stand-in for whatever the proof stage reports as outside of its reach
3. if an obligation is refuted or undecided: a larger concrete search for a failing input

exit 0: held; 1: VIOLATION line; anything else: error of the check.
"""
import argparse, concurrent.futures as cf, glob, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
VENV_PY = "/opt/venv/bin/python"
VT_PY = "/opt/veriftools/pyvenv/bin/python"
NEEDS_LEMON = {"C07", "C08"}
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", LANG="C.UTF-8")
ENV.pop("PYTHONPATH", None)


def die(msg):
    print("ERROR:", msg)
    sys.exit(3)


def build_lemon(scratch):
    """Compile /repo/flamingpy/cpp/lemonpy.cpp into a scratch directory (the tree's own .so may be stale)."""
    suf = subprocess.run([VENV_PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         capture_output=True, text=True, env=ENV).stdout.strip()
    src = os.path.join(REPO, "flamingpy/cpp/lemonpy.cpp")
    if not os.path.exists(src):
        return None
    build = os.path.join(scratch, "b")
    out = os.path.join(scratch, "out")
    cmd = ["cmake", "-S", REPO, "-B", build, "-Wno-dev", "-DCMAKE_BUILD_TYPE=Release", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
           "-DFETCHCONTENT_SOURCE_DIR_LEMON=/opt/vp/cmake/lemon", "-DFETCHCONTENT_SOURCE_DIR_PYBIND11=/opt/vp/cmake/pybind11",
           f"-DPYTHON_EXECUTABLE={VENV_PY}", f"-DPython_EXECUTABLE={VENV_PY}", f"-DPython3_EXECUTABLE={VENV_PY}",
           f"-DCMAKE_LIBRARY_OUTPUT_DIRECTORY={out}"]
    r = subprocess.run(cmd, capture_output=True, text=True, env=ENV)
    if r.returncode == 0:
        r = subprocess.run(["cmake", "--build", build, "--target", "lemonpy", "-j8"], capture_output=True, text=True, env=ENV)
    so = glob.glob(os.path.join(out, "lemonpy*.so")) + glob.glob(os.path.join(build, "**", "lemonpy*.so"), recursive=True)
    if r.returncode or not so:
        die("the C++ extension does not build:\n" + (r.stdout + r.stderr)[-2000:])
    return so[0]


def concrete(pid, tier, seed, budget, env, jobs=8, cases=None):
    fd, out = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    os.unlink(out)
    extra = []
    if cases is not None:
        cf_ = os.path.join(env["TMPDIR"], "cases.json")
        json.dump(cases, open(cf_, "w"))
        extra = ["--cases", cf_]
    r = subprocess.run([VENV_PY, os.path.join(HERE, "concrete/run.py"), pid, "--tier", tier, "--seed", str(seed), "--out", out,
                        "--budget", str(budget), "--jobs", str(jobs)] + extra, capture_output=True, text=True, env=env, cwd=HERE)
    if not os.path.exists(out):
        die(f"concrete stage gave no result (exit {r.returncode}):\n" + (r.stdout + r.stderr)[-3000:])
    res = json.load(open(out))
    os.unlink(out)
    return res


def prove(pid, tier, budget, env):
    if not os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py")):
        return None
    fd, out = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    os.unlink(out)
    r = subprocess.run([VT_PY, "-m", "pv.prove", pid, "--tier", tier, "--out", out, "--budget", str(budget)], capture_output=True,
                       text=True, env=env, cwd=HERE)
    if not os.path.exists(out):
        die(f"proof stage gave no result (exit {r.returncode}):\n" + (r.stdout + r.stderr)[-3000:])
    res = json.load(open(out))
    os.unlink(out)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a = ap.parse_args()
    pid, tier = a.pid, ("thorough" if a.tier == "thorough" else "quick")
    t0 = time.time()
    levels = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
    level = levels.get(pid, {}).get("level", "exploration")
    known = []
    kf = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            if line.startswith(f"finding: property={pid} "):
                known.append(line.split(None, 2)[2].strip())
    scratch = tempfile.mkdtemp(prefix="pv-")
    env = dict(ENV)
    env["TMPDIR"] = scratch
    try:
        if pid in NEEDS_LEMON:
            so = build_lemon(scratch)
            if so:
                env["PV_LEMON_SO"] = so
        big = tier == "thorough"
        with cf.ThreadPoolExecutor(2) as ex:
            fp = ex.submit(prove, pid, tier, 600 if big else 330, env)
            fc = ex.submit(concrete, pid, tier, a.seed, 600 if big else 150, env)
            con, pro = fc.result(), fp.result()
        viol = None
        if con["fails"]:
            viol = dict(kind="concrete", case=con["fails"][0]["case"], error=con["fails"][0]["error"])
        bad = [o for o in (pro or {}).get("obligations", []) if o["status"] != "proved"]
        searched = None
        if viol is None and bad:
            # replay the verifier's counterexamples against the real code, then search
            cexs = []
            for o in bad:
                if o.get("case") is not None and o["case"] not in cexs:
                    cexs.append(o["case"])
            searched = concrete(pid, "search", a.seed, 200, env, cases=cexs[:40]) if cexs else None
        if viol is None and bad and not (searched and searched["fails"]):
            searched = concrete(pid, "search", a.seed + 1, max(60, 780 - (time.time() - t0)) if not big else 1500, env)
        if viol is None and not bad and pro and pro["unsupported"] and not big:
            # the proof does not reach this source: a larger bounded search stands in
            searched = concrete(pid, "search", a.seed + 1, max(30, min(240, 600 - (time.time() - t0))), env)
            if searched["fails"]:
                viol = dict(kind="concrete", case=searched["fails"][0]["case"], error=searched["fails"][0]["error"])
        if viol is None and bad:
            if searched["fails"]:
                viol = dict(kind="concrete", case=searched["fails"][0]["case"], error=searched["fails"][0]["error"])
            else:
                viol = dict(kind="obligation", case=None, error="no failing input found in the search")
        if pro is not None and not pro["obligations"] and not pro["unsupported"]:
            die("the proof stage generated no obligations")
        write_evidence(pid, tier, a.seed, level, con, pro, searched, t0, viol)
        for k in known:
            print(f"KNOWN-FINDING: property={pid} {k}")
        summary(pid, con, pro, searched)
        if viol is None:
            print(f"OK property={pid} ({time.time()-t0:.1f}s)")
            return 0
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        path = os.path.join(HERE, "out", f"replay-{pid}.json")
        viol["property"] = pid
        viol["failed_obligations"] = [dict(o, detail=str(o.get("detail", ""))[:4000]) for o in bad]
        viol["replay_cmd"] = f"/opt/venv/bin/python concrete/run.py {pid} --replay {path}"
        json.dump(viol, open(path, "w"), indent=1)
        for o in bad[:5]:
            print("failed obligation:", o["name"], o["status"])
        print("failing input:" if viol["kind"] == "concrete" else "result:", json.dumps(viol["case"]), viol["error"][:600])
        print(f"VIOLATION property={pid} replay={path}" + ("" if viol["kind"] == "concrete" else " no-failing-input-found"))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def summary(pid, con, pro, searched):
    if pro:
        n = len(pro["obligations"])
        d = sum(o["status"] == "proved" for o in pro["obligations"])
        print(f"proof: {d}/{n} obligations discharged, {len(pro['unsupported'])} units outside of the verified subset, "
              f"solver {pro['solver_s']:.1f}s")
        for u in pro["unsupported"]:
            print("  bounded only:", u["unit"], "-", u["why"][:200])
    print(f"concrete: {con['evaluations']} cases, {con['distinct_nontrivial']} distinct and non-trivial"
          + ("" if con["complete"] else " (stopped at the time limit)"))
    if searched:
        print(f"search: {searched['evaluations']} more cases")


def write_evidence(pid, tier, seed, level, con, pro, searched, t0, viol):
    ev = con["evaluations"] + (searched["evaluations"] if searched else 0)
    cov = dict(evaluations=ev, distinct_nontrivial=con["distinct_nontrivial"] + (searched["distinct_nontrivial"] if searched else 0),
               rule=con["rule"] + " (bounded: validates contracts and stands in for what is not proved; never counted as proved)",
               samples=con["samples"])
    assumptions = ["CPython and the dependencies behave as in this sandbox in the concrete stage",
                   "the concrete stage is bounded: sampled codes and inputs, sizes as in concrete/%s.py" % pid.lower()]
    if pro:
        obs = pro["obligations"]
        cov.update(
            obligations=len(obs),
            discharged=sum(o["status"] == "proved" for o in obs),
            checker_cmd=f"python3-vt -m pv.prove {pid}",
            trusted_base=pro["trusted_base"],
            functions_under_contract=pro["functions"],
            back_end=pro["back_end"],
            solver_s=round(pro["solver_s"], 2),
            obligation_list=[dict(name=o["name"], status=o["status"], s=round(o.get("s", 0), 3)) for o in obs][:400],
            outside_of_reach=pro["unsupported"],
            reachability_checks=pro.get("vacuity", []),
            bounded_standin=pro.get("bounded", []) + [u["unit"] for u in pro["unsupported"]],
        )
        assumptions = pro["assumptions"] + assumptions
    else:
        cov["explanation"] = "no obligations: bounded stand-in only"
    e = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
             wall_s=round(time.time() - t0, 2), violations=0 if viol is None else 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(e, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
