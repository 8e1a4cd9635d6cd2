#!/opt/venv/bin/python
"""
Run the solver-based check of one property.

  check.py P01 [--tier quick|thorough] [--only SUBSTR]   run the check
  check.py --worker P01 SCENARIO                         (internal) explore one scenario
  check.py --replay FILE                                 re-run a counterexample on the real, JIT-compiled code
"""
import argparse
import concurrent.futures as cf
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"

QUICK_BUDGET = 560  # s per property
THOROUGH_BUDGET = 3300


def child_env(jit, cache):
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["NUMBA_CACHE_DIR"] = cache
    env["PYTHONPATH"] = HERE
    env["OMP_NUM_THREADS"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["TMPDIR"] = cache
    if jit:
        env.pop("NUMBA_DISABLE_JIT", None)
        env["NUMBA_NUM_THREADS"] = "2"
    else:
        env["NUMBA_DISABLE_JIT"] = "1"
    return env


def load(pid):
    return importlib.import_module(f"props.{pid}")


def get_scenario(pid, name, tier):
    for s in load(pid).scenario.select(tier):
        if s.name == name:
            return s
    raise SystemExit(f"unknown scenario {name}")


# ------------------------------------------------------------------------------------------------
class Reported(list):
    """Violations, reported to the parent process as soon as they are found."""

    def append(self, v):
        super().append(v)
        sys.stdout.write("\n@@VIOLATION@@" + json.dumps(v.as_dict(), default=str) + "\n")
        sys.stdout.flush()


def worker(pid, name, tier, budget):
    import logging

    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    from symex import engine

    s = get_scenario(pid, name, tier)
    opts = dict(s.opts)
    opts.pop("weight", None)
    opts["time_budget"] = min(opts.get("time_budget", budget), budget)
    t = time.time()
    engine.Watch.start()
    ex = engine.Explorer(name, s.func, seed=int(os.environ.get("VERIF_SEED", "1") or 1), **opts)
    ex.violations = Reported()
    ex.explore()
    out = dict(
        scenario=name,
        stats=vars(ex.stats),
        claims=ex.claim_counts,
        violations=[v.as_dict() for v in ex.violations],
        inconclusive=ex.inconclusive[:50],
        errors=ex.errors[:20],
        mismatch=ex.validation_mismatch[:10],
        reached=ex.reached,
        functions=sorted(ex.functions),
        samples=ex.samples,
        wall_s=round(time.time() - t, 2),
        opts={k: v for k, v in s.opts.items() if isinstance(v, (int, float, str))},
    )
    sys.stdout.write("\n@@RESULT@@" + json.dumps(out, default=str) + "\n")


def replay_main(path):
    """Concrete execution of a harness on the real code.  Exit 1 if the property is violated."""
    import logging

    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np
    from symex import engine

    d = json.load(open(path))
    s = get_scenario(d["property"], d["scenario"], d.get("tier", "thorough"))
    cc = engine.ConcreteContext(d["inputs"], d["choices"])
    exp = s.opts.get("expect_exceptions", ())
    try:
        with np.errstate(all="ignore"):
            s.func(cc)
    except engine.ReplayInvalid as e:
        print(f"REPLAY-INVALID {e}")
        return 3
    except Exception as e:  # noqa: BLE001
        if engine.harness_fault(e) and not cc.failures:
            print(f"REPLAY-INVALID harness does not fit the code: {e}")
            return 3
        if not cc.failures and not isinstance(e, exp):
            import traceback

            traceback.print_exc()
            print(f"REPLAY-VIOLATION exception {type(e).__name__}: {e}")
            return 1
    if cc.failures:
        for n, det in cc.failures[:5]:
            print(f"REPLAY-VIOLATION [{n}] {det}")
        return 1
    print("REPLAY-HOLDS")
    return 0


# ------------------------------------------------------------------------------------------------
STOP = threading.Event()  # set when a violation has been confirmed on the compiled code


def marked(path, mark):
    with open(path, errors="replace") as f:
        return [json.loads(x[len(mark):]) for x in f if x.startswith(mark) and x.endswith("\n")]


def run_worker(pid, name, tier, budget, cache, early=True):
    """Explore a scenario; begin again, leaving that query undecided, when the solver does not return from a query (at most four times)."""
    skip, t0 = [], time.time()
    while True:
        r = run_worker_once(pid, name, tier, max(30.0, budget - (time.time() - t0)), cache, early, skip)
        if "stall" not in r or len(skip) >= 4 or time.time() - t0 > budget:
            return r
        skip.append(r["stall"])


def run_worker_once(pid, name, tier, budget, cache, early, skip):
    """Explore a scenario in a process of its own; ended early once any scenario has a confirmed violation."""
    if STOP.is_set():
        return dict(scenario=name, stopped=True)
    d = tempfile.mkdtemp(dir=cache)
    out, err = os.path.join(d, "out"), os.path.join(d, "err")
    t0, tried = time.time(), False
    try:
        with open(out, "w") as fo, open(err, "w") as fe:
            p = subprocess.Popen(
                [PY, os.path.abspath(__file__), "--worker", pid, name, "--tier", tier, "--budget", str(budget)],
                env=dict(child_env(False, d), VERIF_SKIP_QUERIES=",".join(map(str, skip))), cwd=d, stdout=fo, stderr=fe,
            )
            try:
                while True:
                    try:
                        p.wait(0.3)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    if early and not tried and not STOP.is_set():
                        vs = marked(out, "@@VIOLATION@@")
                        if vs:
                            tried = True
                            f = os.path.join(d, "early.json")
                            json.dump(dict(vs[0], property=pid, tier=tier), open(f, "w"), default=str)
                            if do_replay(f, cache)[0] == 1:
                                STOP.set()
                    if STOP.is_set() and p.poll() is None:
                        vs = marked(out, "@@VIOLATION@@")
                        p.kill()
                        p.wait()
                        return dict(scenario=name, stopped=True, violations=vs)
                    if time.time() - t0 > budget + 90:
                        return dict(scenario=name, crash=f"worker exceeded {budget + 90}s")
            finally:
                if p.poll() is None:
                    p.kill()
                    p.wait()
        res = marked(out, "@@RESULT@@")
        if res:
            return res[-1]
        stall = marked(out, "@@STALL@@")
        if stall:
            return dict(scenario=name, stall=stall[-1], violations=marked(out, "@@VIOLATION@@"), crash="a solver query does not return")
        return dict(scenario=name, crash=(open(err, errors="replace").read() or open(out, errors="replace").read())[-3000:], rc=p.returncode)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def do_replay(path, cache):
    d = tempfile.mkdtemp(dir=cache)
    try:
        p = subprocess.run(
            [PY, os.path.abspath(__file__), "--replay", path],
            env=child_env(True, d), cwd=d, capture_output=True, text=True, timeout=300,
        )
        return p.returncode, (p.stdout + p.stderr)[-2500:]
    except subprocess.TimeoutExpired:
        return 4, "replay timed out"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("scen", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--only")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--strict", action="store_true", help="exit 2 if anything remains undecided")
    a = ap.parse_args()
    if a.replay:
        if "NUMBA_CACHE_DIR" not in os.environ:  # invoked by hand
            cache = tempfile.mkdtemp(prefix="oaverif_")
            try:
                rc, out = do_replay(os.path.abspath(a.replay), cache)
            finally:
                shutil.rmtree(cache, ignore_errors=True)
            print(out)
            return rc
        return replay_main(a.replay)
    if a.worker:
        worker(a.pid, a.scen, a.tier, a.budget)
        return 0
    return run_property(a)


def run_property(a):
    pid, tier = a.pid, a.tier
    t0 = time.time()
    mod = load(pid)
    scen = mod.scenario.select(tier)
    if a.only:
        scen = [s for s in scen if a.only in s.name]
    budget = a.budget or (QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET)
    cache = tempfile.mkdtemp(prefix="oaverif_")
    results = []
    try:
        order = sorted(scen, key=lambda s: -s.opts.get("weight", 1))
        for s in order:
            s.opts.pop("weight", None)
        with cf.ThreadPoolExecutor(a.j) as pool:
            futs = {}
            for s in order:
                b = min(budget, s.opts.get("time_budget", budget))
                futs[pool.submit(run_worker, pid, s.name, tier, b, cache, not known_findings(pid))] = s.name
            for f in cf.as_completed(futs):
                r = f.result()
                results.append(r)
                if a.v:
                    brief(r)
        results.sort(key=lambda r: r["scenario"])
        return conclude(pid, tier, mod, results, cache, t0, a)
    finally:
        shutil.rmtree(cache, ignore_errors=True)


def brief(r):
    if "crash" in r:
        print(f"  {r['scenario']}: CRASH {r['crash'][-1500:]}")
        return
    if "stopped" in r:
        print(f"  {r['scenario']}: stopped, violations: {len(r.get('violations', []))}")
        return
    st = r["stats"]
    print(
        f"  {r['scenario']}: paths={st['paths']} queries={st['claim_queries']} discharged={st['discharged']} "
        f"unk={st['unknown']} viol={len(r['violations'])} bq={st['branch_queries']} bunk={st['branch_unknown']} "
        f"val={st['validated']}/{st['validation_skipped']} solver={st['solver_s']:.1f}s wall={r['wall_s']}s"
    )
    for k in ("inconclusive", "errors", "mismatch"):
        for x in r[k][:4]:
            print(f"      {k}: {x}")
    for v in r["violations"][:3]:
        print(f"      cex: {v}")


def match_finding(known, v):
    for k in known:
        if k["scenario"] == v["scenario"] and k["claim"] == v["claim"]:
            return k
    return None


def conclude(pid, tier, mod, results, cache, t0, a):
    known = known_findings(pid)
    problems, confirmed, known_hit = [], [], []
    nreplay = 0
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for r in results:
        if "crash" in r:
            problems.append(f"{r['scenario']}: worker crashed: {r['crash'][-400:]}")
            continue
        for e in r.get("errors", ()):
            problems.append(f"{r['scenario']}: {e}")
        for e in r.get("inconclusive", ()):
            problems.append(f"{r['scenario']}: inconclusive: {e}")
        for e in r.get("mismatch", ()):
            problems.append(f"{r['scenario']}: encoding disagrees with the code: {e}")
        if "stopped" in r:
            problems.append(f"{r['scenario']}: not completed, because another violation had been found")
        elif r["reached"] == 0 and not r["violations"]:
            problems.append(f"{r['scenario']}: vacuous (no satisfiable path reaches the end)")
        if "stopped" not in r and not r["claims"] and not r["violations"]:
            problems.append(f"{r['scenario']}: vacuous (no claim made)")
        for n, v in enumerate(r.get("violations", [])):
            if len(confirmed) >= 3 and not known:
                break
            if nreplay >= 10:
                break
            f = os.path.join(rdir, f"{pid}_{r['scenario']}_{n}.json".replace("/", "_"))
            json.dump(dict(v, property=pid, tier=tier), open(f, "w"), indent=1, default=str)
            nreplay += 1
            rc, out = do_replay(f, cache)
            if rc == 1:
                k = match_finding(known, v)
                if k:
                    known_hit.append((k, v))
                else:
                    confirmed.append((f, v, out))
            else:
                problems.append(
                    f"{r['scenario']}: counterexample for {v['claim']} does not reproduce on the compiled code (rc={rc}) {out[-300:]}"
                )
    write_evidence(pid, tier, mod, results, t0, confirmed, known_hit, problems)
    for k, v in known_hit:
        print(f"KNOWN-FINDING: property={pid} {k['what']} (scenario {v['scenario']}, claim {v['claim']})")
    ok = [r for r in results if "stats" in r]
    tot = lambda k: sum(r["stats"][k] for r in ok)  # noqa: E731
    print(
        f"{pid} [{tier}] scenarios={len(results)} paths={tot('paths')} claim queries={tot('claim_queries')} "
        f"discharged={tot('discharged')} branch queries={tot('branch_queries')} "
        f"solver={tot('solver_s'):.1f}s wall={time.time() - t0:.1f}s"
    )
    if confirmed:
        for f, v, out in confirmed:
            print(f"counterexample: scenario={v['scenario']} claim={v['claim']} {v['detail']}")
            print(f"VIOLATION property={pid} replay={f}")
        return 1
    if problems:
        decided = sum(r["stats"]["discharged"] for r in ok)
        print(f"INCONCLUSIVE: {pid}: {len(problems)} part(s) could not be decided and are not covered by this run:")
        for p in problems[:12]:
            print("  -", p)
        if a.strict or not decided:
            return 2
        print(f"{pid}: held on everything explored ({decided} claims decided; undecided parts listed above)")
        return 0
    print(f"{pid}: held on everything explored")
    return 0


def write_evidence(pid, tier, mod, results, t0, confirmed, known_hit, problems):
    ok = [r for r in results if "stats" in r]
    funcs = sorted({f for r in ok for f in r["functions"]})
    tot = lambda k: sum(r["stats"][k] for r in ok)  # noqa: E731
    samples = [s for r in ok for s in r["samples"][:1]][:8]
    ev = dict(
        property=pid,
        tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        level="other",
        coverage=dict(
            explanation=(
                "Solver-based symbolic execution of the real functions: for every scenario the code is "
                "interpreted on symbolic reals, all feasible paths are enumerated by forking at each "
                "comparison, and z3 decides each claim for all inputs of the path "
                "(unsat of path condition and negated claim)."
            ),
            functions_encoded=funcs,
            bounds=getattr(mod, "BOUNDS", ""),
            outside=getattr(mod, "OUTSIDE", ""),
            scenarios=[
                dict(
                    name=r["scenario"],
                    paths=r["stats"]["paths"],
                    claims={k: dict(made=v[0], discharged=v[1], violated=v[2], unknown=v[3]) for k, v in r["claims"].items()},
                    satisfiable_paths_reaching_end=r["reached"],
                    wall_s=r["wall_s"],
                )
                for r in ok
            ],
            paths=tot("paths"),
            queries_claims=tot("claim_queries"),
            claims_discharged=tot("discharged"),
            queries_branch_feasibility=tot("branch_queries"),
            branch_queries_unknown=tot("branch_unknown"),
            solver_time_s=round(tot("solver_s"), 2),
            uninterpreted_function_instances=tot("fn_instances"),
            paths_cross_checked_against_concrete_execution=tot("validated"),
            cross_checks_skipped=tot("validation_skipped"),
            reachability="every scenario reached its end on a satisfiable path" if all(r["reached"] for r in ok) else "see scenarios",
            inconclusive=problems[:20],
            samples=samples,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
            "real arithmetic stands in for IEEE doubles (rounding outside the claim; counterexamples are replayed in floating point)",
            "transcendental functions are abstracted by sound bounds/monotonicity axioms, refined at the points counterexamples visit",
            "numba-compiled kernels are interpreted from the same source text (JIT disabled); counterexamples are replayed JIT-compiled",
        ],
        wall_s=round(time.time() - t0, 2),
        violations=len(confirmed),
        known_findings=len(known_hit),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
