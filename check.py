#!/usr/bin/env python3-vt
"""check.py Cxx: decide one property on /repo's current tree.

1. the deductive verifier (pyvc) generates and discharges the obligations of the property's
   contracts from the current source;
2. the contract monitor runs the same contracts on the real code under CPython (cross-check of
   the verifier and of its library contracts, search for a failing input when an obligation
   fails, bounded stand-in where the verifier cannot reach a function).

exit 0: held; exit 1 with a VIOLATION line otherwise.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
try:      # digests of the sources on which every obligation of a property was discharged
    BASELINE = json.load(open(os.path.join(HERE, "contracts", "baseline.json")))
except (OSError, ValueError):
    BASELINE = {}
PY = "/opt/venv/bin/python"


def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            line = line.strip()
            if line.startswith("known: property=" + pid + " "):
                out.append(line[len("known: property=" + pid + " "):])
    except OSError:
        pass
    return out


def monitor(pid, seed, budget, jobs, tier, out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", TQDM_DISABLE="1")
    env.pop("PYTHONPATH", None)
    p = subprocess.Popen([PY, os.path.join(HERE, "replay", "run.py"), "search", pid, "--seed", str(seed), "--budget", str(budget), "--jobs", str(jobs),
                          "--tier", tier, "--out", out], env=env, cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return p


def engine(pid, tier):
    """obligations discharged by the verifier; never raises"""
    try:
        from pyvc.driver import verify
    except ImportError:
        return None
    try:
        return verify(pid, tier)
    except Exception as e:  # a verifier crash decides nothing
        import traceback
        return dict(status="undecided", obligations=[], reason=f"verifier crashed: {type(e).__name__}: {e}", trace=traceback.format_exc())


def source_state():
    """digest of the syntax trees of the sources (comments, docstrings and statements without effect left out)"""
    import ast
    import hashlib
    repo = os.environ.get("VERIF_REPO", "/repo")
    h = hashlib.sha256()
    for f in SOURCES:
        try:
            tree = ast.parse(open(os.path.join(repo, f)).read())
        except (OSError, SyntaxError):
            return None
        for x in ast.walk(tree):
            for name in ("body", "orelse", "finalbody"):
                b = getattr(x, name, None)
                if isinstance(b, list):
                    b[:] = [y for y in b if not (isinstance(y, ast.Pass) or isinstance(y, ast.Expr) and isinstance(y.value, ast.Constant))]
        h.update(f.encode() + ast.dump(tree).encode())
    return h.hexdigest()


SOURCES = [f"cvx/covariance/{f}.py" for f in ("ewma", "combination", "regularization")] + \
    [f"experiments/utils/{f}.py" for f in ("ccp_regularize", "experiment_utils", "factor_model", "iterated_ewma_vec", "low_rank_ewma",
                                           "portfolio_backtests", "return_combination", "trading_model")]
QUIET = ("outside the verified subset", "time budget", "no answer within", "verifier error", "RecursionError", "MemoryError")


def undischarged(eng):
    return [o for o in (eng or {}).get("obligations", []) if o["status"] != "discharged" and not o.get("lemma") and not str(o.get("detail", "")).startswith(QUIET)]


def not_proved(pid, eng, t0):
    """obligations of executed code that the verifier can neither discharge nor refute, twice (the second time with more
    time for the solver), on sources that differ from the ones the proofs were written against. Code the verifier
    does not accept at all is left to the bounded monitor."""
    first = undischarged(eng)
    if not first or pid not in BASELINE or source_state() == BASELINE[pid]:
        return []
    left = 780 - (time.time() - t0)
    if left < 30:
        return []
    try:
        r = subprocess.run([sys.executable, os.path.abspath(__file__), "--engine", pid], env=dict(os.environ, PYVC_PATIENCE="4"), capture_output=True, text=True, timeout=left)
        second = json.loads(r.stdout.strip().splitlines()[-1])
    except (subprocess.TimeoutExpired, ValueError, IndexError):
        return []
    return [o for o in first if o["name"] in second]


def confirm(pid, failed, violations, eng):
    """runs the verifier's counterexamples on the real code. A failing one is the replay; an obligation whose
    counterexamples all pass on the real code is undecided (the verifier's model of the code is too coarse there);
    an obligation without a concrete counterexample stays failed"""
    keep = []
    tmp = os.path.join(HERE, "evidence", f".witness_{pid}.json")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", TQDM_DISABLE="1")
    env.pop("PYTHONPATH", None)
    t0 = time.time()
    for o in failed:
        cases = o.get("witness") or []
        if not cases:
            keep.append(o)
            continue
        passed = 0
        for case in cases:
            if time.time() - t0 > 120:
                break
            with open(tmp, "w") as f:
                json.dump(dict(property=pid, case=case), f, default=str)
            try:
                r = subprocess.run([PY, os.path.join(HERE, "replay", "run.py"), "replay", tmp], env=env, cwd=HERE, capture_output=True, text=True, timeout=60)
            except subprocess.TimeoutExpired:
                continue
            if r.returncode == 1 and "VIOLATED:" in r.stdout:
                violations.append((case, r.stdout.split("VIOLATED:", 1)[1].strip() + f" [counterexample of obligation {o['name']}]"))
                os.unlink(tmp)
                return failed
            if r.returncode == 0:
                passed += 1
        if passed:
            o["status"] = "undecided"
            o["detail"] = "counterexample not confirmed by the real code: " + str(o.get("detail", ""))
        else:
            keep.append(o)
    if os.path.exists(tmp):
        os.unlink(tmp)
    if eng["status"] == "refuted" and not keep:
        eng["status"] = "undecided"
    return keep


def main():
    if sys.argv[1] == "--engine":
        print("\n" + json.dumps([o["name"] for o in undischarged(engine(sys.argv[2], "quick"))]))
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
    mon_out = os.path.join(ev, f".monitor_{pid}.json")
    if os.path.exists(mon_out):
        os.unlink(mon_out)
    budget = {"quick": 25, "thorough": 240}[tier]
    mp = monitor(pid, seed, budget, 6, tier, mon_out)
    eng = engine(pid, tier)
    try:
        _, err = mp.communicate(timeout=budget + 200)
    except subprocess.TimeoutExpired:
        mp.kill()
        _, err = mp.communicate()
    try:
        mon = json.load(open(mon_out))
        os.unlink(mon_out)
    except OSError:
        mon = dict(evaluations=0, distinct=0, samples=[], fails=[], error=(err or b"").decode()[-2000:])

    known = known_findings(pid)
    violations = []
    for case, msg in mon["fails"]:
        if any(k and k in msg for k in known):
            continue
        violations.append((case, msg))
    failed = [o for o in (eng or {}).get("obligations", []) if o["status"] == "refuted"]
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k}")

    replay = os.path.join(ev, "replays", f"{pid}.json")
    code = 0
    if failed and not violations:
        failed = confirm(pid, failed, violations, eng)
    if not failed and not violations:
        failed = not_proved(pid, eng, t0)
    if violations:
        case, msg = violations[0]
        with open(replay, "w") as f:
            json.dump(dict(property=pid, case=case, observed=msg, failed_obligations=[{k: o.get(k) for k in ("name", "function", "detail")} for o in failed],
                           undischarged_obligations=[{k: o.get(k) for k in ("name", "function", "detail")} for o in (eng or {}).get("obligations", []) if o["status"] == "undecided"][:20],
                           replay_cmd=f"{PY} {HERE}/replay/run.py replay {replay}"), f, indent=1, default=str)
        print(msg[:2000])
        for o in failed[:5]:
            print(f"failed obligation: {o['name']} ({o.get('function', '')})")
        if not failed:
            for o in [o for o in (eng or {}).get("obligations", []) if o["status"] == "undecided"][:5]:
                print(f"obligation not discharged: {o['name']} ({o.get('function', '')})")
        print(f"VIOLATION property={pid} replay={replay}")
        code = 1
    elif failed:
        with open(replay, "w") as f:
            json.dump(dict(property=pid, case=None, obligation=failed[0]["name"], failed_obligations=failed), f, indent=1, default=str)
        for o in failed[:5]:
            print(f"failed obligation: {o['name']} ({o.get('function', '')}): {str(o.get('detail', ''))[:600]}")
        print(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
        code = 1
    write_evidence(pid, tier, seed, t0, eng, mon, len(violations) or len(failed), ev)
    if code == 0:
        st = (eng or {}).get("status", "no verifier")
        n = len((eng or {}).get("obligations", []))
        d = sum(o["status"] == "discharged" for o in (eng or {}).get("obligations", []))
        print(f"{pid}: held ({st}; {d}/{n} obligations discharged; {mon['evaluations']} executions of the real code)")
    return code


def write_evidence(pid, tier, seed, t0, eng, mon, nviol, ev):
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == pid), "exploration")
    cov = dict(
        evaluations=mon["evaluations"], distinct_nontrivial=mon["distinct"],
        rule="inputs drawn by replay/*.py gen_" + pid + "; distinct by their parameters (table sizes, distributions, labels, options), each run through the real code and compared with the contract",
        samples=mon["samples"] or ["none"],
    )
    assumptions = []
    if mon.get("error"):
        cov["monitor_error"] = mon["error"]
    if eng is not None:
        obs = eng.get("obligations", [])
        cov["obligations"] = len(obs)
        cov["discharged"] = sum(o["status"] == "discharged" for o in obs)
        cov["undecided"] = [dict(name=o["name"], why=str(o.get("detail", ""))[:300]) for o in obs if o["status"] == "undecided"]
        cov["bounded_stand_ins"] = eng.get("bounded", [])
        cov["checker_cmd"] = f"python3-vt {HERE}/check.py {pid}"
        cov["trusted_base"] = eng.get("trusted", [])
        cov["functions_under_contract"] = eng.get("functions", [])
        cov["back_ends"] = eng.get("backends", {})
        cov["solver_time_s"] = round(eng.get("solver_s", 0.0), 3)
        cov["verifier_status"] = eng.get("status")
        if eng.get("reason"):
            cov["reason"] = eng["reason"]
        cov["obligation_list"] = [dict(name=o["name"], status=o["status"], by=o.get("by"), s=round(o.get("s", 0), 3)) for o in obs]
        cov["vacuity"] = eng.get("vacuity", {})
        assumptions = eng.get("assumptions", [])
    d = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(ev, f"{pid}.json"), "w") as f:
        json.dump(d, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
