"""CPython side: search for an input on which the real code breaks a property (falsifier and
contract monitor), or replay a recorded one.

  run.py search C01 --seed 1 --budget 20 --jobs 4 --out FILE     prints a JSON summary
  run.py replay FILE                                             exit 1 if the recorded input still fails
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("TQDM_DISABLE", "1")
import io  # noqa: E402

MODULES = {"single": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"],
           "combo": ["C09", "C10", "C11", "C12", "C13"],
           "regul": ["C14", "C15"],
           "exper": ["C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23"],
           "exper3": ["C24", "C25", "C26"],
           "exper4": ["C27"],
           "exper5": ["C28"],
           "exper6": ["C29"]}


def module_of(pid):
    for m, ps in MODULES.items():
        if pid in ps:
            return m
    raise SystemExit(f"no monitor for {pid}")


def one(pid, mod, case):
    """None, or a description of the violation"""
    from common import Bad
    err, out = sys.stderr, sys.stdout
    sys.stderr = sys.stdout = io.StringIO()
    try:
        getattr(mod, "run_" + pid)(case)
        return None
    except Bad as e:
        return str(e)
    except Exception as e:  # the real code raised on an input that satisfies the precondition
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.relpath(f.filename, '/')}:{f.lineno}" for f in tb if "/repo" in f.filename or "/cvx/" in f.filename]
        return f"raised {type(e).__name__}: {e} at {where[-1] if where else tb[-1]}"
    finally:
        sys.stderr, sys.stdout = err, out


def worker(args):
    pid, seed, wid, jobs, budget, tier, maxn = args
    import numpy as np
    t0 = time.time()
    try:
        mod = importlib.import_module(module_of(pid))
    except Exception as e:
        return dict(n=0, fails=[({"import": module_of(pid)}, f"importing the code raised {type(e).__name__}: {e}")], kinds={}, sample=None)
    n = 0
    fails = []
    kinds = {}
    sample = None
    fixed = getattr(mod, "fixed_" + pid, lambda: [])()
    i = wid
    while True:
        if i < len(fixed):
            case = fixed[i]
        else:
            if time.time() - t0 > budget or n >= maxn:
                break
            case = getattr(mod, "gen_" + pid)(np.random.default_rng([seed, i]), tier)
        i += jobs
        r = one(pid, mod, case)
        n += 1
        key = json.dumps({k: v for k, v in case.items() if k not in ("seed",)}, sort_keys=True, default=str)
        kinds[hash(key)] = kinds.get(hash(key), 0) + 1
        sample = sample or case
        if r:
            fails.append((case, r))
            if len(fails) >= 3:
                break
    return dict(n=n, fails=fails, kinds=len(kinds), sample=sample)


def search(pid, seed, budget, jobs, tier="quick", maxn=10 ** 9):
    with _Exec(jobs) as pool:
        rs = pool.map(worker, [(pid, seed, w, jobs, budget, tier, maxn) for w in range(jobs)])
    fails = [f for r in rs for f in r["fails"]]
    return dict(property=pid, evaluations=sum(r["n"] for r in rs), distinct=sum(r["kinds"] if isinstance(r["kinds"], int) else 0 for r in rs),
                samples=[r["sample"] for r in rs if r["sample"]][:2], fails=fails)


class _Exec:
    """processes that may themselves start processes (a multiprocessing.Pool worker may not)"""

    def __init__(self, jobs):
        from concurrent.futures import ProcessPoolExecutor
        self.ex = ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork"))

    def __enter__(self):
        return self

    def map(self, f, xs):
        return list(self.ex.map(f, xs))

    def __exit__(self, *a):
        self.ex.shutdown()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("what")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=15)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--maxn", type=int, default=10 ** 9)
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.cmd == "search":
        r = search(a.what, a.seed, a.budget, a.jobs, a.tier, a.maxn)
        s = json.dumps(r, default=str)
        if a.out:
            with open(a.out, "w") as f:
                f.write(s)
        else:
            print(s)
        return 0
    d = json.load(open(a.what))
    if not d.get("case"):
        print("no input recorded: the replay file names the failed obligation:", d.get("obligation"))
        return 1
    pid = d["property"]
    mod = importlib.import_module(module_of(pid))
    r = one(pid, mod, d["case"])
    print("VIOLATED:" if r else "holds on the recorded input", r or "")
    return 1 if r else 0


if __name__ == "__main__":
    sys.exit(main())
