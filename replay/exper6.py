"""Contract monitor for the portfolio problems of Trader.backtest (C29) on the real code."""
import pickle

import cvxpy as cp

from common import *
from exper import imp, random_cov, SerialPool

KINDS = ("max_diverse", "max_sharpe", "risk_parity", "robust_min_risk", "mean_variance")


def solver_stand_in():
    """problems that ask for a solver that is not installed are solved by an installed one, which leaves nothing
    behind in the problem that the other would not (so that solved problems can be pickled)"""
    if getattr(cp.Problem, "_stand_in_6", False):
        return
    solve = cp.Problem.solve

    def go(self, *a, **k):
        asked = k.get("solver")
        if asked is None or asked in cp.installed_solvers():
            return solve(self, *a, **k)
        k["solver"] = "CLARABEL"
        r = solve(self, *a, **k)
        self._solver_cache = {}
        if self._solution is not None:
            self._solution.attr.pop("solver_specific_stats", None)
        if self._solver_stats is not None:
            self._solver_stats.extra_stats = None
        return r
    cp.Problem.solve = go
    cp.Problem._stand_in_6 = True


def gen_C29(rng, tier):
    big = rng.random() < 0.05
    n = int(rng.integers(2, 6)) if not big else int(hint_size(rng, 6, 30) or rng.integers(6, 15))
    T = int(rng.integers(1, 5)) if not big else 1
    if rng.random() < 0.05:
        T, n = int(hint_size(rng, 5, 40) or rng.integers(5, 15)), 2
    return dict(seed=int(rng.integers(0, 2 ** 31)), what=pick(rng, list(KINDS)), T=T, n=n, lims=[x for x in ("short_lim", "upper_bound", "lower_bound") if rng.random() < 0.6],
                rhos=bool(rng.integers(0, 2)), lead=int(rng.integers(0, 3)), trail=int(rng.integers(0, 3)), kappa=float(pick(rng, [0.1, 1.0, 5.0])), target=float(pick(rng, [0.05, 0.1, 0.3])),
                scale=float(pick(rng, [0.01, 0.02, 1.0])), labels=int(rng.integers(0, 3)), before=pick(rng, ["", "", "limits", "other", "same"]), K=int(pick(rng, [0, 0, 0, 1, 2, 3])), realpool=bool(rng.random() < 0.02))


def fixed_C29():
    base = dict(T=3, n=4, rhos=True, lead=1, trail=2, kappa=1.0, target=0.1, scale=0.01, labels=0, before="", realpool=False)
    return [dict(base, seed=s, what=w, lims=l) for s, w in enumerate(KINDS) for l in (["upper_bound"], ["short_lim", "upper_bound", "lower_bound"])] + \
           [dict(base, seed=9, what=w, lims=["upper_bound"], K=2) for w in CLASSES]


def times(c, k):
    if c.get("labels", 0) == 0:
        return list(pd.date_range("2021-02-03", periods=k, freq="B"))
    if c["labels"] == 1:
        return [f"t{q:03d}" for q in range(k)]
    return list(range(7, 7 + k))


def limits(w, lim):
    cons = []
    if "short_lim" in lim:
        cons.append(cp.norm1(w) <= lim["short_lim"])
    if "upper_bound" in lim:
        cons.append(w <= lim["upper_bound"])
    if "lower_bound" in lim:
        cons.append(w >= lim["lower_bound"])
    return cons


def outside(w, lim):
    return max([0.0] + ([np.abs(w).sum() - lim["short_lim"]] if "short_lim" in lim else []) + ([w.max() - lim["upper_bound"]] if "upper_bound" in lim else [])
               + ([lim["lower_bound"] - w.min()] if "lower_bound" in lim else []))


def solve(goal, cons, w):
    """reference solution, or None if the solver is not sure of it"""
    p = cp.Problem(goal, cons)
    try:
        p.solve(solver="CLARABEL")
    except cp.error.SolverError:
        return None
    return None if p.status != "optimal" or w.value is None else np.ravel(w.value)


def run_C29(c):
    solver_stand_in()
    M = imp("trading_model")
    real = getattr(getattr(M, "mp", None), "Pool", None)
    if real is not None and not c.get("realpool"):
        M.mp.Pool = SerialPool
    try:
        check_C29(dict(dict(kappa=1.0, target=0.1, scale=0.01, labels=0, before="", lead=1, trail=1), **c), M)
    finally:
        if real is not None:
            M.mp.Pool = real


CLASSES = {"max_diverse": "MaxDiverse", "risk_parity": "RiskParity", "mean_variance": "MeanVariance"}


def check_C29(c, M):
    rng = np.random.default_rng([c["seed"], 29])
    T, n, kind, sc = max(c["T"], 1), max(c["n"], 1), c["what"], c["scale"]
    K = c.get("K", 0) if kind in CLASSES else 0
    labels = times(c, c["lead"] + T + 1 + c["trail"])
    own = labels[c["lead"]: c["lead"] + T]
    cols = [f"a{k}" for k in rng.permutation(n)]
    sd = sc * (0.5 + rng.random(n))
    R = pd.DataFrame(sc * rng.normal(size=(len(labels), n)), index=labels, columns=cols)
    covs = [{t: pd.DataFrame(random_cov(rng, n) * np.outer(sd, sd), index=cols, columns=cols) for t in own + labels[c["lead"] + T:][:1]} for _ in range(max(K, 1))]
    mus = [pd.DataFrame(0.1 * sc * rng.normal(size=(T + 1, n)), index=list(covs[0]), columns=cols) for _ in covs]
    if kind == "max_sharpe":                                   # some asset has a positive mean
        mus[0][cols[int(rng.integers(n))]] = 0.05 * sc * (1 + rng.random(T + 1))
    rhos = pd.DataFrame(0.05 * sc * rng.random((len(labels), n)), index=labels, columns=cols)
    feasible = {"short_lim": 1.6, "upper_bound": max(0.6, 1.3 / n) if n > 1 else 1.0, "lower_bound": -0.1}
    lim = {k: feasible[k] for k in c["lims"]}
    if kind in ("max_diverse", "max_sharpe"):                  # both read it; it only restricts the first
        lim["upper_bound"] = feasible["upper_bound"]
    given = dict(lim)
    kw = dict(additonal_cons=lim) if kind != "risk_parity" else {}
    target = c["target"] * sc / 0.01
    if kind == "robust_min_risk":
        kw["kappa"] = c["kappa"] / sc
    if kind == "mean_variance" and c["rhos"]:
        kw["rhos"] = rhos
    saved = pickle.dumps([R, covs, mus, rhos])
    if K:
        B = imp("portfolio_backtests")
        names = [f"p{q}" for q in range(K)]
        args = [R, covs, names] + ([mus] if kind == "mean_variance" else [])
        if kind == "mean_variance":
            kw["sigma_tar"] = target
        try:
            trs = getattr(B, CLASSES[kind])(*args).backtest(**kw)
        except cp.error.SolverError:
            return
        must_labels(list(trs), names, "names of the predictors")
        for q, nm in enumerate(names):
            must_labels(trs[nm].returns.index, own, f"{nm}: trading times")
            for t in own:
                must_close(trs[nm].returns.loc[t].values, R.loc[labels[labels.index(t) + 1]].values, f"{nm}: return paired with the prediction of {t}", 1e-12)
        runs = [(nm, trs[nm], covs[q], mus[q]) for q, nm in enumerate(names)]
    else:
        S, mu, own_r = {t: covs[0][t] for t in own}, mus[0].loc[own], R.loc[own]
        tr = M.Trader(own_r, S, r_hats=mu)
        if c["before"]:                                        # an earlier run, perhaps without a solution
            t0 = tr if c["before"] != "other" else M.Trader(own_r * 1.5, {t: S[t] * 2.0 for t in S}, r_hats=-mu)
            try:
                t0.backtest(portfolio_type="mean_variance" if c["before"] == "limits" else "min_risk", additonal_cons={"upper_bound": 0.9 / n, "lower_bound": 0.0}, sigma_des=0.1)
            except Exception:
                pass
        if kind == "mean_variance":
            kw["sigma_des"] = target
        try:
            tr.backtest(portfolio_type=kind, **kw)
        except cp.error.SolverError:
            return
        runs = [("the trader", tr, covs[0], mus[0])]
    now = [R, covs, mus, rhos]
    for x, y in zip(pickle.loads(saved), now):
        for u, v in zip(x if isinstance(x, list) else [x], y if isinstance(y, list) else [y]):
            if any(not a.equals(b) for a, b in (zip(u.values(), v.values()) if isinstance(u, dict) else [(u, v)])):
                bad(f"{kind}: an argument was changed")
    if lim != given:
        bad(f"{kind}: the limits were changed")
    for nm, tr, S, mu in runs:
        check_trader(c, nm, tr, S, mu, rhos, own, n, lim)


def check_trader(c, who, tr, S, mu, rhos, own, n, lim):
    kind, sc, T = c["what"], c["scale"], len(own)
    W = np.asarray(tr.ws, dtype=float)
    if W.shape != (T, n + (kind == "mean_variance")):
        bad(f"{kind}: weights of shape {W.shape} for {T} times and {n} assets")
    if not np.isfinite(W).all():
        bad(f"{kind}: no weights at some time although the problem has a solution", weights=W.tolist())
    for q, t in enumerate(own):
        w, V, m = W[q], S[t].values / sc ** 2, mu.loc[t].values / sc
        s, L = np.sqrt(np.diag(V)), np.linalg.cholesky(V)
        one = f"{kind} of {who} at time {q} of {T}"
        info = dict(weights=w.tolist(), limits=lim)
        if abs(w.sum() - 1) > 1e-5:
            bad(f"{one}: weights do not sum to one", **info)
        if kind in ("max_diverse", "max_sharpe"):
            top = lim["upper_bound"] if kind == "max_diverse" else 2.0
            if w.min() < -1e-4 or w.max() > top + 1e-4:
                bad(f"{one}: weights outside [0, {top}]", **info)
            g = s if kind == "max_diverse" else m
            z = cp.Variable(n)
            ref = solve(cp.Minimize(cp.sum_squares(L.T @ z)), [z >= 0, g @ z == 1] + ([z <= top * cp.sum(z)] if kind == "max_diverse" else []), z)
            if ref is None:
                continue
            a, b = g @ w / np.sqrt(w @ V @ w), g @ ref / np.sqrt(ref @ V @ ref)
            if a < b * (1 - 1e-3):
                bad(f"{one}: another portfolio has a higher ratio {b} than the {a} of the weights", better=(ref / ref.sum()).tolist(), **info)
        elif kind == "risk_parity":
            rc = w * (V @ w)
            if w.min() <= 0 or np.abs(rc - rc.mean()).max() > 2e-2 * rc.mean():
                bad(f"{one}: contributions to the predicted variance are not equal: {rc.tolist()}", **info)
        elif kind == "robust_min_risk":
            if outside(w, lim) > 1e-5:
                bad(f"{one}: limits of this run violated", **info)
            x = cp.Variable(n)
            ref = solve(cp.Minimize(cp.norm(L.T @ x) + c["kappa"] * cp.square(s @ cp.abs(x))), [cp.sum(x) == 1] + limits(x, lim), x)
            if ref is None:
                continue
            f = lambda x: np.sqrt(x @ V @ x) + c["kappa"] * (s @ np.abs(x)) ** 2
            if f(w) > f(ref) * (1 + 1e-3) + 1e-6:
                bad(f"{one}: objective {f(w)} instead of {f(ref)}", better=ref.tolist(), **info)
        else:
            x = w[:-1]
            top = c["target"] / 0.01 / np.sqrt(252)
            if outside(x, lim) > 1e-5 or np.sqrt(max(x @ V @ x, 0)) > top * (1 + 1e-4) + 1e-5:
                bad(f"{one}: limits or the risk target of this run violated", risk=float(np.sqrt(x @ V @ x)), target=top, **info)
            rho = rhos.loc[t].values / sc if c["rhos"] else np.zeros(n)
            y, cash = cp.Variable(n), cp.Variable()
            ref = solve(cp.Maximize(m @ y - rho @ cp.abs(y)), [cp.sum(y) + cash == 1, cp.norm(L.T @ y) <= top] + limits(y, lim), y)
            if ref is None:
                continue
            f = lambda x: m @ x - rho @ np.abs(x)
            if f(x) < f(ref) - 1e-3 * abs(f(ref)) - 1e-5:
                bad(f"{one}: predicted mean {f(x)} instead of {f(ref)}", better=ref.tolist(), **info)
