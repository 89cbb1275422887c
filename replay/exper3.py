"""Contract monitors for factor models, return predictors and performance figures (C24-C26) on the real code."""
import sys
import types
from collections import namedtuple

from common import *
from exper import imp, random_cov, logpdf, trader_inputs

from cvx.covariance import combination as CB
from cvx.covariance import ewma as E

# cvx.linalg is not installed here: principal components from numpy stand in for it
PCA = namedtuple("PCA", ["explained_variance", "factors", "exposure", "cov", "systematic", "idiosyncratic"])


def pca(returns, n_components=10):
    X = np.asarray(returns.values, dtype=float)
    w, V = np.linalg.eigh(np.cov(X.T, ddof=0).reshape(X.shape[1], X.shape[1]))
    V = V[:, ::-1][:, :n_components]
    V = V * np.where(V[np.argmax(abs(V), axis=0), range(V.shape[1])] < 0, -1, 1)
    B = pd.DataFrame(V.T, columns=returns.columns)
    F = pd.DataFrame(X @ V, index=returns.index)
    S = pd.DataFrame(X @ V @ V.T, index=returns.index, columns=returns.columns)
    return PCA(pd.Series(w[::-1][:n_components] / w.sum()), F, B, F.cov(), S, returns - S)


def factor_module():
    try:
        import cvx.linalg  # noqa: F401
    except ImportError:
        m = types.ModuleType("cvx.linalg")
        m.pca = pca
        sys.modules["cvx.linalg"] = m
    return imp("factor_model")


def arr(x):
    return np.array(x, dtype=float)


# ------------------------------------------------------------------ C24
def gen_C24(rng, tier):
    c = base_case(rng, Tmax=20, Tmin=3, nmax=4)
    c["dist"] = pick(rng, ["normal", "t", "corr"])
    c.update(K=int(rng.integers(1, 4)), what=pick(rng, ["full", "ll", "full", "ll", "infl"]), lam=float(pick(rng, [0.05, 1.0, 0.3])), lo=int(rng.integers(0, 3)), sub=bool(rng.random() < 0.3))
    if rng.random() < 0.05 * (2 if tier == "thorough" else 1):
        c.update(what="construct", K=int(rng.integers(1, 3)), n=int(rng.integers(2, 5)), memory=int(rng.integers(18, 30)), freq=int(rng.integers(1, 25)), more=int(rng.integers(1, 16)),
                 pairs=[[2.0 + 1.5 * q + float(rng.integers(0, 2)), float(rng.integers(6, 12))] for q in range(int(rng.integers(1, 3)))], scale=float(pick(rng, [1.0, 0.01])))
        if rng.random() < 0.4:
            c["memory"] = 3 * min(c["K"], c["n"]) + 8        # the least that gives a prediction ten rows before the first update
        c["T"] = c["memory"] + c["more"]
    return c


def fixed_C24():
    return [dict(seed=5, T=32, n=3, dist="normal", scale=0.01, index="date", cols="abc", miss=None, K=1, memory=20, freq=5, more=12, pairs=[[3.0, 6.0], [5.0, 9.0]], lam=0.05, lo=0, sub=False, what="construct"),
            dict(seed=6, T=19, n=3, dist="normal", scale=0.01, index="date", cols="abc", miss=None, K=2, memory=14, freq=3, more=5, pairs=[[3.0, 6.0], [5.0, 9.0]], lam=0.05, lo=0, sub=False, what="construct")]


def models_of(c, F, times, cols):
    rng = np.random.default_rng([c["seed"], 91])
    out = []
    for t in times:
        B = pd.DataFrame(rng.normal(size=(c["K"], len(cols))), columns=cols)
        S = pd.DataFrame(random_cov(rng, c["K"], c["scale"]), index=B.index, columns=B.index)
        out.append(F.FactorModel(t, B, S, pd.Series((0.1 + rng.random(len(cols))) * c["scale"] ** 2, index=cols)))
    return out


def run_C24(c):
    F = factor_module()
    R = make_returns(dict(c, miss=None))
    T, n = R.shape
    if c["what"] == "construct":
        return construct(c, F, R)
    lo = min(c["lo"], T - 2)
    times = list(R.index[lo:T - 1 if c["what"] != "ll" or c["seed"] % 2 else T])
    if c["sub"]:
        times = times[::2]
    if c["what"] == "infl":
        rng = np.random.default_rng([c["seed"], 92])
        S = {t: pd.DataFrame(random_cov(rng, n, c["scale"]), index=R.columns, columns=R.columns) for t in times}
        want = {t: v.values + c["lam"] * np.diag(np.diag(v.values)) for t, v in S.items()}
        got = imp("experiment_utils").add_to_diagonal({t: v.copy() for t, v in S.items()}, c["lam"])
        must_labels(list(got), times, "times of the inflated covariances")
        for t in times:
            must_labels(got[t].index, R.columns, "row labels")
            must_close(got[t].values, want[t], f"covariance with variances raised at {t}", 1e-10)
        return
    fm = models_of(c, F, times, R.columns)
    full = {m.time: m.exposure.values.T @ m.factor_covariance.values @ m.exposure.values + np.diag(m.diagonal.values) for m in fm}
    if c["what"] == "full":
        got = F.from_factor_to_full_covariance(list(fm))
        must_labels(list(got), times, "times of the covariances")
        for t in times:
            must_labels(got[t].index, R.columns, "row labels")
            must_labels(got[t].columns, R.columns, "column labels")
            must_close(got[t].values, full[t], f"covariance of the factor model at {t}", 1e-9, 1e-12 * c["scale"] ** 2)
        return
    got = F.factor_log_likelihood(R.copy(), list(fm))
    must_labels(got.index, times, "times of the log-likelihoods")
    pos = {t: k for k, t in enumerate(R.index)}
    for t in times:
        if pos[t] + 1 == T:
            if not np.isnan(got[t]):
                bad(f"log-likelihood at {t}, which has no next return: {got[t]}")
            continue
        must_close(got[t], logpdf(R.values[pos[t] + 1], full[t], np.zeros(n)), f"log-likelihood of the factor model at {t}", 1e-7, 1e-7)


def construct(c, F, R):
    real = F.pca
    n0 = R.shape[0]
    if c["seed"] % 3 == 0:      # a burst of large returns, of all or some assets, at the end
        R.iloc[n0 - 1 - c["seed"] % max(1, n0 - c["memory"]):, c["seed"] % 2 * (R.shape[1] - 1):] *= 200.0
    pairs = [tuple(p) for p in c["pairs"]]
    mem, freq, K = c["memory"], c["freq"], min(c["K"], R.shape[1])

    def models(R):
        return list(F.construct_cmiewma_factor_model(R, K, pairs, update_frequency=freq, memory=mem))
    fm = models(R.copy())
    must_labels([m.time for m in fm], R.index[mem:], "one factor model for every time after the first `memory` ones")
    for q, m in enumerate(fm):
        k = mem + q
        t = mem + q // freq * freq          # the latest update
        B = real(R.iloc[t - mem:t], n_components=K).exposure
        must_close(m.exposure.values, B.values, f"exposures at {m.time}", 1e-8, 1e-10)
        res = R.values[:k + 1] - R.values[:k + 1] @ B.values.T @ B.values
        w = np.exp2(-np.arange(k, -1, -1) / 21)
        must_close(np.asarray(m.diagonal, dtype=float), (w[:, None] * res ** 2).sum(axis=0) / w.sum(), f"residual variances at {m.time}", 1e-7, 1e-12 * c["scale"] ** 2)
        if q % freq == 0:
            X = R.iloc[:min(t + freq, n0)] @ B.T
            P = {}
            for p in dict.fromkeys(pairs):
                P[str(p)] = {x.time: x.covariance for x in E.iterated_ewma(X, vola_halflife=p[0], cov_halflife=p[1], min_periods_vola=K, min_periods_cov=2 * K) if x.time >= R.index[t - 10]}
            P[str(pairs[0])] = {u: S + 0.05 * np.diag(np.diag(S)) for u, S in P[str(pairs[0])].items()}
            want = {x.time: x.covariance for x in CB.from_sigmas(P, X, means=None).solve(window=10)}
        must_close(np.asarray(m.factor_covariance, dtype=float), want[m.time].values, f"factor covariance at {m.time}", 2e-3, 2e-3 * float(np.abs(want[m.time].values).max()))
    cut = mem + c["seed"] % (n0 - mem)
    R2 = R.copy()
    R2.iloc[cut + 1:] = 3 * R2.iloc[cut + 1:].values[:, ::-1] + c["scale"]
    for a, b in zip(fm, models(R2)[:cut - mem + 1]):
        for x, y, what in ((a.exposure, b.exposure, "exposures"), (a.factor_covariance, b.factor_covariance, "factor covariance"), (a.diagonal, b.diagonal, "residual variances")):
            must_close(np.asarray(x), np.asarray(y), f"{what} at {a.time} changed by later returns", 1e-9, 1e-14)


# ------------------------------------------------------------------ C25
def gen_C25(rng, tier):
    c = base_case(rng, Tmax=24, Tmin=2, nmax=1)
    c["dist"] = pick(rng, ["normal", "t", "int"])
    w = pick(rng, ["daily", "ewma", "parts", "daily", "ewma", "parts", "lasso", "lasso_class"])
    K = int(rng.integers(1, 4)) if rng.random() < 0.8 else int(rng.integers(4, 12))
    if rng.random() < 0.15:
        c["T"] = int(rng.integers(25, 80))
    c.update(what=w, K=K, lags=sorted({int(rng.integers(1, 9 if rng.random() < 0.8 else 40)) for _ in range(K)}, key=lambda x: (x * 7) % 5), hs=list({float(pick(rng, [0.3, 0.5, 1, 2.5, 5, 10, 21, 63, 250, 1000])) for _ in range(K)}))
    if w.startswith("lasso"):
        K = c["K"] = min(K, 6)
        c.update(memory=int(rng.integers(1, 7)) if rng.random() < 0.85 else int(rng.integers(7, 40)), alpha=float(pick(rng, [1e-3, 0.05, 0.5])), lead=int(rng.integers(0, 3)), trail=int(rng.integers(0, 3)), scale=1.0)
        c["T"] = c["memory"] + (int(rng.integers(1, 5)) if rng.random() < 0.85 else int(rng.integers(5, 34)))
    return c


def run_C25(c):
    M = imp("return_combination")
    if "r" in c:
        r = pd.Series(arr(c["r"]), index=pd.date_range("2020-01-01", periods=len(c["r"])))
    else:
        r = make_returns(dict(c, miss=None)).iloc[:, 0]
    T = len(r)
    rng = np.random.default_rng([c["seed"], 93])
    x = r.values.astype(float)
    if c["what"] == "daily":
        got = M.daily_predictors(r.copy(), list(c["lags"]))
        must_labels(got.index, r.index, "times of the predictors")
        must_labels(got.columns, c["lags"], "lags")
        for k, l in enumerate(c["lags"]):
            want = np.array([x[t - l] if t >= l else np.nan for t in range(T)])
            must_close(got.values[:, k].astype(float), want, f"predictor of lag {l}", 0)
        return
    if c["what"] == "ewma":
        got = M.ewma_predictors(r.copy(), list(c["hs"]))
        must_labels(got.index, r.index[1:], "times of the predictors")
        must_labels(got.columns, c["hs"], "half-lives")
        for k, h in enumerate(c["hs"]):
            for t in range(1, T):
                w = np.exp2(-np.arange(t - 1, -1, -1) / h)
                must_close(got.values[t - 1, k], (w * x[:t]).sum() / w.sum(), f"predictor of half-life {h} at {r.index[t]}", 1e-8, 1e-10 * c.get("scale", 1.0))
        return
    if c["what"] == "parts":
        P = pd.DataFrame(np.array(c["P"], dtype=float) if "P" in c else rng.normal(size=(T, c["K"])) * (rng.random((T, c["K"])) < 0.8) * 10.0 ** rng.integers(-12, 1, size=(T, c["K"])), index=r.index)
        P0 = P.copy()
        got = M.feature_engineer(P)
        must_labels(got.index, r.index, "times")
        want = np.hstack([np.maximum(P0.values, 0), np.minimum(P0.values, 0)])
        if got.shape != want.shape:
            bad(f"shape {got.shape} expected {want.shape}")
        must_close(got.values, want, "positive and negative parts", 0)
        must_close(P.values, P0.values, "the forecasts given", 0)
        return
    mem, K, al = c["memory"], c["K"], c["alpha"]
    lead, trail = (c["lead"], c["trail"]) if c["what"] == "lasso_class" else (0, 0)
    P = pd.DataFrame(0.3 * x[:, None] + rng.normal(size=(T, K)) + 0.5, index=r.index, columns=[f"p{k}" for k in range(K)])
    if c["what"] == "lasso_class" and T - lead - trail > mem:
        P = P.iloc[lead:T - trail]
    else:
        lead = trail = 0
    times = list(P.index)

    def run(r, P):
        if c["what"] == "lasso":
            return M.ewma_return_combination(r, P, al, mem)
        cb = M.ReturnCombinatorOld()
        cb.build(mem, K, al)
        return cb.fit(r, P)
    hat, W = run(r.copy(), P.copy())
    must_labels(hat.index, times[mem:], "times of the combined forecasts")
    must_labels(W.index, times[mem:], "times of the weights")
    must_labels(W.columns, P.columns, "weight labels")
    W = W.values.astype(float)
    for t in range(mem, len(times)):
        y, X, w = x[lead + t - mem: lead + t], P.values[t - mem: t], W[t - mem]
        must_close(hat.values[t - mem], P.values[t] @ w, f"combined forecast at {times[t]}", 1e-8, 1e-10)
        # first-order conditions of the lasso problem
        g = 2 * X.T @ (X @ w - y)
        tol = 1e-3 * (al + np.abs(X.T @ y).max())
        for k in range(K):
            if abs(g[k]) > al + tol or abs(w[k]) > 1e-3 and abs(g[k] + al * np.sign(w[k])) > tol:
                bad(f"weights at {times[t]} do not minimise the penalised squared error on the preceding {mem} rows: {w}, slope {g}")


# ------------------------------------------------------------------ C26
def gen_C26(rng, tier):
    c = base_case(rng, Tmax=16 if rng.random() < 0.85 else int(pick(rng, [120, 300])), Tmin=3, nmax=3)
    c["dist"] = pick(rng, ["normal", "t", "corr"])
    c["scale"] = 0.01 if rng.random() < 0.7 else float(pick(rng, [0.05, 0.001]))
    c.update(what=pick(rng, ["metrics", "metrics", "risk", "growth", "rho", "mse", "table"]), cash=bool(rng.random() < 0.6), rf=bool(rng.random() < 0.6), excess=bool(rng.random() < 0.5), dil=bool(rng.random() < 0.3),
             af=float(pick(rng, [1.0, 1.0, 100.0, 10.0])), sd=float(pick(rng, [0.1, 0.05, 0.3])), nd=float(pick(rng, [1, 2, 0.5])), lo=int(rng.integers(0, 3)))
    if c["what"] == "table":
        names = ["PRESCIENT", "RWMA", "EWMA-250", "CM-IEWMA", "MGARCH", "PRESCIENT 2"][int(rng.integers(0, 2)):]
        c.update(names=[str(x) for x in rng.permutation(names)[: int(rng.integers(1, len(names) + 1))]], target=bool(rng.random() < 0.5))
    return c


def check_table(c):
    """the printed table: one row per strategy, its own name and figures, PRESCIENT last"""
    import contextlib
    import copy
    import io
    M, PB = imp("trading_model"), imp("portfolio_backtests")
    rng = np.random.default_rng([c["seed"], 95])
    names = list(c["names"])
    cc = dict(c, T=max(5, c["T"]), miss=None, dist="normal", scale=0.01)
    want, trs = {}, {}
    for nm in names:
        R = make_returns(dict(cc, seed=int(rng.integers(0, 2 ** 31))))
        S = {t: pd.DataFrame(random_cov(rng, R.shape[1]), index=R.columns, columns=R.columns) for t in R.index}
        tr = M.Trader(R, S)
        tr.adjust_factor = 1
        W = rng.normal(size=(len(R), R.shape[1] + (not c["target"]))) * 0.3 + 0.4
        tr.ws, tr.portfolio_type = W, "min_risk" if c["target"] else "mean_variance"
        trs[nm] = tr
    rf = pd.Series(np.abs(rng.normal(size=len(R))) * 1e-4, index=R.index)
    target = float(pick(rng, [0.05, 0.1, 0.2])) if c["target"] else None
    excess = bool(c["seed"] % 2)
    for nm, tr in trs.items():
        kw = dict(diluted_with_cash=True, sigma_des=target) if target else dict(diluted_with_cash=False)
        want[nm] = copy.deepcopy(tr).get_metrics(rf=rf, excess=excess, **kw)      # a copy: a trader is diluted once
    out = io.StringIO()
    best = "PRESCIENT" in names
    with contextlib.redirect_stdout(out):
        PB.create_table(dict(trs), target, rf, excess, prescient=best)
    rows = [x for x in out.getvalue().splitlines() if x.strip().split("&")[0].strip() in names]
    order = [x for x in names if x != "PRESCIENT"] + ["PRESCIENT"] * best
    got = [x.split("&")[0].strip() for x in rows]
    if got != order:
        bad(f"rows of the table are {got}, expected {order}")
    for nm, row in zip(order, rows):
        v = [float(x.replace("\\", " ").replace("%", " ").split()[0]) for x in row.split("&")[1:]]
        m = want[nm]
        for x, y, tol, what in zip(v, (100 * m.mean_return, 100 * m.risk, m.sharpe, 100 * m.drawdown), (0.0501, 0.0501, 0.0501, 0.501), ("return", "risk", "Sharpe ratio", "drawdown")):
            if not abs(x - y) <= tol + 1e-9 * abs(y):
                bad(f"{what} of {nm} in the table is {x}, its metric is {y}")


def run_C26(c):
    M = imp("trading_model")
    if c["what"] == "table":
        return check_table(c)
    if "R" in c:
        ix = pd.date_range("2020-01-01", periods=len(c["R"]))
        R = pd.DataFrame(arr(c["R"]), index=ix, columns=[f"a{i}" for i in range(len(c["R"][0]))])
    else:
        R = make_returns(dict(c, miss=None))
    T, n = R.shape
    rng = np.random.default_rng([c["seed"], 94])
    if c["what"] == "rho":
        got = M.construct_rho(R.copy(), n_devs=c["nd"]) if c["nd"] != 2 else M.construct_rho(R.copy())
        must_labels(got.index, R.index, "times")
        must_labels(got.columns, R.columns, "assets")
        for t in range(T):
            if t < 2:
                want = np.zeros(n)
            else:
                w = np.exp2(-np.arange(t - 1, -1, -1) / 125)[:, None]
                X = R.values[:t]
                m = (w * X).sum(axis=0) / w.sum()
                want = c["nd"] * np.sqrt((w * (X - m) ** 2).sum(axis=0) * w.sum() / (w.sum() ** 2 - (w ** 2).sum()))
            must_close(got.values[t].astype(float), want, f"forecast uncertainty at {R.index[t]}", 1e-5, 1e-7 * float(np.abs(R.values).max() + 1e-300))
        return
    if c["what"] == "mse":
        lo = min(c["lo"], T - 2)
        times = list(R.index[lo:T - 1])
        S = {t: pd.DataFrame(random_cov(rng, n, c.get("scale", 1.0)), index=R.columns, columns=R.columns) for t in times}
        got = imp("experiment_utils").MSE(R.copy(), {t: v.copy() for t, v in S.items()})
        must_labels(got.index, times, "times")
        for q, t in enumerate(times):
            d = S[t].values - np.outer(R.values[lo + q + 1], R.values[lo + q + 1])
            must_close(got.iloc[q], (d ** 2).sum(), f"squared error at {t}", 1e-9)
        return
    if "R" in c:
        sd = np.maximum(np.abs(R.values).mean(axis=0), 1e-9)
        S = {t: pd.DataFrame(random_cov(rng, n) * np.outer(sd, sd), index=R.columns, columns=R.columns) for t in R.index}
    else:
        R, S = trader_inputs(c)
    tr = M.Trader(R, S)
    tr.adjust_factor = c["af"]
    if c["what"] in ("risk", "growth"):
        g = arr(c["g"]).reshape(T, -1) if "g" in c else rng.normal(size=(T, 1)) * 0.02
        if g.std() < 1e-9:
            return
        tr.rets = g.copy()
        want = c["sd"] / (np.sqrt(252) * np.sqrt(((g - g.mean()) ** 2).mean())) * g
        if c["what"] == "risk":
            tr.get_risk_adj_returns(sigma_des=c["sd"])
            must_close(tr.rets_adjusted, want, "returns at the given risk", 1e-9)
            return
        tr.get_risk_adj_portfolio_growth(sigma_des=c["sd"])
        must_close(np.ravel(tr.rets_adjusted), np.ravel(want), "returns at the given risk", 1e-9)
        must_close(np.ravel(tr.Vs_adjusted), np.cumprod(1 + np.ravel(want) / c["af"]), "value path at the given risk", 1e-8)
        return
    cash = c["cash"]
    W = arr(c["W"]).reshape(T, -1) if "W" in c else rng.normal(size=(T, n + cash)) * 0.3 + 0.4
    tr.ws = W.copy()
    tr.portfolio_type = ("vol_cont", "mean_variance")[c["seed"] % 2] if cash else ("min_risk", "eq_weighted")[c["seed"] % 2]
    kw = {}
    f = np.zeros(T)
    dil = c["dil"] and not cash
    if c["rf"] and (cash or dil):
        f = arr(c["rfs"]) if "rfs" in c else 0.001 * (1 + rng.random(T))
    rf = pd.Series(f, index=R.index)
    excess = c["excess"] and (cash or dil)
    if dil:
        kw.update(diluted_with_cash=True, sigma_des=c["sd"])
        sig = np.sqrt([w @ S[t].values @ w for w, t in zip(W, R.index)])
        th = c["sd"] / (np.sqrt(252) * sig)
        W = np.column_stack([th[:, None] * W, 1 - th * 1.0])
    if excess or c["rf"] and (cash or dil):
        kw["rf"] = rf
    if excess:
        kw["excess"] = True
    m = tr.get_metrics(**kw)
    X = np.column_stack([R.values, f]) if cash or dil else R.values
    ret = (W * X).sum(axis=1) / c["af"]
    if ret.std() < 1e-12 or ret.min() <= -0.99:
        return
    mean, risk = 252 * (ret - f if excess else ret).mean(), np.sqrt(252) * ret.std()
    must_close(m.mean_return, mean, "mean annual return", 1e-8, 1e-12)
    must_close(m.risk, risk, "annual risk", 1e-8)
    must_close(m.sharpe, mean / risk, "Sharpe ratio", 1e-8, 1e-10)
    V = np.cumprod(1 + ret)
    must_close(m.drawdown, (1 - V / np.maximum.accumulate(V)).max(), "maximum drawdown", 1e-8, 1e-12)
