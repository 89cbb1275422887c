"""Contract monitors for the experiment utilities (C16-C23) on the real code."""
import pickle

from common import *

from cvx.covariance import ewma as E
from cvx.covariance import regularization as G


def imp(name):
    import importlib
    return importlib.import_module("experiments.utils." + name)


def random_cov(rng, n, scale=1.0):
    A = rng.normal(size=(n, n + 2))
    return (A @ A.T / n + 0.1 * np.eye(n)) * scale ** 2


def logpdf(r, S, m):
    z = np.linalg.solve(np.linalg.cholesky(S), r - m)
    return -0.5 * len(r) * np.log(2 * np.pi) - 0.5 * np.linalg.slogdet(S)[1] - 0.5 * z @ z


# ------------------------------------------------------------------ C16
def gen_C16(rng, tier):
    c = base_case(rng, Tmax=12, Tmin=2, nmax=5)
    if not (HINTS and rng.random() < 0.3):
        c["scale"] = float(pick(rng, [1.0, 0.01, 1e-5]))
    if rng.random() < 0.03:
        c["n"], c["T"] = int(rng.integers(100, 220)), 2      # a large universe
    elif HINTS and rng.random() < 0.2:
        c["n"] = hint_size(rng, 1, 120) or c["n"]
    elif rng.random() < 0.03:
        c["T"] = int(rng.integers(40, 300))
    c.update(what=pick(rng, ["batch", "seq", "reg", "regr", "low", "em"]), means=bool(rng.integers(0, 2)), k=float(pick(rng, [1, 1, 100.0, 0.5])),
             lo=int(rng.integers(0, 2)), hi=int(rng.integers(0, 2)), r=int(rng.integers(1, c["n"] + 1)), rev=bool(rng.integers(0, 2)))
    return c


def frame_of(X, start="2020-01-01"):
    X = np.asarray(X, float)
    return pd.DataFrame(X, index=pd.date_range(start, periods=len(X)), columns=[f"a{i}" for i in range(X.shape[1])])


def witness_C16(c):
    """a counterexample of the verifier"""
    U = imp("experiment_utils")
    A = lambda k: None if c.get(k) is None else np.array(c[k], float)
    r, mu = A("R"), A("mu")
    n = r.shape[1]
    if c["what"] in ("log_likelihood", "log_likelihood_sequential"):
        S, k = A("S"), c["k"]
        a = getattr(U, c["what"])(r.copy(), S.copy(), mu, scale=k)
        if a is None:
            bad("log-likelihood evaluator returns nothing")
        b = [logpdf(k * r[t], k * k * S[t], k * mu[t] if mu is not None else 0 * r[t]) for t in range(len(r))]
        must_close(np.asarray(a).reshape(-1), b, "log-likelihoods", 1e-6, 1e-6)
        return
    R = frame_of(r)
    means = None if mu is None else pd.DataFrame(mu, index=R.index, columns=R.columns)
    times = list(range(c["lo"], c["lo"] + c["n"]))
    if c["kind"] == "low":
        F, d = A("F"), A("d")
        S = [F[t] @ F[t].T + np.diag(d[t]) for t in range(len(r))]
        out = U.log_likelihood_low_rank(R, {R.index[t]: G.LowRankDiag(F=pd.DataFrame(F[t], index=R.columns), d=pd.Series(d[t], index=R.columns)) for t in times}, means)
    else:
        S = A("S")
        cov = {R.index[t]: pd.DataFrame(S[t], index=R.columns, columns=R.columns) for t in times}
        out = U.log_likelihood_regularized(R, cov, means, **({"r": c["r"]} if c["kind"] == "rank" else {}))
        if c["kind"] == "rank":
            reg = dict(G.regularize_covariance(cov, c["r"]))
            S = {t: reg[R.index[t]].values for t in times}
    want = [t for t in times if t + 1 < len(r)]
    must_labels(out.index, [R.index[t] for t in want], "labels of the log-likelihoods")
    b = [logpdf(r[t + 1], S[t], mu[t] if mu is not None else np.zeros(n)) for t in want]
    must_close(out.values.astype(float), b, "log-likelihoods", 1e-6, 1e-6)


def run_C16(c):
    if c["what"] in ("log_likelihood", "log_likelihood_sequential", "dict"):
        return witness_C16(c)
    U = imp("experiment_utils")
    R = make_returns(c)
    T, n = R.shape
    rng = np.random.default_rng([c["seed"], 51])
    S = np.array([random_cov(rng, n, c["scale"]) for _ in range(T)])
    mu = rng.normal(size=(T, n)) * c["scale"] if c["means"] else None
    k = c["k"]
    if c["what"] in ("batch", "seq"):
        f = U.log_likelihood if c["what"] == "batch" else U.log_likelihood_sequential
        a = f(R.values, S, mu, scale=k)
        if a is None:
            bad("log-likelihood evaluator returns nothing")
        b = [logpdf(k * R.values[t], k * k * S[t], (k * mu[t] if c["means"] else 0 * R.values[t])) for t in range(T)]
        must_close(np.asarray(a).reshape(-1), b, "log-likelihoods", 1e-8, 1e-8)
        return
    times = list(range(c["lo"], T - c["hi"]))
    if c["rev"]:
        times = times[::-1]
    means = None if mu is None else pd.DataFrame(mu, index=R.index, columns=R.columns)
    cov = {R.index[t]: pd.DataFrame(S[t], index=R.columns, columns=R.columns) for t in times}
    if c["what"] == "low":
        F = {t: pd.DataFrame(rng.normal(size=(n, c["r"])) * c["scale"], index=R.columns) for t in times}
        d = {t: pd.Series((0.1 + rng.random(n)) * c["scale"] ** 2, index=R.columns) for t in times}
        S = {t: F[t].values @ F[t].values.T + np.diag(d[t].values) for t in times}
        out = U.log_likelihood_low_rank(R, {R.index[t]: G.LowRankDiag(F=F[t], d=d[t]) for t in times}, means)
    elif c["what"] == "reg":
        out = U.log_likelihood_regularized(R, cov, means)
    elif c["what"] == "em":
        r = max(1, min(c["r"], n // 2))
        if n == 1 or n > 30:
            return
        c, mu = dict(c, means=False), None
        out = U.em_low_rank_log_likelihood(R, cov, r)
        fit = dict(G.em_regularize_covariance(cov, dict(G.regularize_covariance(cov, r=r, low_rank_format=True))))
        S = {t: fit[R.index[t]].F.values @ fit[R.index[t]].F.values.T + np.diag(fit[R.index[t]].d.values) for t in times}
    else:
        c["r"] = min(c["r"], n - 1) or 1
        if n == 1:
            return
        out = U.log_likelihood_regularized(R, cov, means, r=c["r"])
        reg = dict(G.regularize_covariance(cov, c["r"]))
        S = {t: reg[R.index[t]].values for t in times}
    want = [t for t in times if t + 1 < T]
    must_labels(out.index, [R.index[t] for t in want], "labels of the log-likelihoods")
    b = [logpdf(R.values[t + 1], S[t], mu[t] if c["means"] else np.zeros(n)) for t in want]
    must_close(out.values, b, "log-likelihoods", 1e-8, 1e-8)


# ------------------------------------------------------------------ C17
def gen_C17(rng, tier):
    c = base_case(rng, Tmax=40, nmax=4, wide=True)
    c.update(memory=int(pick(rng, [1, 2, 3, 5, 10, 39, 40, 60])), m=int(pick(rng, [0, 1, 2, 5, 20, 40])))
    if HINTS and rng.random() < 0.4:
        k = pick(rng, ["memory", "m"])
        c[k] = hint_size(rng, 1 if k == "memory" else 0, 400) or c[k]
        c["T"] = max(c["T"], min(400, c[k] + int(rng.integers(1, 20))))
    return c


def run_C17(c):
    U = imp("experiment_utils")
    R = frame_of(c["X"]) if c.get("what") == "table" else make_returns(c)
    X = R.values
    out = U.rolling_window(R, c["memory"], c["m"])
    s = max(c["m"], 1) - 1
    must_labels(list(out), R.index[s:], "times")
    sc = np.abs(X).max(axis=0)
    sc = np.where(sc > 0, sc, 1)
    for t in range(s, len(X)):
        W = X[max(0, t + 1 - c["memory"]): t + 1]
        S = out[R.index[t]]
        must_labels(S.index, R.columns, "rows")
        must_labels(S.columns, R.columns, "columns")
        must_close(S.values / np.outer(sc, sc), (W.T @ W / len(W)) / np.outer(sc, sc), f"window average at {R.index[t]}", 1e-8, 1e-10)


# ------------------------------------------------------------------ C18
def gen_C18(rng, tier):
    c = base_case(rng, Tmax=16, Tmin=3, nmax=7, nmin=3)
    c["dist"] = pick(rng, ["normal", "t", "corr", "shift", "spike"])
    c.update(rank=int(rng.integers(1, c["n"])), h=halflife(rng), hv=halflife(rng), m=int(pick(rng, [0, 1, 2, 4])), mv=int(pick(rng, [0, 1, 3])),
             mean=bool(rng.random() < .3), h1=pick(rng, [None, 3.0]), h2=pick(rng, [None, 5.0]), c=pick(rng, [None, None, 2.0]), what=pick(rng, ["sum", "run", "iter", "causal"]))
    if c["mean"] and c["what"] in ("iter", "causal"):      # the first centred values are zero: warm-ups of two or more
        c.update(m=max(c["m"], 2), mv=max(c["mv"], 2))
    return c


def run_C18(c):
    try:
        low_rank_case(c)
    except Exception as e:
        if type(e).__name__ == "ArpackError" and "data" in c and not np.all(make_returns(c).values):
            return      # an asset with zero loadings and a zero return: outside the property's reach
        raise


def low_rank_case(c):
    Lr = imp("low_rank_ewma")
    n, k = c["n"], c["rank"]
    rng = np.random.default_rng([c["seed"], 61])
    if c["what"] == "sum":
        F = rng.normal(size=(n, k)) * c["scale"]
        d = rng.random(n) * c["scale"] ** 2 * (rng.random() < 0.7)
        r = rng.normal(size=n) * c["scale"]
        if "F" in c:
            F, d, r = (np.array(c[x], dtype=float) for x in ("F", "d", "r"))
        out = Lr._low_rank_sum(F.copy(), d.copy(), r.copy())
        tot = (F ** 2).sum(axis=1) + d + r ** 2
        if out.F.shape != (n, k):
            bad("number of factors", shape=out.F.shape, rank=k)
        if np.asarray(out.d).min() < 0:
            bad("negative diagonal")
        must_close((out.F ** 2).sum(axis=1) + out.d, tot, "total variances after an update", 1e-9)
        # the loadings are the leading eigen-components of the rescaled low-rank part
        sc = np.sqrt((F ** 2).sum(axis=1) + r ** 2)
        M = (F @ F.T + np.outer(r, r)) / np.outer(sc, sc)
        lam, Q = np.linalg.eigh(M)
        if lam[n - k] - lam[n - k - 1] > 1e-6 or n == k:
            must_close((out.F @ out.F.T) / np.outer(sc, sc), (Q[:, n - k:] * lam[n - k:]) @ Q[:, n - k:].T, "low-rank part of an update", 1e-6, 1e-8)
        return
    R = make_returns(c)
    X = R.values
    if c["what"] == "run":
        out = list(Lr._ewma_low_rank(R, c["h"], c["m"], k))
        s = max(c["m"], 1) - 1
        must_labels([t for t, _ in out], R.index[s:], "times")
        V = ew_avg(X ** 2, c["h"])[s:]
        for i, (t, lr) in enumerate(out):
            must_labels(lr.F.index, R.columns, "loading labels")
            if lr.F.shape != (n, k):
                bad("number of factors", shape=lr.F.shape, rank=k)
            if lr.d.values.min() < 0:
                bad("negative diagonal", time=str(t))
            must_close((lr.F.values ** 2).sum(axis=1) + lr.d.values, V[i], f"total variance at {t}", 1e-8)
        return
    kw = dict(vola_halflife=c["hv"], cov_halflife=c["h"], rank=k, min_periods_vola=c["mv"], min_periods_cov=c["m"], clip_at=c["c"], mean=c["mean"])
    if c["mean"]:
        kw.update(mu_halflife1=c["h1"], mu_halflife2=c["h2"])
    out = list(Lr.low_rank_iterated_ewma(R, **kw))
    if c["what"] == "iter":
        s = max(c["m"], 1) + max(c["mv"], 1) - 2
        must_labels([r.time for r in out], R.index[s:], "times")
        if c["mean"]:
            mu1 = ew_avg(X, c["h1"] or c["hv"])
            X = X - mu1
            s0 = max(c["mv"], 1) - 1
            v0 = np.sqrt(wins_avg(X ** 2, c["hv"], c["mv"], c["c"] ** 2 if c["c"] else None))[s0:]
            Z = X[s0:] / v0
            Z = np.clip(Z, -c["c"], c["c"]) if c["c"] else Z
            mu = (mu1[s0:] + v0 * ew_avg(Z, c["h2"] or c["h"]))[s - s0:]
            for i, r in enumerate(out):
                must_close(np.asarray(r.mean, dtype=float), mu[i], f"mean at {r.time}", 1e-8, 1e-10 * c["scale"] if "scale" in c else 1e-12)
        vol = np.sqrt(wins_avg(X ** 2, c["hv"], c["mv"], c["c"] ** 2 if c["c"] else None))[s:]
        for i, r in enumerate(out):
            must_close(r.volatility.values, vol[i], f"volatility at {r.time}", 1e-8)
            must_close((r.covariance.F.values ** 2).sum(axis=1) + r.covariance.d.values, vol[i] ** 2, f"variance is not the squared moving volatility at {r.time}", 1e-8)
            must_labels(r.covariance.F.index, R.columns, "loading labels")
            if r.covariance.F.shape != (n, k) or r.covariance.d.values.min() < 0:
                bad("shape or sign of the low-rank prediction", time=str(r.time))
        return
    cut = 1 + c["seed"] % (len(R) - 1)
    R2 = R.copy()
    R2.iloc[cut:] = rng.normal(size=R2.iloc[cut:].shape) * 2 * c["scale"]
    pos = {t: i for i, t in enumerate(R.index)}
    a = [r for r in out if pos[r.time] < cut]
    b = [r for r in Lr.low_rank_iterated_ewma(R2, **kw) if pos[r.time] < cut]
    must_labels([r.time for r in b], [r.time for r in a], "times")
    for x, y in zip(a, b):
        o = np.outer(x.volatility, x.volatility)
        must_close(y.volatility.values, x.volatility.values, f"volatility at {x.time} changed by later returns", 1e-10)
        u, v = x.covariance.F.values, y.covariance.F.values
        must_close(v @ v.T / o, u @ u.T / o, f"prediction at {x.time} changed by later returns", 1e-4, 1e-5)


# ------------------------------------------------------------------ C19
class SerialPool:
    """stand-in for multiprocessing.Pool: same process, arguments pickled as the pool does"""

    def __init__(self, *a, **k):
        pass

    def starmap(self, f, xs, *a, **k):
        g = pickle.loads(pickle.dumps((f, list(xs))))
        return [g[0](*x) for x in g[1]]

    def map(self, f, xs, *a, **k):
        g = pickle.loads(pickle.dumps((f, list(xs))))
        return [g[0](x) for x in g[1]]

    imap = map

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def trader_inputs(c):
    R = make_returns(dict(c, miss=None))
    rng = np.random.default_rng([c["seed"], 71])
    sd = np.maximum(np.abs(R.values).mean(axis=0), 1e-9)
    S = {t: pd.DataFrame(random_cov(rng, c["n"]) * np.outer(sd, sd), index=R.columns, columns=R.columns) for t in R.index}
    return R, S


def gen_C19(rng, tier):
    c = base_case(rng, Tmax=20, Tmin=2, nmax=5)
    c["dist"] = pick(rng, ["normal", "corr", "t", "int"])
    c["scale"] = 0.002 if c["dist"] == "int" else 0.01
    c.update(what=pick(rng, ["rets", "rets", "cash", "dd", "turn", "volcont"]), rf=bool(rng.integers(0, 2)), sd=float(pick(rng, [0.05, 0.1, 0.3])),
             af=float(pick(rng, [1, 1, 100])))
    return c


def given_C19(c):
    """counterexamples of the verifier"""
    if c["what"] == "turn":
        W = np.array(c["W"], float)
        want = 100 * 252 * np.mean([np.abs(W[i + 1] - W[i]).sum() / np.abs(W[i]).sum() for i in range(len(W) - 1)])
        must_close(imp("experiment_utils").turnover(W), want, "turnover", 1e-10)
        return
    M = imp("trading_model")
    R = np.array(c["R"], float)
    T, n = R.shape
    days = pd.date_range("2020-01-01", periods=T)
    R = pd.DataFrame(R, index=days, columns=[f"a{k}" for k in range(n)])
    S = {t: pd.DataFrame(np.array(c["S"][k], float), index=R.columns, columns=R.columns) for k, t in enumerate(days)}
    tr = M.Trader(R, S)
    tr.portfolio_type, tr.adjust_factor = "min_risk", c.get("af", 1)
    rf = pd.Series(np.array(c["rf"], float), index=days) if c.get("rf") is not None else None
    if c["what"] == "growth":
        tr.rets = np.array(c["g"], float)
        tr.get_portfolio_growth()
        must_close(np.ravel(tr.Vs), np.cumprod(1 + np.ravel(tr.rets) / c["af"]), "value path", 1e-9)
        return
    if c["what"] == "drawdown":
        tr.Vs = np.array(c["V"], float)
        V = np.ravel(tr.Vs)
        pk = np.maximum.accumulate(V)
        must_close(tr.compute_max_drawdown(), ((pk - V) / pk).max(), "maximum drawdown", 1e-9, 1e-12)
        return
    W = np.array(c["W"], float)
    tr.ws = W.copy()
    if c["what"] == "vcw":
        o = np.array(c["o"], float)
        th = c["sd"] / (np.sqrt(252) * o)
        must_close(tr.get_vol_cont_w(W, o, c["sd"]), np.column_stack([W[:, :, 0] * th[:, None], 1 - th]), "volatility-controlled weights", 1e-9, 1e-12)
        return
    if c["what"] == "rets":
        tr.get_total_returns()
        must_close(np.ravel(tr.rets), (W * R.values).sum(axis=1), "total returns", 1e-9, 1e-14)
        return
    if c["what"] == "vcrets":
        tr.portfolio_type, tr.diluted = "vol_cont", True
        tr.get_total_returns(rf=rf)
        must_close(np.ravel(tr.rets), (W[:, :n] * R.values).sum(axis=1) + (W[:, n] * rf.values if rf is not None else 0), "total returns with cash", 1e-9, 1e-14)
        return
    var = np.array([W[k] @ S[t].values @ W[k] for k, t in enumerate(days)])
    th = c["sd"] / np.sqrt(252 * var)
    D = np.column_stack([W * th[:, None], 1 - th])
    if c["what"] == "dilute" or not c.get("late"):
        tr.dilute_with_cash(c["sd"])
        must_close(tr.ws_diluted, D, "diluted weights", 1e-8, 1e-12)
    if c["what"] == "dilrets":
        tr.get_total_returns(diluted_with_cash=True, sigma_des=c["sd"], rf=rf)
        must_close(np.ravel(tr.rets), (D[:, :n] * R.values).sum(axis=1) + D[:, n] * rf.values, "total returns with cash", 1e-9, 1e-14)


def run_C19(c):
    if "seed" not in c:
        return given_C19(c)
    n, T = c["n"], c["T"]
    rng = np.random.default_rng([c["seed"], 73])
    if c["what"] == "turn":
        U = imp("experiment_utils")
        W = rng.normal(size=(T, n)) + 0.5
        want = 100 * 252 * np.mean([np.abs(W[i + 1] - W[i]).sum() / np.abs(W[i]).sum() for i in range(T - 1)])
        must_close(U.turnover(W), want, "turnover", 1e-10)
        return
    M = imp("trading_model")
    R, S = trader_inputs(c)
    tr = M.Trader(R, S)
    if c["what"] == "volcont":
        old = M.mp.Pool if hasattr(M, "mp") else None
        if old is not None:
            M.mp.Pool = SerialPool
        try:
            tr.backtest(portfolio_type="vol_cont", sigma_des=c["sd"], additonal_cons={}, cons=[])
        finally:
            if old is not None:
                M.mp.Pool = old
        if tr.ws.shape != (T, n + 1):
            bad("shape of the volatility-controlled weights", shape=tr.ws.shape)
        must_close(tr.ws.sum(axis=1), np.ones(T), "weights with cash do not sum to one", 1e-6)
        for i, t in enumerate(R.index):
            w = tr.ws[i, :n]
            must_close(np.sqrt(252 * w @ S[t].values @ w), c["sd"], f"predicted annual volatility at {t}", 1e-4)
        return
    tr.backtest(portfolio_type="eq_weighted", adjust_factor=c["af"])
    must_close(tr.ws, np.full((T, n), 1 / n), "equal weights")
    W = rng.normal(size=(T, n)) * 0.3 + 1 / n
    W /= W.sum(axis=1, keepdims=True)
    tr.ws = W.copy()
    if c["what"] == "cash":
        late = bool(rng.integers(0, 2))      # the dilution done on the way, by the first request for returns
        rf = pd.Series(rng.random(T) * 1e-3, index=R.index) if c["rf"] else None
        if late:
            tr.get_metrics(diluted_with_cash=True, sigma_des=c["sd"], rf=rf)
        else:
            tr.dilute_with_cash(c["sd"])
        D = tr.ws_diluted
        if D.shape != (T, n + 1):
            bad("shape of the diluted weights", shape=D.shape)
        must_close(D.sum(axis=1), np.ones(T), "diluted weights do not sum to one", 1e-9)
        for i, t in enumerate(R.index):
            w = D[i, :n]
            must_close(np.sqrt(252 * w @ S[t].values @ w), c["sd"], f"predicted annual volatility at {t}", 1e-8)
            must_close(np.outer(w, W[i]), np.outer(W[i], w), "diluted weights are not proportional to the portfolio", 1e-8, 1e-12)
        if not late:
            tr.get_total_returns(diluted_with_cash=True, sigma_des=c["sd"], rf=rf)
        want = (D[:, :n] * R.values).sum(axis=1) + (D[:, n] * rf.values if c["rf"] else 0)
        must_close(np.ravel(tr.rets), want, "total returns with cash", 1e-9, 1e-14)
        return
    rf = pd.Series(rng.random(T) * 1e-3, index=R.index) if c["rf"] else None
    tr.get_total_returns(rf=rf)
    want = (W * R.values).sum(axis=1)
    must_close(np.ravel(tr.rets), want, "total returns", 1e-9, 1e-14)
    if c["what"] == "dd":
        tr.rets = (rng.normal(size=(T, 1)) * 0.2 * c["af"]).clip(-0.9 * c["af"], None)
        want = np.ravel(tr.rets)
    tr.get_portfolio_growth()
    V = np.cumprod(1 + want / c["af"])
    must_close(np.ravel(tr.Vs), V, "value path", 1e-9)
    if (V > 0).all():
        dd = tr.compute_max_drawdown()
        pk = np.maximum.accumulate(V)
        must_close(dd, ((pk - V) / pk).max(), "maximum drawdown", 1e-9, 1e-12)
        if not 0 <= dd < 1:
            bad("drawdown outside [0, 1)", drawdown=dd)


# ------------------------------------------------------------------ C20
LIMITS = [{}, {"short_lim": 1.6, "upper_bound": 0.6, "lower_bound": -0.1}, {"upper_bound": 0.55}, {"lower_bound": 0.0}, {"short_lim": 1.2},
          {"lower_bound": 0.05, "upper_bound": 0.7}, None]


def gen_C20(rng, tier):
    c = base_case(rng, Tmax=7, Tmin=4, nmax=5, nmin=3)
    c["dist"] = "corr"
    c["index"] = pick(rng, ["date", "bday", "gaps", "int5", "str"])
    c["scale"] = 0.01
    c.update(what=pick(rng, ["causal", "seq", "seq", "min", "eq", "mv"]), lims=[int(rng.integers(0, 6)) for _ in range(3)], lo=int(rng.integers(0, 2)), hi=int(rng.integers(0, 2)),
             user=bool(rng.integers(0, 2)), realpool=bool(rng.random() < 0.03))
    return c


def min_risk_ref(S, lim):
    import cvxpy as cp
    n = len(S)
    w = cp.Variable(n)
    L = np.linalg.cholesky(S)
    cons = [cp.sum(w) == 1]
    if "short_lim" in lim:
        cons.append(cp.norm1(w) <= lim["short_lim"])
    if "upper_bound" in lim:
        cons.append(w <= lim["upper_bound"])
    if "lower_bound" in lim:
        cons.append(w >= lim["lower_bound"])
    p = cp.Problem(cp.Minimize(cp.sum_squares(L.T @ w)), cons)
    p.solve(solver="CLARABEL")
    return w.value


def check_min_risk(tr, lim, what, R=None):
    for i, t in enumerate(tr.returns.index):
        S = tr.Sigma_hats[t].values
        sc = np.trace(S) / len(S)
        w = tr.ws[i]
        viol = max(abs(w.sum() - 1), *(
            [np.abs(w).sum() - lim["short_lim"]] if "short_lim" in lim else [0]), *(
            [w.max() - lim["upper_bound"]] if "upper_bound" in lim else [0]), *(
            [lim["lower_bound"] - w.min()] if "lower_bound" in lim else [0]))
        if viol > 1e-5:
            bad(f"{what}: position limits of this run violated at {t}", weights=w.tolist(), limits=lim)
        ref = min_risk_ref(S / sc, lim)
        a, b = w @ S @ w / sc, ref @ S @ ref / sc
        if a > b * (1 + 1e-4) + 1e-7:
            bad(f"{what}: weights at {t} do not minimise the predicted variance", weights=w.tolist(), expected=ref.tolist(), limits=lim)


FEASIBLE = {"short_lim": 1.6, "upper_bound": 0.6, "lower_bound": -0.1}


def given_C20(c, B, M):
    """counterexamples of the verifier: an explicit window, or a sequence of runs on several random tables"""
    if c["what"] == "window":
        R = make_returns(c)
        n = R.shape[1]
        times = list(R.index)
        keys = times[c["lead"]: c["lead"] + c["L"]]
        rng = np.random.default_rng(5)
        cov = [{t: pd.DataFrame(random_cov(rng, n), index=R.columns, columns=R.columns) for t in keys} for _ in range(c["K"])]
        mus = [pd.DataFrame(rng.normal(size=(len(keys), n)), index=keys, columns=R.columns) for _ in range(c["K"])]
        a, b = (keys[c["off"]], keys[len(keys) - 1 - c["rest"]])
        ia, ib = times.index(a), times.index(b)
        want = times[ia:ib]
        kw = dict(start_date=a, end_date=b) if c["user"] else {}

        def agrees(q, rt, sg, mt, what):
            must_labels(rt.index, want, what + ": trading times")
            must_labels(list(sg), want, what + ": prediction times")
            for t in want:
                must_close(rt.loc[t].values, R.loc[times[times.index(t) + 1]].values, f"{what}: return paired with the prediction of {t}", 1e-12)
                must_close(np.asarray(sg[t]), cov[q][t].values, f"{what}: prediction used at {t}", 1e-12)
                if mt is not None:
                    must_close(mt.loc[t].values, mus[q].loc[t].values, f"{what}: mean used at {t}", 1e-12)
        if c["kind"] == "causal":
            rt, sg, *mt = B._get_causal(R, cov[0], a, b, **(dict(mus=mus[0]) if c["mean"] else {}))
            agrees(0, rt, sg, mt[0] if mt else None, "window")
            return
        names = [f"p{q}" for q in range(c["K"])]
        if not want:
            return
        if c["kind"] == "MeanVariance":
            log = []
            real, M.Trader.backtest = M.Trader.backtest, lambda self, *a, **k: log.append(self)
            try:
                trs = B.MeanVariance(R, cov, names, mus, **kw).backtest(FEASIBLE, 0.1)
            finally:
                M.Trader.backtest = real
            for q, nm in enumerate(names):
                agrees(q, trs[nm].returns, trs[nm].Sigma_hats, trs[nm].r_hats, nm)
            check_mean_variance(M, trs[names[-1]], mus[-1], want)
            return
        lim = {k: FEASIBLE[k] for k in c["lim"]} if n >= 2 else {}
        trs = B.EqWeighted(R, cov, names, **kw).backtest() if c["kind"] == "EqWeighted" else B.MinRisk(R, cov, names, **kw).backtest(lim)
        must_labels(sorted(trs), sorted(names), "names")
        for q, nm in enumerate(names):
            agrees(q, trs[nm].returns, trs[nm].Sigma_hats, None, nm)
            if c["kind"] == "EqWeighted":
                must_close(trs[nm].ws, np.ones((len(want), n)) / n, f"{nm}: weights", 1e-12)
            else:
                check_min_risk(trs[nm], lim, nm)
        return
    for sd in range(4):
        d = dict(c, T=3, n=4, seed=sd, dist="corr", scale=0.01, index="date")
        R, S = trader_inputs(d)
        tr = None
        last = len(c["runs"]) - 1
        for q, (same, kind, names, zero) in enumerate(c["runs"]):
            lim = {k: 0.0 if zero and k == "lower_bound" else FEASIBLE[k] for k in names}
            if q < last and sd % 2:
                lim["upper_bound"] = 0.1        # the earlier runs have no solution
            tr = tr if same and tr is not None else M.Trader(R, S)
            kw = dict(portfolio_type=kind, additonal_cons=lim)
            if kind == "vol_cont":
                kw["sigma_des"] = 0.1
            if q < last:
                try:
                    tr.backtest(**kw)
                except Exception:
                    pass
                continue
            solved(tr, kw, f"run {q + 1} of {c['runs']}")
            check_min_risk(tr, lim, f"run {q + 1} of {c['runs']}")


def solved(tr, kw, what):
    """a run whose limits allow a solution finds one"""
    tr.backtest(**kw)
    if np.asarray(tr.ws).dtype == object or not np.isfinite(np.asarray(tr.ws, float)).all():
        bad(f"{what}: no weights although the limits of this run allow some", limits=kw["additonal_cons"])


def check_mean_variance(M, tr, mus, want):
    """the problems solved for the times use the means labelled with them"""
    import cvxpy as cp
    log = []
    real, pool = cp.Problem.solve, getattr(getattr(M, "mp", None), "Pool", None)

    def solve(self, *a, **k):
        log.append([np.array(p.value) for p in self.parameters() if p.value is not None])
        for v in self.variables():
            v.value = np.zeros(v.shape)
    if pool is not None:
        M.mp.Pool = SerialPool
    try:
        cp.Problem.solve = solve
        tr.backtest(portfolio_type="mean_variance", additonal_cons=FEASIBLE, sigma_des=0.1)
    finally:
        cp.Problem.solve = real
        if pool is not None:
            M.mp.Pool = pool
    log = log[-len(want):]
    n = mus.shape[1]
    for t, ps in zip(want, log):
        for p in ps:
            if p.shape == (n + 1, 1):
                must_close(p.ravel()[:n], mus.loc[t].values, f"mean traded at {t}", 1e-9)


def run_C20(c):
    B = imp("portfolio_backtests")
    M = imp("trading_model")
    if c["what"] == "mv":
        c = dict(c, what="window", kind="MeanVariance", mean=True, K=2, lead=c["lo"], L=c["T"] - c["lo"], off=int(c["user"]), rest=c["hi"] if c["user"] else 0, lim=[])
    if c["what"] in ("window", "runs"):
        real = getattr(getattr(M, "mp", None), "Pool", None)
        if real is not None:
            M.mp.Pool = SerialPool
        try:
            return given_C20(c, B, M)
        finally:
            if real is not None:
                M.mp.Pool = real
    R, S = trader_inputs(c)
    times = list(R.index)
    real = getattr(getattr(M, "mp", None), "Pool", None)
    if real is not None and not c["realpool"]:
        M.mp.Pool = SerialPool
    try:
        if c["what"] in ("causal", "eq", "min"):
            keys = times[c["lo"]:]
            cov = {t: S[t] for t in keys}
            a, b = keys[0], keys[-1]
            if c["user"]:
                a, b = keys[1 if len(keys) > 3 else 0], keys[len(keys) - 1 - c["hi"]]
            ia, ib = times.index(a), times.index(b)
            want = [t for t in times[ia:ib]]
            if c["what"] == "causal":
                mus = pd.DataFrame(R.values * 3 + 1, index=R.index, columns=R.columns)
                rt, sg, mt = B._get_causal(R, cov, a, b, mus=mus)
                r2, s2 = B._get_causal(R, cov, a, b)
                must_labels(r2.index, rt.index, "times with and without means")
                must_labels(list(s2), list(sg), "times with and without means")
                must_labels(rt.index, want, "trading times")
                must_labels(list(sg), want, "prediction times")
                must_labels(mt.index, want, "mean times")
                for t in want:
                    nx = times[times.index(t) + 1]
                    must_close(rt.loc[t].values, R.loc[nx].values, f"return paired with the prediction of {t}", 1e-12)
                    must_close(np.asarray(sg[t]), S[t].values, f"prediction used at {t}", 1e-12)
                    must_close(mt.loc[t].values, mus.loc[t].values, f"mean used at {t}", 1e-12)
                return
            kw = dict(start_date=a, end_date=b) if c["user"] else {}
            lim = LIMITS[c["lims"][0]]
            other = {t: S[t] * 2.0 for t in keys}
            if c["what"] == "eq":
                trs = B.EqWeighted(R, [other, cov], ["o", "x"], **kw).backtest()
            else:
                if "short_lim" in lim or "upper_bound" in lim:
                    lim = dict(lim)
                trs = B.MinRisk(R, [other, cov], ["o", "x"], **kw).backtest(additonal_cons=lim)
            tr = trs["x"]
            must_labels(tr.returns.index, want, "trading times")
            for t in want:
                must_close(tr.Sigma_hats[t].values, S[t].values, f"prediction used at {t}", 1e-12)
                must_close(tr.returns.loc[t].values, R.loc[times[times.index(t) + 1]].values, f"return paired with the prediction of {t}", 1e-12)
            if c["what"] == "min":
                check_min_risk(tr, lim, "MinRisk")
            tr.get_total_returns()
            nxt = np.array([R.loc[times[times.index(t) + 1]].values for t in want])
            must_close(np.ravel(tr.rets), (tr.ws * nxt).sum(axis=1), "realised returns", 1e-9, 1e-14)
            return
        for q, l in enumerate(c["lims"]):
            lim = LIMITS[l]
            tr = M.Trader(R, S)
            if q == 1 and c["hi"]:
                try:
                    tr.backtest(portfolio_type="min_risk", additonal_cons={"upper_bound": 0.5 / c["n"]})
                except Exception:
                    pass
            solved(tr, dict(portfolio_type="min_risk", additonal_cons=lim), f"run {q + 1}")
            check_min_risk(tr, lim, f"run {q + 1} of a sequence with limits {[LIMITS[x] for x in c['lims'][: q + 1]]}")
    finally:
        if real is not None:
            M.mp.Pool = real


# ------------------------------------------------------------------ C21
def gen_C21(rng, tier):
    c = base_case(rng, Tmax=20, Tmin=6, nmax=3)
    c["dist"] = pick(rng, ["normal", "t", "corr"])
    if not (HINTS and rng.random() < 0.3):
        c["scale"] = float(pick(rng, [1.0, 0.01]))
    if rng.random() < 0.05:
        c["T"] = int(rng.integers(30, 90))
    mem = int(rng.integers(1, 9)) if rng.random() < 0.9 else int(rng.integers(9, 40))
    if HINTS and rng.random() < 0.3:
        mem = hint_size(rng, 1, 300) or mem
        c["T"] = max(c["T"], min(320, mem + int(rng.integers(1, 12))))
    c.update(K=int(rng.integers(1, 4)) if rng.random() < 0.9 else int(rng.integers(4, 7)), memory=mem, alpha=float(pick(rng, [1e-3, 0.1, 1.0, 10.0])), hf=float(pick(rng, [3.0, 20, 500])),
             what=pick(rng, ["w", "fit", "fit", "causal", "tune"]), lead=int(rng.integers(0, 2)), trail=int(pick(rng, [0, 0, 1, 3])))
    return c


def run_C21(c):
    M = imp("return_combination")
    R = make_returns(c)
    T, n, K, mem, al = c["T"], c["n"], c["K"], c["memory"], c["alpha"]
    rng = np.random.default_rng([c["seed"], 81])
    if "P" in c:
        n_p = len(c["P"][0])
        P = [pd.DataFrame(np.array(p, dtype=float), index=R.index[:n_p], columns=[f"p{j}" for j in range(K)]) for p in c["P"]]
    else:
        P = [pd.DataFrame(0.3 * R.values[:, [i]] + c["scale"] * rng.normal(size=(T, K)), index=R.index, columns=[f"p{j}" for j in range(K)]) for i in range(n)]

    def ridge(y, X, v, hf):
        m = len(y)
        b = np.exp2(-np.arange(m - 1, -1, -1) / hf)
        b = b / b.sum() * m
        return np.linalg.solve((X.T * b) @ X + al * np.diag(v), (X.T * b) @ y)

    cb = M.ReturnCombinator()
    if c["what"] == "w":
        v = pd.Series(0.1 + rng.random(K), index=P[0].columns)
        m = min(mem, T)
        got = cb._get_weights(R.iloc[:m, 0], P[0].iloc[:m], v, al, weighted_hf=c["hf"])
        must_labels(got.index, P[0].columns, "weight labels")
        must_close(got.values, ridge(R.values[:m, 0], P[0].values[:m], v.values, c["hf"]), "ridge weights", 1e-7, 1e-10)
        return
    memory = min(mem, T - 1)
    lead = c["lead"] if "P" in c or T > memory + 3 else 0
    trail = c.get("trail", 0) if "P" not in c and T > memory + 7 else 0
    Q = [p.iloc[lead:len(p) - trail] for p in P]
    times = list(Q[0].index)
    if "P" in c:      # an explicit case counts only where the regression has one solution
        for q in Q:
            v = (q ** 2).ewm(com=250).mean().shift(1)
            for t in range(memory, len(times)):
                G = q.values[t - memory: t].T @ q.values[t - memory: t] + al * np.diag(v.values[t])
                if np.linalg.cond(G) > 1e10:
                    return
    if c["what"] == "tune":
        grid = [al, 3.0 * al, 0.2][: 1 + c["seed"] % 3]
        al2, corr, rmse, wl = M.tune_alpha(R, [q.copy() for q in Q], list(grid), memory=memory)
        must_close(np.asarray(al2, dtype=float), grid, "candidates", 0)
        if not len(corr) == len(rmse) == len(wl) == len(grid):
            bad(f"{len(corr)} correlations, {len(rmse)} errors and {len(wl)} weights for {len(grid)} candidates")
        for q, a in enumerate(grid):
            h, w = M.ReturnCombinator().fit(R, [q.copy() for q in Q], memory, a)
            x, y = h.values.ravel(), R.loc[h.index].values.ravel()
            must_close(rmse[q], np.sqrt(((x - y) ** 2).mean()), f"error of candidate {q}", 1e-9, 1e-14)
            if len(x) > 2 and x.std() > 1e-9 * abs(x).max() and y.std() > 1e-9 * abs(y).max():
                z = ((x - x.mean()) * (y - y.mean())).mean() / (x.std() * y.std())
                must_close(corr[q], z, f"correlation of candidate {q}", 1e-6, 1e-9)
            for i in range(n):
                must_close(wl[q][i].values, w[i].values, f"weights of candidate {q}", 1e-9, 1e-12)
        return
    hats, ws = cb.fit(R, [q.copy() for q in Q], memory, al)
    must_labels(hats.columns, R.columns, "assets")
    must_labels(hats.index, times[memory:], "times of the combined forecasts")
    if c["what"] == "fit":
        for i in range(n):
            must_labels(ws[i].index, times[memory:], "times of the weights")
            must_labels(ws[i].columns, Q[i].columns, "weight labels")
            v = (Q[i] ** 2).ewm(com=250).mean().shift(1)
            for t in range(memory, len(times)):
                y = R.loc[times[t - memory]: times[t - 1]].values[:, i]
                w = ridge(y, Q[i].values[t - memory: t], v.values[t], 500)
                must_close(ws[i].values[t - memory].astype(float), w, f"weights of asset {i} at {times[t]}", 1e-6, 1e-9)
                must_close(hats.values[t - memory, i], Q[i].values[t] @ w, f"combined forecast of asset {i} at {times[t]}", 1e-6, 1e-9 * c["scale"])
        return
    t = memory + c["seed"] % max(1, len(times) - memory)
    R2 = R.copy()
    R2.loc[times[t]:] = rng.normal(size=R2.loc[times[t]:].shape) * 5 * c["scale"]
    Q2 = [q.copy() for q in Q]
    for q in Q2:
        q.iloc[t + 1:] = rng.normal(size=q.iloc[t + 1:].shape) * 5 * c["scale"]
    h2, w2 = cb.fit(R2, Q2, memory, al)
    must_close(h2.values[: t - memory + 1], hats.values[: t - memory + 1], f"combined forecast up to {times[t]} changed by returns from {times[t]} on or later forecasts", 1e-10)
    Q3 = [q.copy() for q in Q]
    for q in Q3:
        q.iloc[t] = q.iloc[t] * -3 + 2 * c["scale"]
    h3, w3 = cb.fit(R, Q3, memory, al)
    for i in range(n):
        must_close(w3[i].values[: t - memory + 1].astype(float), ws[i].values[: t - memory + 1].astype(float), f"weights for {times[t]} changed by that time's forecasts", 1e-10)


# ------------------------------------------------------------------ C22
def gen_C22(rng, tier):
    n, T = int(rng.integers(1, 9)), int(rng.integers(1, 6))
    u = rng.random()
    if u < 0.05:
        T = int(rng.integers(6, 150))
    elif u < 0.1:
        n = int(rng.integers(9, 40))
    if HINTS and rng.random() < 0.4:
        if rng.random() < 0.5:
            T = hint_size(rng, 1, 400) or T
        else:
            n = hint_size(rng, 1, 60) or n
    return dict(seed=int(rng.integers(0, 2 ** 31)), n=n, T=T, kind=pick(rng, ["normal", "int", "zeros", "int64", "big", "tiny", "f32"]))


def run_C22(c):
    U = imp("experiment_utils")
    n = c["n"]
    if c.get("what") == "row":      # a counterexample of the verifier
        A = np.array(c["rows"], float)
        T, c = len(A), dict(c, kind="given")
    else:
        T = c["T"]
        rng = np.random.default_rng([c["seed"], 91])
        m = n * (n + 1) // 2
        A = rng.normal(size=(T, m)) if c["kind"] != "int" else rng.integers(-9, 9, size=(T, m)).astype(float)
    if c["kind"] == "int64":
        A = rng.integers(-2 ** 40, 2 ** 40, size=(T, m))
    elif c["kind"] == "big":
        A = A * 1e8
    elif c["kind"] == "tiny":
        A = A * 1e-12
    elif c["kind"] == "f32":
        A = A.astype(np.float32)
    if c["kind"] == "zeros":
        A[rng.random(size=A.shape) < 0.4] = 0.0
    A0 = A.copy()
    want = np.zeros((T, n, n))
    for t in range(T):
        k = 0
        for i in range(n):
            for j in range(i, n):
                want[t, i, j] = want[t, j, i] = A0[t, k]
                k += 1
    for t in range(T):
        S = U.from_row_to_covariance(A[t], n)
        if not np.array_equal(np.asarray(S), want[t]):
            bad("expanded matrix", got=np.asarray(S).tolist(), expected=want[t].tolist())
    Z = U.from_row_matrix_to_covariance(A, n)
    if np.asarray(Z).shape != want.shape or not np.array_equal(np.asarray(Z), want):
        bad("expanded table")
    if not np.array_equal(A, A0):
        bad("expanding modified the packed table")


# ------------------------------------------------------------------ C23
def gen_C23(rng, tier):
    c = base_case(rng, Tmax=30, Tmin=8, nmax=4)
    c["dist"] = pick(rng, ["normal", "t", "corr", "shift", "spike", "hetero"])
    mean = bool(rng.integers(0, 2))
    lo = 2 if mean else 1
    if rng.random() < 0.03:
        c["T"] = int(rng.integers(60, 200))
    c.update(hv=halflife(rng), hc=halflife(rng), mv=int(rng.integers(lo, 5)), mc=int(rng.integers(lo, 5)), mean=mean, c=pick(rng, [None, 1.5, 3.0, 4.2]))
    return c


def run_C23(c):
    V = imp("iterated_ewma_vec")
    R = make_returns(c)
    a = {r.time: r for r in E.iterated_ewma(R, c["hv"], c["hc"], c["mv"], c["mc"], mean=c["mean"], clip_at=c["c"])}
    b = V.iterated_ewma(R.copy(), c["hv"], c["hc"], c["mv"], c["mc"], mean=c["mean"], clip_at=c["c"])
    cov = b.covariance if c["mean"] else b
    sc = np.abs(R.values).max(axis=0)
    # skip predictions in which an asset is (numerically) degenerate
    must_labels(list(cov), list(a), "times")
    for t, S in cov.items():
        x = a[t]
        vol = x.volatility.values
        if (vol < 1e-6 * sc).any():
            continue
        must_labels(S.columns, R.columns, "columns")
        must_labels(S.index, R.columns, "rows")
        A, Bv = x.covariance.values / np.outer(vol, vol), S.values / np.outer(vol, vol)
        if np.isnan(A).any() or degenerate(R, c, t):
            continue
        must_close(Bv, A, f"covariance at {t}", 1e-6, 1e-8)
        if c["mean"]:
            must_close(b.mean[t].values / sc, x.mean.values / sc, f"mean at {t}", 1e-7, 1e-10)


def degenerate(R, c, t):
    """second-stage variance (numerically) zero for some asset: only with means and clipping"""
    if not c["mean"]:
        return False
    from single import spec_iewma
    sp = spec_iewma(R, c["hv"], c["hc"], c["mv"], c["mc"], True, None, None, c["c"])
    return t not in sp or not sp[t][3].all()
