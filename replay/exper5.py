"""Contract monitor for the realized covariances (C28) on the real code."""
from common import *
from exper import imp


def gen_C28(rng, tier):
    T = int(hint_size(rng, 1, 40) or rng.integers(1, 9))
    N = int(rng.integers(1, 5))
    most = int(pick(rng, [1, 2, 3, 6, hint_size(rng, 6, 400) or 20]))
    if rng.random() < 0.05:                                  # long histories
        T, N, most = int(hint_size(rng, 40, 600) or rng.integers(60, 320)), 1, 2
    return dict(seed=int(rng.integers(0, 2 ** 31)), what=pick(rng, ["cov", "vola", "ewma", "ewma"]), T=T, N=N, most=most, h=float(pick(rng, [0.3, 1, 2.5, 10, 60, 400])),
                scale=float(pick(rng, [1.0, 1.0, 0.01, hint_scale(rng) or 1.0])), mean=float(pick(rng, [0.0, 1.0, 5.0])), labels=int(rng.integers(0, 3)), dup=bool(rng.random() < 0.2), mixed=bool(rng.random() < 0.3))


def fixed_C28():
    base = dict(T=5, N=3, most=3, h=2.0, scale=1.0, mean=1.0, dup=False)
    return [dict(base, seed=s, what=w, labels=l) for s, l in ((1, 0), (2, 1), (5, 2)) for w in ("cov", "vola", "ewma")] + \
           [dict(base, seed=9, what=w, labels=1, most=1) for w in ("cov", "vola", "ewma")]


def times(c, T, rng):
    if c.get("labels", 0) == 0:
        return list(pd.date_range("2021-02-03", periods=T, freq="B"))
    if c["labels"] == 1:
        return [f"t{k}" for k in rng.permutation(T)]
    return [int(k) for k in 10 + rng.permutation(3 * T)[:T]]


def run_C28(c):
    EU = imp("experiment_utils")
    rng = np.random.default_rng([c["seed"], 28])
    if "records" in c:
        groups = [np.array(g, dtype=float).reshape(len(g), -1) for g in c["records"]]
    else:
        groups = [c["scale"] * (c["mean"] + rng.normal(size=(int(rng.integers(1, c["most"] + 1)), c["N"]))) for _ in range(c["T"])]
        if c["dup"]:
            groups = [np.repeat(g[:1], len(g), axis=0) for g in groups]
    T, N = len(groups), groups[0].shape[1]
    labels, cols = times(c, T, rng), [f"a{k}" for k in range(N)]
    X = pd.DataFrame(np.vstack(groups), index=[labels[t] for t in range(T) for _ in groups[t]], columns=cols)
    if c.get("mixed"):                                   # records of different times in between each other
        order = rng.permutation(len(X))
        who = np.repeat(np.arange(T), [len(g) for g in groups])[order]
        first = list(dict.fromkeys(who))
        X = X.iloc[order]
        labels, groups = [labels[t] for t in first], [X.values[who == t] for t in first]
    before = X.copy()
    scat = [(g - g.mean(axis=0)).T @ (g - g.mean(axis=0)) for g in groups]
    top = max(max(np.abs(g).max() for g in groups) ** 2, 1e-300)

    def results(r, first):
        r = list(r.items()) if isinstance(r, dict) else list(r)
        if [t for t, _ in r] != labels[first:]:
            bad(f"times of the results {[t for t, _ in r]}, expected {labels[first:]}")
        return [v for _, v in r]

    def same(A, B, what):
        if not isinstance(A, pd.DataFrame) or list(A.index) != cols or list(A.columns) != cols:
            bad(f"{what}: not a table labelled by the assets")
        must_close(A.values / top, B / top, what, 1e-8, 1e-10)
    if c["what"] == "cov":
        for t, A in enumerate(results(EU._realized_covariance(X), 0)):
            same(A, scat[t], f"realized covariance of time {t} with {len(groups[t])} records")
    elif c["what"] == "vola":
        for t, v in enumerate(results(EU.realized_volas(X), 0)):
            if not isinstance(v, pd.Series) or list(v.index) != cols:
                bad(f"realized volatility of time {t} with {len(groups[t])} records is not one value per asset")
            must_close(v.values / top ** 0.5, np.sqrt((groups[t] ** 2).sum(axis=0)) / top ** 0.5, f"realized volatility of time {t}", 1e-8, 1e-10)
    else:
        b = 0.5 ** (1 / c["h"])
        for t, A in enumerate(results(EU.realized_ewma(X, c["h"]), 1), 1):
            w = np.array([b ** (t - s) for s in range(t + 1)])
            same(A, sum(w[s] * scat[s] for s in range(t + 1)) / w.sum(), f"moving average at time {t}")
    if not X.equals(before):
        bad("the records were changed")
