"""Contract monitors for the covariance combination (C09-C13) on the real code."""
import copy

from common import *

import cvxpy as cvx
from cvx.covariance import combination as M
from cvx.covariance import ewma as E
from cvx.covariance import regularization as G


def witness(c, **kw):
    """a failing input proposed by the verifier, in the form of a monitor case"""
    if c.get("what") != "given":
        return c
    lo, m = c["lo"], c["m"]
    d = dict(c, what=None, given=True, seed=5, hi=lo + m, step=1, keys="str", agree=False, means="series" if c["mu"] else None, hole=True, scale=1.0)
    d["as"] = "list"
    d["window2"] = max(1, m - 1)
    if c.get("run"):
        d["run"] = [c["run"][0] - lo - 1, c["run"][0] - lo - 1 + c["run"][1]]
    if "cut" in c:
        d.update(cut=c["cut"] - lo, edit="all", ewma=False)
    d.update(kw)
    return d


def ill_posed(c):
    """too few observations for the number of experts: the problem has no strict maximiser"""
    return c.get("given") and eff_window(c) * c["n"] < c["K"] + 1


def make_given(c):
    idx = pd.bdate_range("2020-01-01", periods=c["T"])
    names = [f"a{i}" for i in range(c["n"])]
    R = pd.DataFrame(c["r"], index=idx, columns=names)
    keys = [f"e{(5 * i + 2) % 7}" for i in range(c["K"])]
    t = list(idx[c["lo"]:c["lo"] + c["m"]])
    sig = {k: {u: pd.DataFrame(c["s"][q][j], index=names, columns=names) for j, u in enumerate(t)} for q, k in enumerate(keys)}
    mu = {k: {u: pd.Series(c["mu"][q][j], index=names) for j, u in enumerate(t)} for q, k in enumerate(keys)} if c["mu"] else None
    return R, sig, mu


def make_experts(c):
    """returns, sigmas {key: {time: cov}}, means or None"""
    if c.get("given"):
        return make_given(c)
    R = make_returns(dict(c, miss=None))
    rng = np.random.default_rng([c["seed"], 23])
    T, n, K = c["T"], c["n"], c["K"]
    lo, hi, st = c.get("lo", 0), c.get("hi", T), c.get("step", 1)
    times = list(R.index[lo:hi:st])
    keys = {"str": [f"e{(5 * i + 2) % 7}" for i in range(K)], "int": [3 * (K - i) for i in range(K)]}[c.get("keys", "str")]
    sc = np.maximum(np.abs(R.values).mean(axis=0), 1e-12)
    sig, mu = {}, {}
    for q, k in enumerate(keys):
        A = rng.normal(size=(n, n))
        f = 0.4 + 1.5 * rng.random()
        sig[k], mu[k] = {}, {}
        for t in times:
            A = A + 0.5 * rng.normal(size=(n, n))
            S = (A @ A.T / (1 + np.trace(A @ A.T) / n) + (0.3 + rng.random()) * np.eye(n)) * f
            S = S * np.outer(sc, sc)
            S = (S + S.T) / 2
            sig[k][t] = pd.DataFrame(S, index=R.columns, columns=R.columns)
            mu[k][t] = 0.3 * sc * rng.normal(size=n)
    kind = c.get("means", None)
    if kind == "series":
        mu = {k: {t: pd.Series(v, index=R.columns) for t, v in d.items()} for k, d in mu.items()}
    elif kind is None:
        mu = None
    if c.get("agree"):
        ref = sig[keys[0]]
        for t in times[len(times) // 2:: 2]:
            for k in keys:
                sig[k][t] = ref[t].copy()
                if mu is not None:
                    mu[k][t] = mu[keys[0]][t].copy()
    if c.get("perm_mean_order"):
        mu = {k: dict(d) for k, d in mu.items()} if mu else mu
    return R, sig, mu


def combo_case(rng, nmin=1):
    c = base_case(rng, Tmax=14, Tmin=6, nmax=4, nmin=nmin)
    c["dist"] = pick(rng, ["normal", "t", "corr", "shift", "hetero"])
    c["scale"] = float(pick(rng, [1.0, 0.1, 0.01]))
    c["K"] = int(rng.integers(1, 5))
    c["means"] = pick(rng, [None, None, "array", "series"])
    c["lo"] = int(pick(rng, [0, 0, 1, 2]))
    c["hi"] = c["T"] - int(pick(rng, [0, 0, 1]))
    c["step"] = int(pick(rng, [1, 1, 1, 2])) if c["hi"] - c["lo"] >= 10 else 1
    c["keys"] = pick(rng, ["str", "int"])
    c["agree"] = False
    m = (c["hi"] - c["lo"] + c["step"] - 1) // c["step"] - 1
    need = -(-(c["K"] + 1) // c["n"])       # keeps the problem well posed
    c["K"] = min(c["K"], max(1, m * c["n"] - 1))
    need = -(-(c["K"] + 1) // c["n"])
    c["window"] = pick(rng, [None, 10 ** 6, m, m + 3] + [int(w) for w in range(min(need, m), m + 1)])
    return c


def n_avail(c):
    return len(range(c["lo"], c["hi"], c["step"])) - 1


def eff_window(c):
    m = n_avail(c)
    return min(c["window"] or m, m)


class failing:
    """the optimiser raises at chosen solves (by number), or reports no value (`novalue`); records the options of each solve"""

    def __init__(self, at=(), novalue=()):
        self.at, self.novalue, self.kw = set(at), set(novalue), []

    def __enter__(self):
        self.orig = cvx.Problem.solve
        me = self

        def solve(prob, *a, **k):
            i = len(me.kw)
            me.kw.append((a, dict(k)))
            if i in me.at:
                raise cvx.SolverError("injected failure")
            r = me.orig(prob, *a, **k)
            if i in me.novalue:
                for v in prob.variables():
                    v.value = None
            return r
        cvx.Problem.solve = solve
        return self

    def __exit__(self, *a):
        cvx.Problem.solve = self.orig


class Spec:
    def __init__(self, R, sig, mu):
        self.keys = list(sig)
        self.times = list(sig[self.keys[0]])
        self.R = R
        self.L = {k: {t: np.linalg.cholesky(np.linalg.inv(s.values)) for t, s in d.items()} for k, d in sig.items()}
        self.nu = {k: {t: self.L[k][t].T @ (np.asarray(mu[k][t], dtype=float) if mu else np.zeros(R.shape[1])) for t in d} for k, d in sig.items()}

    def outcome_times(self, w):
        return self.times[1:][w - 1:]

    def scored(self, t, w):
        """last w (issue time, return time) pairs up to t"""
        i = self.times.index(t)
        return [(self.times[j - 1], self.times[j]) for j in range(i - w + 1, i + 1)]

    def loglik_grad(self, wts, t, w):
        g = np.zeros(len(self.keys))
        size = 1.0
        for s0, s1 in self.scored(t, w):
            Ls = [self.L[k][s0] for k in self.keys]
            L = sum(a * b for a, b in zip(wts, Ls))
            nu = sum(a * self.nu[k][s0] for a, k in zip(wts, self.keys))
            z = L.T @ self.R.loc[s1].values - nu
            d = np.diag(L)
            for q, k in enumerate(self.keys):
                a, b = np.sum(np.diag(Ls[q]) / d), z @ (Ls[q].T @ self.R.loc[s1].values - self.nu[k][s0])
                g[q] += a - b
                size += (abs(a) + abs(b)) / len(self.keys)
        return g, size

    def check_weights(self, r, w, tol):
        wt = r.weights
        must_labels(wt.index, self.keys, f"weight keys at {r.time}")
        v = wt.values
        if v.min() < -1e-6 or abs(v.sum() - 1) > 1e-6:
            bad("weights are not on the simplex", time=r.time, weights=v.tolist())
        g, size = self.loglik_grad(v, r.time, w)
        gap = g.max() - g @ v
        GAPS.append(gap / size)
        if gap > tol * size:
            bad("weights do not maximise the trailing log-likelihood", time=r.time, weights=v.tolist(), gap=float(gap), gradient=g.tolist())

    def check_comp(self, r, assets, rtol=1e-7):
        v = r.weights.values
        L = sum(a * self.L[k][r.time] for a, k in zip(v, self.keys))
        nu = sum(a * self.nu[k][r.time] for a, k in zip(v, self.keys))
        S = np.linalg.inv(L @ L.T)
        must_labels(r.covariance.index, assets, "covariance rows")
        must_labels(r.covariance.columns, assets, "covariance columns")
        must_labels(r.mean.index, assets, "mean labels")
        sd = np.sqrt(np.diag(S))
        must_close(r.covariance.values / np.outer(sd, sd), S / np.outer(sd, sd), f"combined covariance at {r.time}", rtol)
        must_close(r.mean.values / sd, np.linalg.solve(L.T, nu) / sd, f"combined mean at {r.time}", rtol, 1e-9)


TOL = 1e-3
GAPS = []


def gen_C09(rng, tier):
    return combo_case(rng)


def run_C09(c):
    c = witness(c)
    if ill_posed(c):
        return
    R, sig, mu = make_experts(c)
    sp = Spec(R, sig, mu)
    w = eff_window(c)
    out = list(M.from_sigmas(sig, R, mu).solve(window=c["window"]))
    must_labels([r.time for r in out], sp.outcome_times(w), "outcome times")
    for r in out:
        sp.check_weights(r, w, TOL)


def gen_C10(rng, tier):
    c = combo_case(rng)
    c["agree"] = bool(rng.integers(0, 2)) and c["K"] > 1
    if c["agree"]:
        c["window"] = None
    c["ewma"] = bool(rng.random() < 0.2)
    return c


def run_C10(c):
    c = witness(c)
    if ill_posed(c):
        return
    if c.get("ewma"):
        R = make_returns(dict(c, T=c["T"] + 14, n=max(2, c["n"]), miss=None, dist="normal"))
        mean = bool(c["means"])
        pairs = [(3, 5), (6, 9), (4, 15)][: max(1, min(3, c["K"]))]
        sig = {f"{a}-{b}": {r.time: r for r in E.iterated_ewma(R, a, b, 4, 7, mean=mean)} for a, b in pairs}
        sp = Spec(R, {k: {t: r.covariance for t, r in d.items()} for k, d in sig.items()},
                  {k: {t: r.mean for t, r in d.items()} for k, d in sig.items()})
        for r in M.from_ewmas(R, pairs, min_periods_vola=4, min_periods_cov=7, mean=mean).solve(window=5):
            sp.check_comp(r, list(R.columns), 1e-6)
        return
    R, sig, mu = make_experts(c)
    sp = Spec(R, sig, mu)
    for r in M.from_sigmas(sig, R, mu).solve(window=c["window"]):
        sp.check_comp(r, list(R.columns))
        S = r.covariance.values
        sd = np.sqrt(np.diag(S))
        C = S / np.outer(sd, sd)
        if np.abs(C - C.T).max() > 1e-9 or np.linalg.eigvalsh((C + C.T) / 2).min() <= 0:
            bad("combined covariance is not symmetric positive definite", time=r.time)
        k0 = sp.keys[0]
        same = all(sig[k][r.time].equals(sig[k0][r.time]) for k in sp.keys) and (mu is None or all(np.array_equal(mu[k][r.time], mu[k0][r.time]) for k in sp.keys))
        if same:
            if abs(r.weights.values.sum() - 1) < 1e-6:
                must_close(C * np.outer(sd, sd) / np.outer(sd, sd), sig[k0][r.time].values / np.outer(sd, sd), f"experts agree at {r.time} but the combination differs", 1e-5)
                if mu is not None:
                    must_close(r.mean.values / sd, np.asarray(mu[k0][r.time]) / sd, f"experts agree on the mean at {r.time} but the combination differs", 1e-5, 1e-6)
        if mu is None and np.abs(r.mean.values / sd).max() > 1e-9:
            bad("mean is not zero although no means were given", time=r.time)


def gen_C11(rng, tier):
    c = combo_case(rng)
    if rng.random() < 0.12:
        return dict(c, what="ewmas")
    c["cut"] = int(rng.integers(2, max(3, n_avail(c) + 1)))
    c["edit"] = pick(rng, ["returns", "experts", "truncate", "all"])
    c["ewma"] = bool(rng.random() < 0.3)
    if c["window"] is None or c["window"] >= n_avail(c):
        c["window"] = max(1, n_avail(c) // 2, -(-(c["K"] + 1) // c["n"]))
    return c


def cmp_results(a, b, what, tol=1e-7):
    must_labels([None if r is None else r.time for r in b], [None if r is None else r.time for r in a], what + ": times")
    for x, y in zip(a, b):
        if x is None:
            continue
        must_labels(y.weights.index, x.weights.index, what + ": weight keys")
        must_close(y.weights.values, x.weights.values, f"{what}: weights at {x.time}", tol, 1e-7)
        must_close(y.covariance.values, x.covariance.values, f"{what}: covariance at {x.time}", max(tol, 1e-6))
        sd = np.sqrt(np.abs(np.diag(x.covariance.values)))
        must_close(y.mean.values / sd, x.mean.values / sd, f"{what}: mean at {x.time}", max(tol, 1e-6), 1e-7)
        must_labels(y.covariance.columns, x.covariance.columns, what + ": labels")


def run_C11(c):
    if c.get("what") == "ewmas":
        return long_history(c)
    c = witness(c)
    if ill_posed(c):
        return
    g = np.random.default_rng([c["seed"], 31])
    if c["ewma"]:
        R = make_returns(dict(c, T=c["T"] + 12, n=max(2, c["n"]), miss=None, dist="normal"))
        mean = bool(c["means"])
        pairs = [(3, 5), (6, 9)]
        kw = dict(min_periods_vola=4, min_periods_cov=7, mean=mean, clip_at=3.0)
        a = list(M.from_ewmas(R, pairs, **kw).solve(window=4))
        cut = len(R) - int(g.integers(1, 5))
        R2 = R.iloc[:cut] if c["edit"] == "truncate" else R.copy()
        if c["edit"] != "truncate":
            R2.iloc[cut:] = g.normal(size=R2.iloc[cut:].shape) * 3 * c["scale"]
        pos = {t: i for i, t in enumerate(R.index)}
        b = [r for r in M.from_ewmas(R2, pairs, **kw).solve(window=4) if pos[r.time] < cut]
        cmp_results([r for r in a if pos[r.time] < cut], b, "results changed by later returns")
        return
    R, sig, mu = make_experts(c)
    keys = list(sig)
    times = list(sig[keys[0]])
    w = c["window"]
    a = list(M.from_sigmas(sig, R, mu).solve(window=w))
    cut = min(c["cut"], len(times) - 1)
    last = times[cut]            # results up to `last` must not change
    if cut < eff_window(c):
        return
    R2, sig2, mu2 = R.copy(), {k: dict(d) for k, d in sig.items()}, None if mu is None else {k: dict(d) for k, d in mu.items()}
    later = [t for t in R.index if t > last]
    if c["edit"] in ("returns", "all"):
        for t in later:
            R2.loc[t] = g.normal(size=R.shape[1]) * 4 * c["scale"]
    if c["edit"] in ("experts", "all"):
        for k in keys:
            f = 0.2 + 4 * g.random()
            for t in times[cut + 1:]:
                sig2[k][t] = sig2[k][t] * f
                if mu2 is not None:
                    mu2[k][t] = mu2[k][t] * -f
    if c["edit"] == "truncate":
        for k in keys:
            for t in times[cut + 1:]:
                del sig2[k][t]
                if mu2 is not None:
                    del mu2[k][t]
        R2 = R2.loc[:last]
    b = list(M.from_sigmas(sig2, R2, mu2).solve(window=w))
    idx = {t: i for i, t in enumerate(times)}
    cmp_results([r for r in a if idx[r.time] <= cut], [r for r in b if idx[r.time] <= cut], f"results up to {last} changed by later data")
    # a return is scored against the predictions of the preceding step: the predictions issued at the
    # last scored return's own time must not matter for the weights
    sig3 = {k: dict(d) for k, d in sig.items()}
    for k in keys:
        sig3[k][last] = sig3[k][last] * (0.3 + 3 * g.random())
    x = [r for r in a if r.time == last]
    y = [r for r in M.from_sigmas(sig3, R, mu).solve(window=w) if r.time == last]
    if x and y:
        must_close(y[0].weights.values, x[0].weights.values, f"weights at {last} depend on predictions issued at {last}", 1e-6, 1e-6)


def long_history(c):
    """from_ewmas on a history long enough for an outlier to stand out: later returns change nothing"""
    g = np.random.default_rng([c["seed"], 37])
    n, cut = max(2, c["n"]), int(g.integers(118, 126))
    T = cut + int(g.integers(3, 40))
    R = pd.DataFrame(0.01 * g.normal(size=(T, n)), index=pd.bdate_range("2020-01-01", periods=T), columns=[f"a{i}" for i in range(n)])
    R.iloc[int(g.integers(30, cut - 3)), 0] = 0.15 * (1 if g.random() < .5 else -1)
    R.iloc[int(g.integers(cut - 12, cut - 1)), n - 1] = 0.12
    pairs = [(5, 10), (10, 21), (21, 63)][: max(1, min(3, c["K"]))]
    kw = dict(min_periods_vola=int(g.integers(5, 30)), min_periods_cov=int(g.integers(5, 30)), mean=bool(g.integers(0, 2)), clip_at=[None, 4.2, 3.0][g.integers(0, 3)])
    w = int(g.integers(3, 12))
    times = list(R.index[cut - 9: cut])
    R2 = R.copy()
    R2.iloc[cut:] = 0.05 * g.normal(size=R2.iloc[cut:].shape) + 0.02
    a, b, d = ([r for r in M.from_ewmas(X, pairs, **kw).solve(window=w, times=times)] for X in (R, R2, R.iloc[:cut]))
    cmp_results(a, b, "results changed by later returns")
    cmp_results(a, d, "results changed by deleting later returns")


def gen_C12(rng, tier):
    c = combo_case(rng)
    m = n_avail(c)
    a = int(rng.integers(0, m))
    b = int(rng.integers(a + 1, m + 1))
    c["run"] = [a, b]
    c["as"] = pick(rng, ["list", "index", "tuple"])
    c["hole"] = bool(rng.integers(0, 2))
    c["fails"] = bool(rng.random() < 0.3)
    if c["window"] is None and rng.random() < 0.7:
        c["window"] = int(rng.integers(min(m, -(-(c["K"] + 1) // c["n"])), m + 1))
    return c


def run_C12(c):
    c = witness(c)
    if ill_posed(c):
        return
    if c.get("given") and "run" not in c:
        m = n_avail(c)
        for a in range(m):
            for b in range(a + 1, m + 1):
                run_C12(dict(c, run=[a, b]))
        return
    R, sig, mu = make_experts(c)
    comb = M.from_sigmas(sig, R, mu)
    times = list(sig[list(sig)[0]])[1:]
    w = eff_window(c)
    full = list(comb.solve(window=c["window"]))
    must_labels([r.time for r in full], times[w - 1:], "outcome times")
    a, b = c["run"]
    sub = times[a:b]
    arg = {"list": list, "index": pd.Index, "tuple": tuple}[c["as"]](sub)
    got = list(comb.solve(window=c["window"], times=arg))
    cmp_results([r for r in full if r.time in sub], got, f"solve(times={sub[0]}..{sub[-1]}) differs from the unrestricted solve")
    if c.get("fails", c.get("given")):      # one outcome per time, also where the optimiser fails
        bad_at = {i for i in range(len(full)) if (c["seed"] + 3 * i) % 4 == 0} or {0}
        for pick_at in (bad_at, {0}, {len(full) - 1}):
            with failing(pick_at):
                f1 = list(comb.solve(window=c["window"]))
            failed = {times[w - 1 + i] for i in pick_at}
            must_labels([None if r is None else r.time for r in f1], [None if t in failed else t for t in times[w - 1:]], "one outcome per time when the optimiser fails")
            out = [t for t in times[w - 1:] if t in sub]
            with failing({i for i, t in enumerate(out) if t in failed}):
                f2 = list(comb.solve(window=c["window"], times=arg))
            must_labels([None if r is None else r.time for r in f2], [None if t in failed else t for t in out], "one outcome per requested time when the optimiser fails")
            cmp_results([r for r in full if r.time not in failed], [r for r in f1 if r is not None], "outcomes of the other times")
    if c["hole"] and len(times) >= 3:
        i = c["seed"] % (len(times) - 2)
        try:
            x = list(comb.solve(window=c["window"], times=[times[i], times[i + 2]]))
        except Exception:
            x = None
        if x is not None:
            bad("times that are not consecutive are accepted", times=[str(times[i]), str(times[i + 2])])


def gen_C13(rng, tier):
    c = combo_case(rng)
    m = n_avail(c)
    lo = min(m, -(-(c["K"] + 1) // c["n"]))
    c["window"] = int(rng.integers(lo, m + 1))
    c["window2"] = int(rng.integers(lo, m + 1))
    c["what"] = pick(rng, ["inter", "inter", "fail", "fail", "novalue", "frame", "frame2"])
    c["fail"] = [int(x) for x in rng.integers(0, 6, size=2)]
    c["order"] = [int(x) for x in rng.integers(0, 3, size=40)]
    return c


def run_C13(c):
    if c.get("what") == "given":
        m = c["m"] - 1
        for what in ("frame", "fail", "inter"):
            for w in ({c["window"] or m, 1} if what == "fail" else {c["window"] or m}):
                for bad_at in (range(m) if what == "fail" else [0]):
                    d = witness(c, what=what, window=w, fail=[bad_at, bad_at], order=[0, 1, 2, 2, 1, 0] * 6)
                    if not ill_posed(d):
                        run_C13(d)
        return
    if c["what"] == "frame2":
        return frame2(c)
    R, sig, mu = make_experts(c)
    if c["what"] == "frame":
        R0, s0, m0 = R.copy(deep=True), copy.deepcopy(sig), copy.deepcopy(mu)
        comb = M.from_sigmas(sig, R, mu)
        list(comb.solve(window=c["window"]))
        if not R.equals(R0):
            bad("solving modified the returns")
        for k in s0:
            if list(sig[k]) != list(s0[k]):
                bad("solving modified the table of covariances")
            for t in s0[k]:
                if not sig[k][t].equals(s0[k][t]):
                    bad("solving modified a covariance", key=k, time=str(t))
                if mu is not None and not np.array_equal(np.asarray(mu[k][t]), np.asarray(m0[k][t])):
                    bad("solving modified a mean", key=k, time=str(t))
        return
    comb = M.from_sigmas(sig, R, mu)
    full = list(M.from_sigmas(sig, R, mu).solve(window=c["window"]))
    if c["what"] == "inter":
        full2 = list(M.from_sigmas(sig, R, mu).solve(window=c["window2"]))
        run = [r.time for r in full][1:3] or [full[0].time]
        full3 = list(M.from_sigmas(sig, R, mu).solve(window=c["window"], times=run))
        part = comb.solve(window=c["window2"])
        next(part)
        gs = [comb.solve(window=c["window"]), comb.solve(window=c["window2"]), comb.solve(window=c["window"], times=run)]
        outs = [[], [], []]
        for i in c["order"]:
            r = next(gs[i], StopIteration)
            if r is not StopIteration:
                outs[i].append(r)
        for i in range(3):
            outs[i] += list(gs[i])
        for a, b, n in zip((full, full2, full3), outs, ("first", "second", "restricted")):
            cmp_results(a, b, f"interleaved solves: {n} call", 1e-9)
        cmp_results(full, list(comb.solve(window=c["window"])), "repeated solve", 1e-9)
        return
    # solver failures injected at chosen solves
    bad_at = {i % len(full) for i in c["fail"]}
    kw = [{}, {"solver": "CLARABEL"}, {"verbose": False}, {"solver": "CLARABEL", "max_iter": 500}][c["seed"] % 4]
    if c["what"] == "novalue":    # the optimiser returns without a value: hidden state must not fill the gap
        with failing((), bad_at):
            one = outcomes(M.from_sigmas(sig, R, mu), window=c["window"], **kw)
        outcomes(comb, window=c["window2"], **kw)
        with failing((), bad_at):
            two = outcomes(comb, window=c["window"], **kw)
        if len(one) != len(two):
            bad("an earlier call changes the outcomes", first=len(one), repeated=len(two))
        for a, b in zip(one, two):
            if isinstance(a, str) or isinstance(b, str):
                if not (isinstance(a, str) and a == b):
                    bad("an earlier call changes the outcome when the optimiser has no value", alone=str(a)[:80], later=str(b)[:80])
                continue
            cmp_results([a], [b], "an earlier call changes the outcome when the optimiser has no value", 1e-9)
        return
    with failing(bad_at) as f:
        got = list(comb.solve(window=c["window"], **kw))
    if len(got) != len(full):
        bad("a solver failure changes the number of outcomes", got=len(got), expected=len(full))
    if any(k != ((), kw) for k in f.kw):
        bad("the optimiser's options change from one time to the next", first=f.kw[0], now=[k for k in f.kw if k != f.kw[0]][:1])
    for i, r in enumerate(got):
        if (r is None) != (i in bad_at):
            bad("outcome after a solver failure", at=i, failed=sorted(bad_at), outcome=None if r is None else str(r.time))
    cmp_results([r for i, r in enumerate(full) if i not in bad_at], [r for r in got if r is not None], "outcomes of the other times after a solver failure", 1e-9)


def outcomes(comb, **kw):
    """the outcomes, ending with the name of the exception if the solve ends with one"""
    out = []
    try:
        for r in comb.solve(**kw):
            out.append("None" if r is None else r)
    except Exception as e:
        out.append(type(e).__name__)
    return out


def frame2(c):
    """predictors and regularisation leave their inputs alone"""
    R = make_returns(dict(c, T=c["T"] + 10, n=max(2, c["n"]), miss=pick(np.random.default_rng(c["seed"]), [None, "some", "late"])))
    R0 = R.copy(deep=True)
    mean = bool(c["means"])
    out = list(E.iterated_ewma(R, 4, 6, 3, 3, mean=mean, clip_at=2.0))
    E.volatility(R, 3, 2, 2.0)
    E.center(R, 3, 2, True)
    x = E.clip(R, 0.5 * c["scale"])
    x.iloc[:, 0] = 0.0
    if not R.equals(R0):
        bad("predicting modified the returns")
    sig = {r.time: r.covariance for r in out if not r.covariance.isna().any().any() and (np.diag(r.covariance.values) > 0).all()}
    sig = {t: s + 0.1 * np.diag(np.diag(s)) for t, s in list(sig.items())[:4]}
    if not sig:
        return
    s0 = copy.deepcopy(sig)
    lr = dict(G.regularize_covariance(sig, 1, low_rank_format=True))
    lr0 = copy.deepcopy(lr)
    list(G.regularize_covariance(sig, 1))
    list(G.em_regularize_covariance(sig, lr))
    if list(sig) != list(s0) or any(not sig[t].equals(s0[t]) for t in s0):
        bad("regularising modified a covariance")
    if any(not (lr[t].F.equals(lr0[t].F) and lr[t].d.equals(lr0[t].d)) for t in lr0):
        bad("EM modified its starting point")
