"""Contract monitors for the regularisations (C14, C15) on the real code."""
from common import *

from cvx.covariance import regularization as G


def sigmas_case(rng):
    n = int(rng.integers(1, 8))
    scale = float(pick(rng, [1.0, 1e-4, 100.0, 1e-9]))
    if HINTS and rng.random() < 0.6:
        if rng.random() < 0.5:
            n = hint_size(rng, 1, 60) or n
        else:
            scale = hint_scale(rng) or scale
    return dict(seed=int(rng.integers(0, 2 ** 31)), n=n, r=int(rng.integers(1, n + 1)), m=int(rng.integers(1, 4)) if rng.random() < 0.97 or n > 8 else int(rng.integers(4, 40)),
                cols=pick(rng, COL_KINDS), index=pick(rng, INDEX_KINDS), scale=scale,
                spread=float(pick(rng, [1, 1, 10, 1000])), psd=pick(rng, ["pd", "pd", "pd", "lowrank", "twin"]))


def make_sigmas(c):
    if c.get("what") == "matrices":      # a counterexample of the verifier
        cols = [f"a{i}" for i in range(c["n"])]
        return {pd.Timestamp("2020-01-01") + pd.Timedelta(days=t): pd.DataFrame(np.array(m, float), index=cols, columns=cols) for t, m in enumerate(c["mats"])}
    rng = np.random.default_rng([c["seed"], 41])
    n = c["n"]
    cols = make_cols(c["cols"], n)
    out = {}
    order = rng.permutation(c["m"])
    idx = make_index(c["index"], c["m"])
    for t in order:        # keys in the order given, not sorted
        k = n + 2 if c.get("psd") in ("pd", "twin") or n == 1 else max(1, n - 1)
        A = rng.normal(size=(n, k)) + 0.7 * rng.normal(size=(1, k))
        A = A * (1 + (c["spread"] - 1) * rng.random(size=(n, 1)))
        if c.get("psd") == "twin" and n > 1:     # two perfectly (anti)correlated assets
            A[-1] = A[0] * rng.choice([-1.0, 2.0])
        out[idx[t]] = pd.DataFrame(A @ A.T * c["scale"], index=cols, columns=cols)
    return out


def gen_C14(rng, tier):
    return sigmas_case(rng)


def run_C14(c):
    sig = make_sigmas(c)
    r, n = c["r"], c["n"]
    full = list(G.regularize_covariance(sig, r))
    low = list(G.regularize_covariance(sig, r, low_rank_format=True))
    must_labels([t for t, _ in full], list(sig), "keys of the full format")
    must_labels([t for t, _ in low], list(sig), "keys of the low-rank format")
    for (t, F), (_, LR) in zip(full, low):
        S = sig[t]
        must_labels(F.index, S.index, "rows")
        must_labels(F.columns, S.columns, "columns")
        sd = np.sqrt(np.diag(S.values))
        out = np.outer(sd, sd)
        must_close(np.diag(F.values), sd ** 2, f"diagonal at {t}", 1e-10)
        R = S.values / out
        lam, Q = np.linalg.eigh(R)
        gap = r == n or lam[n - r] - lam[n - r - 1] > 1e-8
        lo = (Q[:, n - r:] * lam[n - r:]) @ Q[:, n - r:].T
        spec = lo + np.diag(1 - np.diag(lo))
        C = F.values / out
        if gap:
            must_close(C, spec, f"correlation form at {t}", 1e-8, 1e-9)
        if np.abs(C - C.T).max() > 1e-10:
            bad("regularised matrix is not symmetric", time=str(t))
        if np.linalg.eigvalsh((C + C.T) / 2).min() < -1e-9:
            bad("regularised matrix is not positive semidefinite", time=str(t))
        must_labels(LR.F.index, S.columns, "loading rows")
        must_labels(LR.d.index, S.columns, "diagonal labels")
        if LR.F.shape != (n, r):
            bad("shape of the loadings", shape=LR.F.shape, r=r)
        if (LR.d.values / sd ** 2).min() < -1e-9:
            bad("negative diagonal in the low-rank format", time=str(t))
        must_close((LR.F.values @ LR.F.values.T + np.diag(LR.d.values)) / out, C, f"low-rank format differs from the full format at {t}", 1e-8, 1e-9)


def gen_C15(rng, tier):
    c = sigmas_case(rng)
    c["psd"] = "pd"
    c["spread"] = float(pick(rng, [1, 3]))
    c["init"] = pick(rng, ["reg", "rand", "rand"])
    if c["init"] == "reg":
        c["n"] = max(c["n"], 2)
        c["r"] = min(c["r"], max(1, c["n"] - 2))
    return c


def em_spec(S, F, d):
    """five EM steps of the factor model, from the textbook posterior moments"""
    for _ in range(5):
        Om = F @ F.T + np.diag(d)
        B = F.T @ np.linalg.inv(Om)                     # posterior mean of the factors: B x
        Ess = np.eye(F.shape[1]) - B @ F + B @ S @ B.T  # expected second moment
        Exs = S @ B.T
        F = np.linalg.solve(Ess.T, Exs.T).T
        d = np.diag(S - 2 * Exs @ F.T + F @ Ess @ F.T).copy()
    return F, d


def gauss_obj(S, F, d):
    Om = F @ F.T + np.diag(d)
    return -np.linalg.slogdet(Om)[1] - np.trace(np.linalg.solve(Om, S))


def run_C15(c):
    sig = make_sigmas(c)
    rng = np.random.default_rng([c.get("seed", 0), 43])
    init = {}
    for q, (t, S) in enumerate(sig.items()):
        cols = S.columns
        if c.get("what") == "matrices":      # a counterexample of the verifier
            init[t] = G.LowRankDiag(F=pd.DataFrame(np.array(c["F0"][q], float).reshape(c["n"], c["r"]), index=cols), d=pd.Series(np.array(c["d0"][q], float), index=cols))
        elif c["init"] == "reg":
            init[t] = dict(G.regularize_covariance({t: S}, c["r"], low_rank_format=True))[t]
        else:
            sd = np.sqrt(np.diag(S.values))
            F = rng.normal(size=(c["n"], c["r"])) * sd[:, None] * 0.7
            d = sd ** 2 * (0.2 + rng.random(c["n"]))
            init[t] = G.LowRankDiag(F=pd.DataFrame(F, index=cols), d=pd.Series(d, index=cols))
    init = {t: init[t] for t in reversed(list(init))}
    if any((v.d.values <= 1e-9 * np.diag(sig[t].values)).any() for t, v in init.items()):
        return
    out = list(G.em_regularize_covariance(sig, init))
    must_labels([t for t, _ in out], list(sig), "keys")
    for t, LR in out:
        S = sig[t].values
        must_labels(LR.F.index, sig[t].columns, "loading labels")
        must_labels(LR.d.index, sig[t].columns, "diagonal labels")
        F0, d0 = init[t].F.values, init[t].d.values
        F, d = em_spec(S, F0, d0)
        sd = np.sqrt(np.diag(S))
        if (d / sd ** 2).min() < 1e-7:
            continue
        must_close(LR.F.values / sd[:, None], F / sd[:, None], f"loadings after five EM steps at {t}", 1e-6, 1e-7)
        must_close(LR.d.values / sd ** 2, d / sd ** 2, f"diagonal after five EM steps at {t}", 1e-6, 1e-8)
        if LR.d.values.min() <= 0:
            bad("diagonal is not positive", time=str(t))
        a, b = gauss_obj(S, F0, d0), gauss_obj(S, LR.F.values, LR.d.values)
        if b < a - 1e-8 * (1 + abs(a)):
            bad("the likelihood got worse", time=str(t), before=a, after=b)
