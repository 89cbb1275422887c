"""Contract monitors for the single-expert predictor (C01-C08) on the real code."""
from common import *

from cvx.covariance import ewma as E


def spec_iewma(R, hv, hc, mv=20, mc=20, mean=False, h1=None, h2=None, c=None):
    """the two-stage recipe, from its statement; finite returns, no degenerate asset"""
    X = R.values.astype(float)
    T, n = X.shape
    h1 = h1 or hv
    h2 = h2 or hc
    mu = ew_avg(X, h1) if mean else np.zeros_like(X)
    Z = X - mu
    vol = np.sqrt(wins_avg(Z ** 2, hv, mv, c ** 2 if c else None))
    s = max(mv, 1) - 1
    with np.errstate(all="ignore"):
        A = Z[s:] / vol[s:]
    if c:
        A = np.clip(A, -c, c)
    keep = ~np.isnan(A).all(axis=1)
    times = R.index[s:][keep]
    vols = vol[s:][keep]
    mus = mu[s:][keep]
    A = np.nan_to_num(A[keep], nan=0.0, posinf=np.inf, neginf=-np.inf)
    out = {}
    if len(A) == 0:
        return out
    am = ew_avg(A, h2) if mean else np.zeros_like(A)
    A = A - am
    C = ew_avg(np.einsum("ti,tj->tij", A, A), hc)
    for k in range(max(mc, 1) - 1, len(A)):
        d = np.diag(C[k]).copy()
        with np.errstate(all="ignore"):
            rho = C[k] / np.sqrt(np.outer(d, d))
        rho[d == 0, :] = np.nan
        rho[:, d == 0] = np.nan
        out[times[k]] = (mus[k] + vols[k] * am[k] if mean else np.zeros(n), rho * np.outer(vols[k], vols[k]), vols[k], d > 1e-8)
    return out


def iewma_params(rng, T):
    mean = bool(rng.integers(0, 2))
    p = dict(hv=halflife(rng), hc=halflife(rng),
             mv=int(pick(rng, [0, 1, 2, 3, 5, min(12, max(1, T // 3))])), mc=int(pick(rng, [0, 1, 2, 3, 4, min(9, max(1, T // 3))])),
             mean=mean, c=pick(rng, [None, None, 0.8, 1.5, 2.0, 3.0, 4.2]))
    p["h1"] = float(pick(rng, [1.5, 4, 30])) if mean and rng.random() < 0.5 else None
    p["h2"] = float(pick(rng, [1.5, 6, 25])) if mean and rng.random() < 0.5 else None
    return p


def call_iewma(R, p, **kw):
    return list(E.iterated_ewma(R, vola_halflife=p["hv"], cov_halflife=p["hc"], min_periods_vola=p["mv"],
                                min_periods_cov=p["mc"], mean=p["mean"], mu_halflife1=p["h1"], mu_halflife2=p["h2"],
                                clip_at=p["c"], **kw))


# ------------------------------------------------------------------ C01
def gen_C01(rng, tier):
    c = base_case(rng, wide=True, Tmax=60)
    c.update(h=halflife(rng), m=int(pick(rng, [0, 1, 2, 5, 20, 59])), what=pick(rng, ["vol", "vol", "center", "own"]))
    return c


def run_C01(c):
    R = make_returns(c)
    X, h, m = R.values, c["h"], c["m"]
    s = max(m, 1) - 1
    if c["what"] == "vol":
        v = E.volatility(R, h, min_periods=m)
        if s >= len(X):
            if len(v):
                bad("volatility reported before the warm-up")
            return
        must_labels(v.index, R.index[s:], "volatility times")
        must_labels(v.columns, R.columns, "volatility assets")
        must_close(v.values, np.sqrt(ew_avg(X ** 2, h))[s:], "volatility", 1e-9)
    elif c["what"] == "center":
        cr, mu = E.center(R, h, min_periods=m, mean_adj=True)
        W = ew_avg(X, h)
        if s >= len(X):
            if len(mu) or len(cr):
                bad("centred returns before the warm-up")
            return
        scale = np.abs(X).max()
        must_labels(mu.index, R.index[s:], "moving mean times")
        must_close(mu.values, W[s:], "moving mean", 1e-9, 1e-12 * scale)
        must_labels(cr.index, R.index[s:], "centred times")
        must_close(cr.values, (X - W)[s:], "centred returns", 1e-8, 1e-11 * scale)
        r0, m0 = E.center(R, h, min_periods=m, mean_adj=False)
        frame_eq(r0, R, "uncentred returns")
        must_close(m0.values, np.zeros_like(X), "mean without centring")
    else:
        if c["n"] < 2 or s >= len(X):
            return
        R2 = R.copy()
        j = c["seed"] % c["n"]
        g = np.random.default_rng([c["seed"], 3])
        R2.iloc[:, j] = g.normal(size=len(X)) * 5
        if c["seed"] % 3 == 0:
            R2.iloc[c["seed"] % len(X):, j] = np.nan
        keep = [k for k in range(c["n"]) if k != j]
        v1, v2 = E.volatility(R, h, min_periods=m), E.volatility(R2, h, min_periods=m)
        frame_eq(v2.iloc[:, keep], v1.iloc[:, keep], "volatility of an asset depends on another asset", 1e-12)
        a, b = E.center(R, h, m, True), E.center(R2, h, m, True)
        frame_eq(b[1].iloc[:, keep], a[1].iloc[:, keep], "mean of an asset depends on another asset", 1e-12)
        frame_eq(b[0].iloc[:, keep], a[0].iloc[:, keep], "centred return of an asset depends on another asset", 1e-12)


# ------------------------------------------------------------------ C02
def gen_C02(rng, tier):
    c = base_case(rng, wide=True, Tmax=50, miss=(None, None, "some", "rows", "asset"))
    c.update(h=halflife(rng), m=int(pick(rng, [0, 1, 2, 3, 7, 20, 48, 49])), c=pick(rng, [None, 0.5, 1, 1.0, 1.5, 2.0, 3.0, 4.2, 10.0]),
             what=pick(rng, ["vol", "vol", "clip"]))
    if c["what"] == "vol":
        c["miss"] = None
    return c


def run_C02(c):
    R = make_returns(c)
    X = R.values
    if c["what"] == "clip":
        q = c["c"]
        k = None if q is None else q * c["scale"]
        D = R.copy()
        if k is not None and len(X) > 2:
            D.iloc[0, 0], D.iloc[1, 0] = k, -k
        out = E.clip(D, clip_at=k)
        keep = ~np.isnan(D.values).all(axis=1)
        must_labels(out.index, D.index[keep], "clip() times")
        must_labels(out.columns, D.columns, "clip() assets")
        Y = D.values[keep]
        if k is not None:
            Y = np.where(Y > k, k, np.where(Y < -k, -k, Y))
        if not np.array_equal(out.values, Y, equal_nan=True):
            bad("clip() values", c=k)
        return
    h, m = c["h"], c["m"]
    s = max(m, 1) - 1
    v = E.volatility(R, h, min_periods=m, clip_at=c["c"])
    if s >= len(X):
        if len(v):
            bad("rows before the warm-up")
        return
    must_close(v.values, np.sqrt(wins_avg(X ** 2, h, m, c["c"] ** 2 if c["c"] else None))[s:], "winsorised volatility", 1e-9)


# ------------------------------------------------------------------ C03
def gen_C03(rng, tier):
    c = base_case(rng, wide=True, Tmax=40, miss=(None, None, "holiday"))
    c.update(iewma_params(rng, c["T"]))
    c.update(what=pick(rng, ["vol", "iewma"]))
    if c["what"] == "vol":
        c["mv"] = int(pick(rng, [0, 1, 2, 5, 20, 39, 40, 41]))
    elif rng.random() < 0.15:
        c["mv"], c["mc"] = int(rng.integers(0, c["T"] + 3)), int(rng.integers(0, c["T"] + 3))
    if c["mean"]:
        c["mv"], c["mc"] = max(c["mv"], 2), max(c["mc"], 2)
        if c["dist"] == "int":     # repeated returns: centred returns of exactly zero, a degenerate asset
            c["dist"] = "normal"
    return c


def run_C03(c):
    R = make_returns(c)
    T = len(R)
    if c["what"] == "vol":
        v = E.volatility(R, c["hv"], min_periods=c["mv"], clip_at=c["c"])
        s = max(c["mv"], 1) - 1
        must_labels(v.index, R.index[s:], "volatility times")
        if s < T:
            must_labels(v.columns, R.columns, "volatility assets")
        return
    out = call_iewma(R, c)
    s = max(c["mv"], 1) + max(c["mc"], 1) - 2
    must_labels([r.time for r in out], R.index[s:], "prediction times")
    # each is labelled with the time of the last observation it uses
    if out:
        k = c["seed"] % len(out)
        cut = s + k
        short = call_iewma(R.iloc[: cut + 1], c)
        if not short or short[-1].time != R.index[cut]:
            bad("prediction from the data up to its label is missing", label=R.index[cut])
        must_close(short[-1].covariance.values, out[k].covariance.values, "prediction uses observations after its label", 1e-9)
        if cut >= 1:
            R2 = R.copy()
            R2.iloc[cut] = R2.iloc[cut] * -2.5 + c["scale"]
            alt = [r for r in call_iewma(R2, c) if r.time == R.index[cut]]
            if c["c"] is None and alt and close(alt[0].volatility.values, out[k].volatility.values, 1e-9):
                bad("prediction does not use the observation it is labelled with", label=R.index[cut])


# ------------------------------------------------------------------ C04
MISS = (None, None, "some", "late", "rows", "zeros", "zeroasset", "asset", "early", "mixed", "zerolate", "holiday", "leadzero", "gap", "stop", "tail")


def gen_C04(rng, tier):
    c = base_case(rng, wide=True, Tmax=40, nmax=6, miss=MISS)
    c["T"] = max(c["T"], 3)
    c.update(iewma_params(rng, c["T"]))
    if c["mean"]:
        c["mv"], c["mc"] = max(c["mv"], 2), max(c["mc"], 2)
    return c


def run_C04(c):
    R = make_returns(c)
    for r in safe_iewma(R, c):
        S, v = r.covariance, r.volatility
        must_labels(S.index, R.columns, "row labels")
        must_labels(S.columns, R.columns, "column labels")
        must_labels(v.index, R.columns, "volatility labels")
        S, v = S.values, v.values
        good = ~np.isnan(np.diag(S))
        if not np.isfinite(v[good]).all():
            continue
        G = S[np.ix_(good, good)]
        vg = v[good]
        if np.isnan(G).any():
            bad("covariance missing between two assets with non-zero variance", time=r.time)
        must_close(np.diag(G), vg ** 2, "diagonal is not the squared volatility", 1e-9)
        if (vg > 0).all() and len(vg):
            C = G / np.outer(vg, vg)
            if np.abs(C - C.T).max() > 1e-10:
                bad("covariance not symmetric", time=r.time)
            if np.abs(C).max() > 1 + 1e-9:
                bad("correlation outside [-1, 1]", time=r.time)
            if np.linalg.eigvalsh((C + C.T) / 2).min() < -1e-9:
                bad("covariance not positive semidefinite", time=r.time)
        # an asset with non-zero correlation-stage variance must have a covariance
    if c["miss"] is None and c["dist"] != "int" and not c["mean"]:
        for r in call_iewma(R, c):
            if np.isnan(np.diag(r.covariance.values)).any() and (np.abs(R.loc[: r.time].values) > 0).all():
                bad("missing variance for an asset with non-zero variance", time=r.time)


def safe_iewma(R, c):
    """call with warm-ups that can be met: when no adjusted row exists there is nothing to say here"""
    return call_iewma(R, c)


# ------------------------------------------------------------------ C05
def gen_C05(rng, tier):
    c = base_case(rng, wide=True, Tmax=40, nmax=5)
    c["T"] = max(c["T"], 3)
    c.update(iewma_params(rng, c["T"]))
    if c["mean"]:
        c["mv"], c["mc"] = max(c["mv"], 2), max(c["mc"], 2)
        if c["dist"] == "int":
            c["dist"] = "normal"
    return c


def run_C05(c):
    R = make_returns(c)
    X = np.abs(R.values)
    spec = spec_iewma(R, c["hv"], c["hc"], c["mv"], c["mc"], c["mean"], c["h1"], c["h2"], c["c"])
    out = call_iewma(R, c)
    for r in out:
        if r.time not in spec:
            continue
        mu, S, v, ok = spec[r.time]
        if not (v > 1e-7 * c["scale"]).all():
            break
        must_close(r.volatility.values, v, f"volatility at {r.time}", 1e-8)
        ix = np.ix_(ok, ok)   # assets whose second-stage variance is not (numerically) zero
        must_close(r.covariance.values[ix], S[ix], f"covariance at {r.time}", 1e-7)
        must_labels(r.mean.index, R.columns, "mean labels")
        must_close(r.mean.values, mu, f"mean at {r.time}", 1e-8, 1e-10 * X.max())
    if len(spec) and not out:
        bad("no predictions")


# ------------------------------------------------------------------ C06
def gen_C06(rng, tier):
    c = base_case(rng, wide=True, Tmax=35, nmax=4, miss=MISS)
    c["T"] = max(c["T"], 4)
    c.update(iewma_params(rng, c["T"]))
    c.update(what=pick(rng, ["iewma", "iewma", "vol", "center"]), cut=int(rng.integers(1, c["T"])),
             edit=pick(rng, ["truncate", "replace", "nan", "scale", "extend"]))
    if c["mean"]:
        c["mv"], c["mc"] = max(c["mv"], 2), max(c["mc"], 2)
    return c


def run_C06(c):
    R = make_returns(c)
    cut = c["cut"]
    R2 = R.copy()
    g = np.random.default_rng([c["seed"], 5])
    if c["edit"] == "truncate" or c["edit"] == "extend":
        R2 = R.iloc[:cut]
    elif c["edit"] == "replace":
        R2.iloc[cut:] = g.normal(size=R2.iloc[cut:].shape) * 3 * c["scale"]
    elif c["edit"] == "nan":
        R2.iloc[cut:] = np.nan
    else:
        R2.iloc[cut:] = R2.iloc[cut:] * 7
    last = R.index[cut - 1]
    pos = {t: i for i, t in enumerate(R.index)}
    if c["what"] == "vol":
        a = E.volatility(R, c["hv"], c["mv"], c["c"])
        b = E.volatility(R2, c["hv"], c["mv"], c["c"])
        a, b = a[[pos[t] < cut for t in a.index]], b[[pos[t] < cut for t in b.index]]
        if not len(a) and not len(b):
            return
        must_labels(b.index, a.index, "times up to the cut")
        must_close(b.values, a.values, "volatility changed by later returns", 1e-12)
    elif c["what"] == "center":
        for a, b in zip(E.center(R, c["hv"], c["mv"], True), E.center(R2, c["hv"], c["mv"], True)):
            a, b = a[[pos[t] < cut for t in a.index]], b[[pos[t] < cut for t in b.index]]
            if not len(a) and not len(b):
                continue
            must_labels(b.index, a.index, "times up to the cut")
            must_close(b.values, a.values, "centred returns or means changed by later returns", 1e-12)
    else:
        a = [r for r in safe_iewma(R, c) if pos[r.time] < cut]
        b = [r for r in safe_iewma(R2, c) if pos[r.time] < cut]
        must_labels([r.time for r in b], [r.time for r in a], "prediction times up to the cut")
        for x, y in zip(a, b):
            must_close(y.covariance.values, x.covariance.values, f"covariance at {x.time} changed by returns after {last}", 1e-12)
            must_close(y.mean.values, x.mean.values, f"mean at {x.time} changed by returns after {last}", 1e-12)
            must_close(y.volatility.values, x.volatility.values, f"volatility at {x.time} changed by returns after {last}", 1e-12)


# ------------------------------------------------------------------ C07
def gen_C07(rng, tier):
    c = base_case(rng, wide=True, Tmax=35, nmax=5, miss=("some", "late", "rows", "early", "mixed", "asset", "gap", "gap", "tail", "leadzero"))
    c["T"] = max(c["T"], 4)
    c.update(iewma_params(rng, c["T"]))
    c.update(what=pick(rng, ["fill", "contain"]))
    if c["mean"]:
        c["mv"], c["mc"] = max(c["mv"], 2), max(c["mc"], 2)
    if c["what"] == "contain":
        c["n"] = max(c["n"], 2)
        c["miss"] = None
        c["start"] = int(rng.integers(1, c["T"] + 1))
        c["how"] = pick(rng, ["nan", "zero", "mixed"])
    return c


def same_results(a, b, what, cols=None):
    must_labels([r.time for r in b], [r.time for r in a], what + ": times")
    for x, y in zip(a, b):
        for f in ("mean", "volatility", "covariance"):
            u, v = getattr(x, f), getattr(y, f)
            if cols is not None:
                u, v = u.loc[cols], v.loc[cols]
                if f == "covariance":
                    u, v = u[cols], v[cols]
            must_labels(v.index, u.index, f"{what}: {f} labels")
            must_close(v.values, u.values, f"{what}: {f} at {x.time}", 1e-11)


def run_C07(c):
    R = make_returns(c)
    if c["what"] == "fill":
        same_results(safe_iewma(R.fillna(0.0), c), safe_iewma(R, c), "missing returns replaced by zero")
        return
    # one asset missing or zero up to `start`: nothing else changes, its own row and column are missing
    j = c["seed"] % c["n"]
    st = c["start"]
    R2 = R.copy()
    if c["how"] == "nan":
        R2.iloc[:st, j] = np.nan
    elif c["how"] == "zero":
        R2.iloc[:st, j] = 0.0
    else:
        R2.iloc[:st, j] = 0.0
        R2.iloc[: st // 2, j] = np.nan
    others = [x for k, x in enumerate(R.columns) if k != j]
    # the warm-up counts from the first time any asset has a nonzero volatility: compare where the others have one from the start
    early = R[others].fillna(0.0).iloc[:max(c["mv"], 1)]
    if (early == early.iloc[0]).all().all() and (c["mean"] or (early == 0).all().all()):
        return
    a, b = call_iewma(R, c), call_iewma(R2, c)
    same_results(a, b, f"asset {R.columns[j]} without data", others)
    alone = call_iewma(R[others], c)
    same_results(alone, [r._replace(mean=r.mean[others], volatility=r.volatility[others], covariance=r.covariance.loc[others, others]) for r in b],
                 "as without the asset")
    for r in b:
        if R.index.get_loc(r.time) < st:
            row = r.covariance.values
            if not (np.isnan(row[j]).all() and np.isnan(row[:, j]).all()):
                bad("covariances of an asset without data are not missing", time=r.time)


# ------------------------------------------------------------------ C08
def gen_C08(rng, tier):
    c = base_case(rng, wide=True, Tmax=35, nmax=5, miss=(None, None, "some", "late", "zeros", "holiday", "gap"))
    c["T"] = max(c["T"], 4)
    c.update(iewma_params(rng, c["T"]))
    c.update(what=pick(rng, ["scale", "perm"]), k=float(pick(rng, [2.0 ** -13, 2.0 ** -7, 0.5, 2.0, 128.0, 8192.0])), fn=pick(rng, ["vol", "iewma", "iewma"]))
    if c["mean"]:
        c["mv"], c["mc"] = max(c["mv"], 2), max(c["mc"], 2)
    if c["what"] == "perm":
        c["n"] = max(c["n"], 2)
    return c


def run_C08(c):
    R = make_returns(c)
    n = c["n"]
    if c["what"] == "scale":
        j = c["seed"] % n
        f = np.ones(n)
        f[j] = c["k"]
        if c["seed"] % 5 == 0:
            f[:] = c["k"]
        R2 = R * f
        if c["fn"] == "vol":
            a, b = E.volatility(R.fillna(0.0), c["hv"], c["mv"], c["c"]), E.volatility(R2.fillna(0.0), c["hv"], c["mv"], c["c"])
            if len(a) or len(b):
                frame_eq(b, a * f, "volatility after rescaling an asset", 1e-9)
            return
        a, b = safe_iewma(R, c), safe_iewma(R2, c)
        must_labels([r.time for r in b], [r.time for r in a], "times after rescaling")
        sc = np.nanmax(np.abs(R.values)) if np.isfinite(R.values).any() else 1.0
        for x, y in zip(a, b):
            must_close(y.volatility.values / f, x.volatility.values, f"volatility at {x.time} after rescaling", 1e-8)
            must_close(y.mean.values / f, x.mean.values, f"mean at {x.time} after rescaling", 1e-8, 1e-10 * sc)
            must_close(y.covariance.values / np.outer(f, f), x.covariance.values, f"covariance at {x.time} after rescaling", 1e-7)
        return
    p = np.random.default_rng([c["seed"], 9]).permutation(n)
    cols = [R.columns[i] for i in p]
    R2 = R[cols]
    if c["fn"] == "vol":
        a, b = E.volatility(R.fillna(0.0), c["hv"], c["mv"], c["c"]), E.volatility(R2.fillna(0.0), c["hv"], c["mv"], c["c"])
        if len(a) or len(b):
            frame_eq(b, a[cols], "volatility after reordering", 1e-11)
        return
    a, b = safe_iewma(R, c), safe_iewma(R2, c)
    must_labels([r.time for r in b], [r.time for r in a], "times after reordering")
    for x, y in zip(a, b):
        must_labels(y.covariance.columns, cols, "labels after reordering")
        must_close(y.volatility.values, x.volatility[cols].values, f"volatility at {x.time} after reordering", 1e-11)
        must_close(y.mean.values, x.mean.loc[cols].values, f"mean at {x.time} after reordering", 1e-11)
        must_close(y.covariance.values, x.covariance.loc[cols, cols].values, f"covariance at {x.time} after reordering", 1e-10)
