"""Shared helpers of the CPython side: input generators and comparison helpers.

Runs under /opt/venv/bin/python and imports the real code from /repo.
"""
from __future__ import annotations

import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

pd.set_option("future.no_silent_downcasting", True)


class Bad(Exception):
    """the real code violates the property on this input"""


def bad(msg, **kw):
    raise Bad(msg + ("" if not kw else " " + ", ".join(f"{k}={v!r}" for k, v in kw.items())))


def close(a, b, rtol=1e-8, atol=0.0):
    """nan-aware comparison of arrays with a scale-aware absolute tolerance"""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return False
    if na.all():
        return True
    s = np.max(np.abs(np.where(nb | np.isinf(b), 0, b))) if b.size else 0.0
    with np.errstate(invalid="ignore"):
        d = np.abs(a - b)
        ok = (d <= rtol * np.maximum(np.abs(b), 1e-3 * s) + atol) | (a == b) | (na & nb)
    return bool(ok.all())


def must_close(a, b, what, rtol=1e-8, atol=0.0, **kw):
    if not close(a, b, rtol, atol):
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        bad(f"{what}: got {np.array2string(a, precision=8, threshold=20)} expected {np.array2string(b, precision=8, threshold=20)}", **kw)


def must_labels(got, want, what):
    if list(got) != list(want):
        bad(f"{what}: got {list(got)[:12]} expected {list(want)[:12]}")


# ------------------------------------------------------------------ guidance from the source
# Numeric literals of the current source that the pinned source does not have: thresholds in changed code. They only
# steer the choice of inputs (sizes and magnitudes around them are tried); they decide nothing.
def _literals(path):
    import ast
    from collections import Counter
    out = Counter()
    try:
        tree = ast.parse(open(path).read())
    except (OSError, SyntaxError):
        return out
    for x in ast.walk(tree):
        if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
            out[repr(float(x.value))] += 1
    return out


SOURCES = [f"cvx/covariance/{f}.py" for f in ("ewma", "combination", "regularization")] + \
    [f"experiments/utils/{f}.py" for f in ("ccp_regularize", "experiment_utils", "factor_model", "iterated_ewma_vec", "low_rank_ewma",
                                           "portfolio_backtests", "return_combination", "trading_model")]


def literals():
    return {f: dict(_literals(os.path.join(REPO, f))) for f in SOURCES}


def _hints():
    import json
    try:
        base = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.json")))
    except OSError:
        return []
    out = set()
    for f, now in literals().items():
        for k, n in now.items():
            if n > base.get(f, {}).get(k, 0) and abs(float(k)) not in (0.0, 1.0):
                out.add(abs(float(k)))
    return sorted(out)


HINTS = _hints()


def hint_size(rng, lo, hi):
    """a size around a threshold of the source, or None"""
    hs = [h for h in HINTS if h == int(h) and lo <= h + 1 <= hi]
    if not hs:
        return None
    return int(max(lo, min(hi, pick(rng, hs) + pick(rng, [-1, 0, 1, 1, 2, 3, 8]))))


def hint_scale(rng):
    """a magnitude around a threshold of the source, or None"""
    hs = [h for h in HINTS if 1e-14 <= h <= 1e6]
    if not hs:
        return None
    return float(pick(rng, hs) ** pick(rng, [1.0, 0.5, 0.5, 0.25]) * 10.0 ** pick(rng, [-2.5, -1.0, -0.3, 0.0, 0.3, 1.0]))


INDEX_KINDS = ["date", "bday", "gaps", "int", "int5", "str", "float"]
COL_KINDS = ["abc", "rev", "int", "intrev", "mixed"]


def make_index(kind, T, rng=None):
    if kind == "date":
        return pd.date_range("2020-01-01", periods=T)
    if kind == "bday":
        return pd.bdate_range("2019-12-30", periods=T)
    if kind == "gaps":
        g = np.cumsum(np.array([1 + (7 * i * i) % 5 for i in range(T)]))
        return pd.DatetimeIndex([pd.Timestamp("2021-03-01") + pd.Timedelta(days=int(x)) for x in g])
    if kind == "int":
        return pd.RangeIndex(T)
    if kind == "int5":
        return pd.Index([5 + 3 * i for i in range(T)])
    if kind == "str":
        return pd.Index([f"t{i:04d}" for i in range(T)])
    if kind == "float":
        return pd.Index([0.5 * i - 1.0 for i in range(T)])
    raise ValueError(kind)


def make_cols(kind, n):
    if kind == "abc":
        return [chr(97 + i) if i < 26 else f"z{i}" for i in range(n)]
    if kind == "rev":
        return [chr(122 - i) if i < 26 else f"A{i}" for i in range(n)]
    if kind == "int":
        return list(range(n))
    if kind == "intrev":
        return [10 * (n - i) for i in range(n)]
    if kind == "mixed":
        return [f"x{(i * 7 + 3) % (n + 5)}_{i}" for i in range(n)]
    raise ValueError(kind)


def make_returns(c):
    """returns table of a case: keys T, n, seed, dist, scale, index, cols, miss"""
    if "data" in c:      # an explicit input (from a failed obligation)
        X = np.array([[np.nan if x is None else float(x) for x in row] for row in c["data"]], dtype=float)
        c["T"], c["n"] = X.shape
        c.setdefault("scale", 1.0)
        return pd.DataFrame(X, index=make_index(c.get("index", "date"), X.shape[0]), columns=make_cols(c.get("cols", "abc"), X.shape[1]))
    rng = np.random.default_rng([int(c["seed"]), 17])
    T, n = c["T"], c["n"]
    dist = c.get("dist", "normal")
    if dist == "normal":
        X = rng.normal(size=(T, n))
    elif dist == "t":
        X = rng.standard_t(2.5, size=(T, n))
    elif dist == "corr":
        X = rng.normal(size=(T, n)) * 0.6 + rng.normal(size=(T, 1))
    elif dist == "shift":
        X = rng.normal(size=(T, n)) * (1 + 2 * (np.arange(T) > T // 2))[:, None] + 0.3
    elif dist == "int":
        X = rng.integers(1, 9, size=(T, n)).astype(float) * rng.choice([-1.0, 1.0], size=(T, n))
    elif dist == "spike":
        X = rng.normal(size=(T, n))
        X[rng.integers(0, T, size=max(1, T // 5)), rng.integers(0, n, size=max(1, T // 5))] *= 40
    elif dist == "twin":     # one asset the exact negative (or a multiple) of another
        X = rng.normal(size=(T, n))
        if n > 1:
            X[:, -1] = X[:, 0] * rng.choice([-1.0, 1.0, -0.5, 2.0])
    elif dist == "hetero":
        X = rng.normal(size=(T, n)) * 10.0 ** (np.arange(n) % 5 - 2)
    else:
        raise ValueError(dist)
    X = X * c.get("scale", 1.0)
    miss = c.get("miss")
    if miss == "some":
        X[rng.random(size=X.shape) < 0.15] = np.nan
    elif miss == "late":     # assets starting late
        for j in range(n):
            if j % 2 == 1 or n == 1:
                X[: rng.integers(1, max(2, T // 2)), j] = np.nan
    elif miss == "holiday":  # all returns of some times are zero
        X[1:][rng.random(size=T - 1) < 0.2, :] = 0.0
    elif miss == "leadzero":
        X[: rng.integers(1, max(2, T // 3)), :] = 0.0
    elif miss == "gap":      # one asset missing for a while
        a = int(rng.integers(0, T))
        X[a: a + int(rng.integers(1, 5)), rng.integers(0, n)] = np.nan
    elif miss == "stop":     # an asset that stops moving
        X[int(rng.integers(1, max(2, T // 3))):, rng.integers(0, n)] = 0.0
    elif miss == "tail":     # the last observation of an asset is missing
        X[-1, rng.integers(0, n)] = np.nan
    elif miss == "rows":     # whole rows missing
        X[rng.random(size=T) < 0.2, :] = np.nan
    elif miss == "asset":
        X[:, rng.integers(0, n)] = np.nan
    elif miss == "early":    # assets ending early
        X[T // 2:, rng.integers(0, n)] = np.nan
    elif miss == "zeros":
        X[rng.random(size=X.shape) < 0.25] = 0.0
    elif miss == "zeroasset":
        X[:, rng.integers(0, n)] = 0.0
    elif miss == "zerolate":
        X[: T // 2, rng.integers(0, n)] = 0.0
    elif miss == "mixed":
        X[rng.random(size=X.shape) < 0.1] = np.nan
        X[rng.random(size=X.shape) < 0.1] = 0.0
        X[:, rng.integers(0, n)][: T // 3] = np.nan
    return pd.DataFrame(X, index=make_index(c.get("index", "date"), T), columns=make_cols(c.get("cols", "abc"), n))


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def base_case(rng, Tmax=40, nmax=5, Tmin=1, nmin=1, miss=(None,), wide=False):
    c = dict(
        seed=int(rng.integers(0, 2 ** 31)),
        T=int(rng.integers(Tmin, Tmax + 1)),
        n=int(rng.integers(nmin, nmax + 1)),
        dist=pick(rng, ["normal", "normal", "t", "corr", "shift", "int", "spike", "hetero"]),
        scale=float(pick(rng, [1.0, 0.01, 1e-4, 100.0])),
        index=pick(rng, INDEX_KINDS),
        cols=pick(rng, COL_KINDS),
        miss=pick(rng, list(miss)),
    )
    if wide and rng.random() < 0.04:
        c["T"] = int(rng.integers(Tmax, 320))
    if wide and rng.random() < 0.1:
        c["scale"] = float(pick(rng, [1e-7, 1e-5, 1e4]))
    if wide and rng.random() < 0.05:
        c["dist"] = "twin"
    if HINTS and rng.random() < 0.6:
        k = int(rng.integers(0, 3))
        if k == 0:
            c["T"] = hint_size(rng, Tmin, 700 if wide else 60) or c["T"]
        elif k == 1:
            c["n"] = hint_size(rng, nmin, 60 if wide else 12) or c["n"]
        else:
            c["scale"] = hint_scale(rng) or c["scale"]
    return c


def halflife(rng):
    if HINTS and rng.random() < 0.15:
        h = pick(rng, HINTS)
        if 0.1 <= h <= 1e5:
            return float(h * pick(rng, [0.9, 1.0, 1.1]))
    return float(pick(rng, [0.5, 1, 2, 3.7, 5, 10, 21, 63, 250, 1e4]))


def ew_weights(k, h):
    """weights of observations 0..k (ages k..0), halving every h steps, summing to one"""
    w = np.exp2(-np.arange(k, -1, -1) / h)
    return w / w.sum()


def ew_avg(Y, h):
    """rows k: weighted average of Y[0..k]"""
    out = np.empty_like(np.asarray(Y, dtype=float))
    for k in range(len(Y)):
        w = ew_weights(k, h)
        out[k] = np.tensordot(w, Y[: k + 1], axes=(0, 0))
    return out


def wins_avg(Y, h, mp, c2):
    """winsorised recursion on squared values: next value limited to c2 * previous average"""
    out = np.empty_like(np.asarray(Y, dtype=float))
    out[0] = Y[0]
    b = 0.5 ** (1 / h)
    for k in range(1, len(Y)):
        y = Y[k]
        if c2 and k + 1 > mp + 1:
            y = np.where(y > c2 * out[k - 1], c2 * out[k - 1], y)
        wn = (1 - b) / (1 - b ** (k + 1))
        out[k] = (1 - wn) * out[k - 1] + wn * y
    return out


def frame_eq(a, b, what, rtol=1e-8, atol=0.0):
    must_labels(a.index, b.index, what + " index")
    if hasattr(b, "columns"):
        must_labels(a.columns, b.columns, what + " columns")
    must_close(a.values, b.values, what, rtol, atol)
