"""behaviour-preserving edits of the code: every check has to stay quiet on them.
refactors.py NAME|all PID...   applies each edit to a scratch copy and runs the verifier on it (engine only)"""
import os, shutil, subprocess, sys, tempfile

EW = "cvx/covariance/ewma.py"
EDITS = {
 "decay_helper": [(EW, "        alpha = 1 - np.exp(-np.log(2) / halflife)\n\n    beta = 1 - alpha\n", "        alpha = 1 - _decay(halflife)\n\n    beta = 1 - alpha\n"),
                  (EW, "def _general(\n", "def _decay(halflife):\n    return np.exp(-np.log(2) / halflife)\n\n\ndef _general(\n")],
 "weight": [(EW, """        if clip_at and n >= min_periods + 1:
            _ewma = _ewma + (1 - beta) * (np.clip(next_val, -clip_at * _ewma, clip_at * _ewma) - _ewma) / (
                1 - np.power(beta, n + 1)
            )
        else:
            _ewma = _ewma + (1 - beta) * (next_val - _ewma) / (1 - np.power(beta, n + 1))
""", """        weight = (1 - beta) / (1 - beta ** (n + 1))
        if clip_at and n > min_periods:
            bound = clip_at * _ewma
            next_val = np.clip(next_val, -bound, bound)
        _ewma = (1 - weight) * _ewma + weight * next_val
""")],
 "range_loop": [(EW, "    for n, row in enumerate(y[1:], start=1):\n", "    for n in range(1, len(y)):\n        row = y[n]\n")],
 "corr_div": [(EW, """        one_inds = np.where(diag == 0)[0]
        if one_inds.size > 0:
            diag[one_inds] = 1  # temporarily, to avoid division by zero
        v = 1 / np.sqrt(diag).reshape(-1, 1)
        v[one_inds] = np.nan
        matrix = v * matrix * v.T

        cov = vola.reshape(-1, 1) * matrix * vola.reshape(1, -1)
""", """        sd = np.sqrt(np.where(diag == 0, np.nan, diag))
        cov = matrix / np.outer(sd, sd) * np.outer(vola, vola)
""")],
 "min_clip": [(EW, "        if clip_at and n >= min_periods + 1:\n", "        if clip_at is not None and not n < min_periods + 1:\n")],
 "inline_f": [(EW, """    def f(k):
        if k < min_periods - 1:
            return times[k], _ewma * np.nan

        return times[k], _ewma

""", ""), (EW, "    yield f(k=0)\n", "    yield times[0], (_ewma * np.nan if min_periods > 1 else _ewma)\n"),
      (EW, "        yield f(k=n)", "        if n >= min_periods - 1:\n            yield times[n], _ewma\n        else:\n            yield times[n], _ewma * np.nan")],
 "from_dict": [(EW, "    return pd.DataFrame(dict(generator)).transpose()\n", "    rows = {t: row for t, row in generator}\n    return pd.DataFrame(rows).T\n")],
 "square": [(EW, "        np.power(returns, 2),\n", "        returns * returns,\n")],
 "square2": [(EW, "        np.power(returns, 2),\n", "        returns**2,\n")],
 "adj_helper": [(EW, """    adj = clip((returns / vola), clip_at=clip_at)  # if vola is zero, adj is NaN
    adj = adj.fillna(0.0)
""", """    adj = _adjusted(returns, vola, clip_at)
"""), (EW, "def iterated_ewma(\n", """def _adjusted(returns, vola, clip_at):
    ratio = returns.div(vola)
    return clip(ratio, clip_at=clip_at).fillna(0.0)


def iterated_ewma(
""")],
 "mean_block": [(EW, """        if mean:
            m = scale_mean(vola=vola.loc[t].values, vec1=returns_mean.loc[t], vec2=adj_mean.loc[t])
        else:
            m = pd.Series(np.zeros_like(returns.shape[1]), index=returns.columns)
        yield IEWMA(
            time=t,
            mean=m,
            covariance=scale_cov(vola=vola.loc[t].values, matrix=matrix),
            volatility=vola.loc[t],
        )
""", """        sigma = vola.loc[t]
        cov = scale_cov(vola=sigma.values, matrix=matrix)
        if not mean:
            m = pd.Series(np.zeros(returns.shape[1]), index=returns.columns)
        else:
            m = returns_mean.loc[t] + sigma * adj_mean.loc[t]
        yield IEWMA(t, m, cov, sigma)
""")],
 "volatility_vars": [(EW, """    if clip_at:
        clip_at_var = clip_at**2
    else:
        clip_at_var = None

    return np.sqrt(_generator2frame(_variance(returns, halflife, min_periods=min_periods, clip_at=clip_at_var)))
""", """    clip_at_var = clip_at * clip_at if clip_at else None
    variances = _variance(returns, halflife, min_periods=min_periods, clip_at=clip_at_var)
    frame = _generator2frame(variances)
    return np.sqrt(frame)
""")],
 "fillna_always": [(EW, """        if returns.isna().any().any():
            returns = returns.fillna(0.0)
""", """        returns = returns.fillna(0.0)
""")],
 "num_den": [(EW, "    _ewma = fct(y[0])\n", "    _ewma = fct(y[0])\n    norm = 1 - beta\n"),
             (EW, "        next_val = fct(row)\n", "        next_val = fct(row)\n        norm = beta * norm + (1 - beta)\n"),
             (EW, "            _ewma = _ewma + (1 - beta) * (next_val - _ewma) / (1 - np.power(beta, n + 1))\n", "            _ewma = _ewma + (1 - beta) / norm * (next_val - _ewma)\n")],
 "isnan_any": [(EW, "        if not np.isnan(ewma).all():\n            yield t, pd.Series(index=data.columns, data=ewma)", "        if (~np.isnan(ewma)).any():\n            yield t, pd.Series(ewma, index=data.columns)")],
 "skip_continue": [(EW, "        if not np.isnan(ewma).all():\n            yield t, pd.Series(index=data.columns, data=ewma)", "        if np.isnan(ewma).all():\n            continue\n        yield t, pd.Series(index=data.columns, data=ewma)")],
}
import importlib
for _m in ("refactors_more", "refactors_vec", "refactors_exp", "refactors_lr", "refactors_reg", "refactors_port", "refactors_ccp", "refactors_rec", "refactors_pp", "refactors_tab"):
    try:
        EDITS.update(importlib.import_module(_m).EDITS)
    except ImportError:
        pass
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    names = list(EDITS) if sys.argv[1] == "all" else sys.argv[1].split(",")
    for n in names:
        d = tempfile.mkdtemp(dir="/tmp")
        try:
            for s in ("cvx", "experiments"):
                shutil.copytree("/repo/" + s, d + "/" + s, ignore=shutil.ignore_patterns("*.csv", "data", "__pycache__", "*.ipynb"))
            for f, a, b in EDITS[n]:
                t = open(f"{d}/{f}").read()
                assert t.count(a) == 1, (n, f, t.count(a))
                open(f"{d}/{f}", "w").write(t.replace(a, b))
            for p in sys.argv[2:]:
                r = subprocess.run(["python3-vt", "-c", "import sys; sys.path.insert(0, %r)\nfrom pyvc.driver import verify\nr = verify(%r)\nb=[o for o in r['obligations'] if o['status']!='discharged']\nprint(r['status'], len(r['obligations']), round(r['seconds']), [(o['status'], o['name'], str(o['detail'])[:140]) for o in b[:3]])" % (HERE, p)],
                                   env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
                print(n, p, r.stdout.strip()[:900] or r.stderr[-400:], flush=True)
        finally:
            shutil.rmtree(d)


main()
