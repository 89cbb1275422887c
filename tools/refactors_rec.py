"""behaviour-preserving edits of the realized covariances"""
EU = "experiments/utils/experiment_utils.py"
VEC = "experiments/utils/iterated_ewma_vec.py"
RC = "        returns_temp = returns.loc[[time]]\n        T_temp = len(returns_temp)\n\n        yield time, returns_temp.cov(ddof=0) * T_temp\n"
ALL = "    for time in returns.index.unique():\n" + RC
RV = "        yield time, np.sqrt((returns.loc[[time]] ** 2).sum(axis=0))\n"
EW = "    realized_covariances = dict(_realized_covariance(returns))\n"
EDITS = {
 "rec_shape": [(EU, RC, "        records = returns.loc[[time]]\n        yield time, records.shape[0] * records.cov(ddof=0)\n")],
 "rec_mask": [(EU, "        returns_temp = returns.loc[[time]]\n", "        returns_temp = returns[returns.index == time]\n")],
 "rec_groupby": [(EU, ALL, "    for time, returns_temp in returns.groupby(level=0, sort=False):\n        yield time, returns_temp.cov(ddof=0) * len(returns_temp)\n")],
 "rec_demean": [(EU, RC, "        returns_temp = returns.loc[[time]]\n        dev = returns_temp - returns_temp.mean()\n        yield time, dev.T @ dev\n")],
 "rec_outer": [(EU, RC, "        returns_temp = returns.loc[[time]]\n        n = len(returns_temp)\n        mean = returns_temp.mean(axis=0)\n        second = returns_temp.T @ returns_temp\n        yield time, second - n * pd.DataFrame(np.outer(mean, mean), index=mean.index, columns=mean.index)\n")],
 "rec_values": [(EU, RC, "        x = returns.loc[[time]].values\n        x = x - x.mean(axis=0)\n        yield time, pd.DataFrame(x.T @ x, index=returns.columns, columns=returns.columns)\n")],
 "rec_helper": [(EU, ALL, "    for time in returns.index.unique():\n        yield time, _scatter(returns.loc[[time]])\n"), (EU, "def realized_ewma(", "def _scatter(records):\n    return records.cov(ddof=0) * len(records)\n\n\ndef realized_ewma(")],
 "rec_comprehension": [(EU, EW, "    realized_covariances = {time: cov for time, cov in _realized_covariance(returns)}\n")],
 "rec_dict_loop": [(EU, EW, "    realized_covariances = {}\n    for time, cov in _realized_covariance(returns):\n        realized_covariances[time] = cov\n")],
 "rec_expression": [(EU, ALL, "    times = returns.index.unique()\n    return ((time, returns.loc[[time]].cov(ddof=0) * len(returns.loc[[time]])) for time in times)\n")],
 "rec_vola_pow": [(EU, RV, "        records = returns.loc[[time]]\n        yield time, records.pow(2).sum().pow(0.5)\n")],
 "rec_vola_norm": [(EU, RV, "        records = returns.loc[[time]]\n        yield time, pd.Series(np.linalg.norm(records.values, axis=0), index=records.columns)\n")],
 "rec_vola_square": [(EU, RV, "        yield time, np.square(returns.loc[[time]]).sum() ** 0.5\n")],
 "rec_vola_first": [(EU, "    for time in returns.index.unique():\n" + RV, "    squares = returns**2\n    for time in squares.index.unique():\n        yield time, np.sqrt(squares.loc[[time]].sum(axis=0))\n")],
 "rec_vola_groupby": [(EU, "    for time in returns.index.unique():\n" + RV, "    for time, records in (returns**2).groupby(level=0, sort=False):\n        yield time, np.sqrt(records.sum(axis=0))\n")],
 "rec_drop_dup": [(EU, "    for time in returns.index.unique():\n        returns_temp", "    for time in returns.index.drop_duplicates():\n        returns_temp")],
 "rec_ewma_iter": [(VEC, "    EWMA_old = list(y.values())[0]\n    for t, time in enumerate(y.keys()):\n        if t == 0:\n            continue\n", "    items = list(y.items())\n    EWMA_old = items[0][1]\n    for t, time in enumerate(y):\n        if t < 1:\n            continue\n")],
 "rec_ewma_next": [(VEC, "    EWMA_old = list(y.values())[0]\n", "    EWMA_old = next(iter(y.values()))\n")],
 "rec_ewma_none": [(VEC, "    EWMA_old = list(y.values())[0]\n    for t, time in enumerate(y.keys()):\n        if t == 0:\n            continue\n", "    EWMA_old = None\n    for t, time in enumerate(y.keys()):\n        if t == 0:\n            EWMA_old = y[time]\n            continue\n")],
 "rec_ewma_items": [(VEC, "    for t, time in enumerate(y.keys()):\n        if t == 0:\n            continue\n", "    for t, (time, value) in enumerate(y.items()):\n        if t == 0:\n            continue\n"), (VEC, "EWMA_old = get_next_ewma(EWMA_old, y[time], t + 1, beta, clip_at, min_periods)\n\n        yield", "EWMA_old = get_next_ewma(EWMA_old, value, t + 1, beta, clip_at, min_periods)\n\n        yield")],
 "rec_ewma_skip": [(VEC, "    for t, time in enumerate(y.keys()):\n        if t == 0:\n            continue\n", "    for t, time in enumerate(list(y.keys())[1:], start=1):\n")],
 "rec_ewma_beta": [(VEC, "    beta = np.exp(-np.log(2) / halflife)\n    # EWMAs = np", "    beta = 0.5 ** (1 / halflife)\n    # EWMAs = np")],
}
