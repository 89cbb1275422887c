"""behaviour-preserving edits of experiments/utils/iterated_ewma_vec.py"""
VE = "experiments/utils/iterated_ewma_vec.py"
EDITS = {
 "ve_beta": [(VE, "    beta = np.exp(-np.log(2) / halflife)\n    EWMAs = np.zeros_like(y, dtype=float)\n", "    beta = 0.5 ** (1 / halflife)\n    EWMAs = np.empty(y.shape)\n")],
 "ve_loop": [(VE, "    EWMAs[0] = y[0]\n    for t in range(1, y.shape[0]):\n        EWMAs[t] = get_next_ewma(\n            EWMAs[t - 1], y[t], t + 1, beta, clip_at, min_periods\n        )\n    return EWMAs\n",
              "    for t, row in enumerate(y):\n        EWMAs[t] = row if t == 0 else get_next_ewma(EWMAs[t - 1], row, t + 1, beta, clip_at, min_periods)\n    return EWMAs\n")],
 "ve_carry": [(VE, "    EWMAs[0] = y[0]\n    for t in range(1, y.shape[0]):\n        EWMAs[t] = get_next_ewma(\n            EWMAs[t - 1], y[t], t + 1, beta, clip_at, min_periods\n        )\n    return EWMAs\n",
              "    last = EWMAs[0] = y[0]\n    for t in range(1, len(y)):\n        last = get_next_ewma(last, y[t], t + 1, beta, clip_at, min_periods)\n        EWMAs[t] = last\n    return EWMAs\n")],
 "ve_outer": [(VE, "    returns = returns.reshape(T, n, 1)\n\n    return returns @ returns.transpose(0, 2, 1)\n", "    return returns[:, :, None] * returns[:, None, :]\n")],
 "ve_vars": [(VE, """    T, n = returns.shape
    volatilities = np.zeros((T, n))

    for t in range(returns.shape[0]):
        r_t = returns[t, :].reshape(
            -1,
        )
        volatilities[t] = r_t**2
        # sp.diags(diagonal_elements, 0)
    return volatilities
""", "    return returns**2\n")],
 "ve_corr": [(VE, "    outer_V = np.array([np.outer(v, v) for v in V])\n    return Sigmas / outer_V\n", "    return Sigmas / V[:, :, np.newaxis] / V[:, np.newaxis, :]\n")],
 "ve_engle": [(VE, "    Sigmas = np.transpose(D, axes=(0, 2, 1)) * R * D\n", "    Sigmas = D[:, 0, :, None] * R * D\n")],
 "ve_div": [(VE, "    D_inv = 1 / D\n    returns_adj = (returns.values - returns_mean) * D_inv\n", "    returns_adj = (returns.values - returns_mean) / D\n")],
 "ve_next": [(VE, """    old_weight = (beta - beta**t) / (1 - beta**t)
    new_weight = (1 - beta) / (1 - beta**t)
""", """    new_weight = (1 - beta) / (1 - beta**t)
    old_weight = 1 - new_weight
""")],
 "ve_next2": [(VE, "        if t >= min_periods + 2:\n            return old_weight * EWMA + new_weight * np.clip(\n                y_last, -clip_at * EWMA, clip_at * EWMA\n            )\n", "        if t >= min_periods + 2:\n            y_last = np.clip(y_last, -clip_at * EWMA, clip_at * EWMA)\n")],
 "ve_warm": [(VE, "    min_periods_vola = max(1, min_periods_vola)\n    min_periods_cov = max(1, min_periods_cov)\n\n    if mean:  # Need to remove one entry for each estimate\n        min_periods_vola = max(min_periods_vola, 2)\n        min_periods_cov = max(min_periods_cov, 2)\n",
              "    least = 2 if mean else 1\n    min_periods_vola = max(least, min_periods_vola)\n    min_periods_cov = max(least, min_periods_cov)\n\n    if mean:  # Need to remove one entry for each estimate\n")],
 "ve_zip": [(VE, """        return {
            times[i]: pd.DataFrame(
                Sigmas[i], index=returns.columns, columns=returns.columns
            )
            for i in range(len(times))
        }""", """        names = returns.columns
        return {
            time: pd.DataFrame(Sigma, index=names, columns=names)
            for time, Sigma in zip(times, Sigmas)
        }""")],
}
