"""further behaviour-preserving edits (regularisation and evaluation)"""
RG = "cvx/covariance/regularization.py"
EX = "experiments/utils/experiment_utils.py"
EDITS = {
 "rg_full": [(RG, """    # ascending order of the largest r eigenvalues
    lamda, Q = sc.linalg.eigh(a=R, subset_by_index=[n - r, n - 1])

    # Sort eigenvalues in descending order
    lamda = lamda[::-1]

    # reshuffle the eigenvectors accordingly
    Q = Q[:, ::-1]
""", """    # all eigenvalues in ascending order
    lamda, Q = np.linalg.eigh(R)

    # keep the r largest, in descending order
    lamda = lamda[n - r:][::-1]
    Q = Q[:, n - r:][:, ::-1]
""")],
 "rg_scale": [(RG, "    R_lo = Q @ np.diag(lamda) @ Q.T\n", "    R_lo = (Q * lamda) @ Q.T\n")],
 "rg_diag": [(RG, "    D = np.diag(np.diag(R - R_lo))\n", "    D = np.diag(np.diag(R) - np.diag(R_lo))\n")],
 "rg_outer": [(RG, "        R = (1 / vola) * sigma * (1 / vola).T\n        R = _regularize_correlation(R, r)\n",
               "        R = sigma / (vola @ vola.T)\n        R = _regularize_correlation(R.values, r)\n")],
 "rg_cov": [(RG, "            cov = vola.reshape(-1, 1) * R.Approximation * vola.reshape(1, -1)\n            yield time, pd.DataFrame(cov, index=sigma.columns, columns=sigma.columns)\n",
             "            cov = vola * np.asarray(R.Approximation) * vola.T\n            assets = sigma.columns\n            yield time, pd.DataFrame(data=cov, columns=assets, index=assets)\n")],
 "rg_helper": [(RG, "            F = vola.reshape(-1, 1) * R.Loading * np.sqrt(np.maximum(R.Lambda, 0))\n            d = np.diag(vola.reshape(-1, 1) * R.D * vola.reshape(1, -1))\n            yield (\n                time,\n                LowRankDiag(\n                    F=pd.DataFrame(F, index=sigma.columns),\n                    d=pd.Series(d, index=sigma.columns),\n                ),\n            )\n",
                "            yield time, _low_rank(vola, R, sigma.columns)\n"),
               (RG, "def regularize_covariance(sigmas, r, low_rank_format=False):\n",
                "def _low_rank(vola, R, assets):\n    F = vola * R.Loading * np.sqrt(np.clip(R.Lambda, 0, None))\n    d = vola.flatten() ** 2 * np.diag(R.D)\n    return LowRankDiag(F=pd.DataFrame(F, index=assets), d=pd.Series(d, index=assets))\n\n\ndef regularize_covariance(sigmas, r, low_rank_format=False):\n")],
 "rg_if": [(RG, "        if not low_rank_format:\n            cov = vola", "        if low_rank_format is False or not low_rank_format:\n            cov = vola")],
 "rg_loop": [(RG, "    for time, sigma in sigmas.items():\n        vola = np.sqrt(np.diag(sigma)).reshape(-1, 1)\n", "    for time in sigmas:\n        sigma = sigmas[time]\n        vola = np.sqrt(np.diag(sigma))[:, np.newaxis]\n")],
 "em_inv": [(RG, "    G = np.linalg.inv((F.T * (1 / d.values.reshape(1, -1))) @ F + np.eye(F.shape[1]))\n    L = G @ F.T * (1 / d.values.reshape(1, -1))\n",
             "    d_inv = (1 / d.values).reshape(1, -1)\n    FtD = F.T * d_inv\n    k = F.shape[1]\n    G = np.linalg.inv(np.eye(k) + FtD @ F)\n    L = G @ FtD\n")],
 "em_css": [(RG, "    Cxs = Sigma @ L.T\n    Css = L @ (Sigma @ L.T) + G\n", "    Cxs = Sigma @ L.T\n    Css = G + L @ Cxs\n")],
 "em_solve": [(RG, "    F = Cxs @ np.linalg.inv(Css)\n    # d", "    F = Cxs @ np.linalg.inv(np.asarray(Css))\n    # d")],
 "em_d": [(RG, "    d = np.diag(Cxx) - 2 * np.sum(Cxs * F, axis=1) + np.sum(F * (F @ Css), axis=1)\n",
           "    cross = np.sum(Cxs * F, axis=1)\n    quad = np.sum((F @ Css) * F, axis=1)\n    d = np.diag(Cxx) - cross - cross + quad\n")],
 "em_d2": [(RG, "    d = np.diag(Cxx) - 2 * np.sum(Cxs * F, axis=1) + np.sum(F * (F @ Css), axis=1)\n", "    d = np.diag(Cxx - 2 * Cxs @ F.T + F @ Css @ F.T)\n")],
 "em_loop": [(RG, "    for _ in range(5):\n        Cxx, Cxs, Css = _e_step(sigma, F, d)\n        F, d = _m_step(Cxx, Cxs, Css)\n",
              "    step = 0\n    while step < 5:\n        F, d = _m_step(*_e_step(sigma, F, d))\n        step += 1\n")],
 "em_const": [(RG, "    for _ in range(5):\n", "    steps = 5\n    for _ in range(steps):\n")],
 "ll_quad": [(EX, "    Sigma_inv = np.linalg.inv(Sigma)\n    sign, logdet = np.linalg.slogdet(Sigma)\n    return (\n        -n / 2 * np.log(2 * np.pi)\n        - 1 / 2 * (np.log(sign) + logdet)\n        - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)\n    )\n",
              "    dev = r - m\n    sign, logdet = np.linalg.slogdet(Sigma)\n    quad = dev.T @ np.linalg.solve(Sigma, dev)\n    return -0.5 * (n * np.log(2 * np.pi) + np.log(sign) + logdet + quad)\n")],
 "ll_skip": [(EX, "        if not returns.loc[time].isna().iloc[0]:\n            if means is not None:\n                m = means.loc[time].values.reshape(-1, 1)\n            ll.append(\n                _single_log_likelihood(\n                    returns.loc[time].values.reshape(-1, 1), cov.values, m\n                )\n            )\n            times.append(time)\n\n    return pd.Series(ll, index=times).astype(float)\n\n\ndef log_likelihood_regularized",
              "        row = returns.loc[time]\n        if row.isna().iloc[0]:\n            continue\n        if means is not None:\n            m = means.loc[time].values.reshape(-1, 1)\n        times.append(time)\n        ll.append(_single_log_likelihood(row.values.reshape(-1, 1), cov.values, m))\n\n    return pd.Series(ll, index=times).astype(float)\n\n\ndef log_likelihood_regularized")],
 "ll_iter": [(EX, """    if r is not None:
        for time, cov in regularize_covariance(Sigmas, r=r):
            if not returns.loc[time].isna().iloc[0]:
                if means is not None:
                    m = means.loc[time].values.reshape(-1, 1)
                ll.append(
                    _single_log_likelihood(
                        returns.loc[time].values.reshape(-1, 1), cov.values, m
                    )
                )
                times.append(time)
    else:
        for time, cov in Sigmas.items():
            if not returns.loc[time].isna().iloc[0]:
                if means is not None:
                    m = means.loc[time].values.reshape(-1, 1)
                ll.append(
                    _single_log_likelihood(
                        returns.loc[time].values.reshape(-1, 1), cov.values, m
                    )
                )
                times.append(time)
""", """    pairs = Sigmas.items() if r is None else regularize_covariance(Sigmas, r=r)
    for time, cov in pairs:
        if not returns.loc[time].isna().iloc[0]:
            if means is not None:
                m = means.loc[time].values.reshape(-1, 1)
            ll.append(
                _single_log_likelihood(
                    returns.loc[time].values.reshape(-1, 1), cov.values, m
                )
            )
            times.append(time)
""")],
 "ll_batch": [(EX, """    return (
        -n / 2 * np.log(2 * np.pi)
        - 1 / 2 * logdets
        - 1
        / 2
        * np.transpose(returns - means, axes=(0, 2, 1))
        @ Sigma_invs
        @ (returns - means)
    ).flatten()
""", """    deviations = returns - means
    quads = np.transpose(deviations, axes=(0, 2, 1)) @ Sigma_invs @ deviations

    return (-n / 2 * np.log(2 * np.pi) - logdets / 2 - quads / 2).flatten()
""")],
 "ll_einsum": [(EX, """    return (
        -n / 2 * np.log(2 * np.pi)
        - 1 / 2 * logdets
        - 1
        / 2
        * np.transpose(returns - means, axes=(0, 2, 1))
        @ Sigma_invs
        @ (returns - means)
    ).flatten()
""", """    dev = (returns - means).reshape(T, n)
    quads = np.einsum("ti,tij,tj->t", dev, Sigma_invs, dev)

    return -n / 2 * np.log(2 * np.pi) - 1 / 2 * logdets.flatten() - 1 / 2 * quads
""")],
 "ll_seq": [(EX, "        r = returns[t].reshape(n, 1)\n        m = means[t].reshape(n, 1)\n        Sigma = Sigmas[t]\n", "        r, m, Sigma = returns[t], means[t], Sigmas[t]\n")],
 "rw_update": [(EX, """        alpha_old = 1 / min(t, memory)
        alpha_new = 1 / min(t + 1, memory)

        if t >= memory:
            Sigmas[t] = alpha_new / alpha_old * Sigmas[t - 1] + alpha_new * (
                np.outer(returns[t], returns[t])
                - np.outer(returns[t - memory], returns[t - memory])
            )
        else:
            Sigmas[t] = alpha_new / alpha_old * Sigmas[t - 1] + alpha_new * (
                np.outer(returns[t], returns[t])
            )
""", """        old_size, new_size = min(t, memory), min(t + 1, memory)
        total = old_size * Sigmas[t - 1] + np.outer(returns[t], returns[t])
        if t >= memory:
            total = total - np.outer(returns[t - memory], returns[t - memory])
        Sigmas[t] = total / new_size
""")],
 "rw_direct": [(EX, """        alpha_old = 1 / min(t, memory)
        alpha_new = 1 / min(t + 1, memory)

        if t >= memory:
            Sigmas[t] = alpha_new / alpha_old * Sigmas[t - 1] + alpha_new * (
                np.outer(returns[t], returns[t])
                - np.outer(returns[t - memory], returns[t - memory])
            )
        else:
            Sigmas[t] = alpha_new / alpha_old * Sigmas[t - 1] + alpha_new * (
                np.outer(returns[t], returns[t])
            )
""", """        block = returns[max(0, t + 1 - memory) : t + 1]
        Sigmas[t] = block.T @ block / len(block)
""")],
 "rw_dict": [(EX, """    return {
        times[t]: pd.DataFrame(Sigmas[t], index=assets, columns=assets)
        for t in range(len(times))
    }
""", """    result = {}
    for time, Sigma in zip(times, Sigmas):
        result[time] = pd.DataFrame(Sigma, index=assets, columns=assets)
    return result
""")],
 "tri_idx": [(EX, """    upper_mask = np.triu(np.ones((n, n)), k=0).astype(bool)
    Sigma[upper_mask] = row

    # set lower triangular part
    lower_mask = np.tril(np.ones((n, n)), k=0).astype(bool)
    Sigma[lower_mask] = Sigma.T[lower_mask]
    return Sigma
""", """    Sigma[np.triu_indices(n)] = row

    # mirror it
    return Sigma + Sigma.T - np.diag(np.diag(Sigma))
""")],
 "tri_loop": [(EX, """    upper_mask = np.triu(np.ones((n, n)), k=0).astype(bool)
    Sigma[upper_mask] = row

    # set lower triangular part
    lower_mask = np.tril(np.ones((n, n)), k=0).astype(bool)
    Sigma[lower_mask] = Sigma.T[lower_mask]
    return Sigma
""", """    upper_mask = np.triu(np.ones((n, n), dtype=bool))
    Sigma[upper_mask] = row
    strictly_lower = np.tril(np.ones((n, n), dtype=bool), k=-1)
    Sigma[strictly_lower] = Sigma.T[strictly_lower]
    return Sigma
""")],
 "tri_comp": [(EX, """    Sigmas = []
    T = M.shape[0]
    for t in range(T):
        Sigmas.append(from_row_to_covariance(M[t], n))
    return np.array(Sigmas)
""", """    return np.array([from_row_to_covariance(row, n) for row in M])
""")],
 "tri_zeros": [(EX, """    Sigmas = []
    T = M.shape[0]
    for t in range(T):
        Sigmas.append(from_row_to_covariance(M[t], n))
    return np.array(Sigmas)
""", """    T = M.shape[0]
    Sigmas = np.zeros((T, n, n))
    for t in range(T):
        Sigmas[t] = from_row_to_covariance(M[t], n)
    return Sigmas
""")],
}
