"""behaviour-preserving edits of experiments/utils/low_rank_ewma.py"""
LR = "experiments/utils/low_rank_ewma.py"
EDITS = {
 "lr_rename": [(LR, "for n, row in enumerate(y[1:], start=1):", "for k, row in enumerate(y[1:], start=1):"), (LR, "        coef_old = (beta - beta ** (n + 1)) / (1 - beta ** (n + 1))\n        coef_new = (1 - beta) / (1 - beta ** (n + 1))\n", "        age = k + 1\n        coef_old = (beta - beta**age) / (1 - beta**age)\n        coef_new = (1 - beta) / (1 - beta**age)\n"), (LR, "yield f(k=n)", "yield f(k)")],
 "lr_range": [(LR, "    for n, row in enumerate(y[1:], start=1):\n", "    for n in range(1, len(y)):\n        row = y[n]\n")],
 "lr_inline": [(LR, "        F_scaled = _low_rank.F * np.sqrt(coef_old)\n        d_scaled = _low_rank.d * coef_old\n        r_scaled = row * np.sqrt(coef_new)\n\n        _low_rank = _low_rank_sum(F_scaled, d_scaled, r_scaled)\n",
                "        _low_rank = _low_rank_sum(\n            d=coef_old * _low_rank.d, F=np.sqrt(coef_old) * _low_rank.F, r=np.sqrt(coef_new) * row\n        )\n")],
 "lr_helper": [(LR, "        coef_old = (beta - beta ** (n + 1)) / (1 - beta ** (n + 1))\n        coef_new = (1 - beta) / (1 - beta ** (n + 1))\n", "        coef_old, coef_new = _coefficients(beta, n)\n"),
               (LR, "def _general_low_rank(", "def _coefficients(beta, n):\n    total = 1 - beta ** (n + 1)\n    new = (1 - beta) / total\n    return 1 - new, new\n\n\ndef _general_low_rank(")],
 "lr_maximum": [(LR, "    d_hat[d_hat < 0] = 0\n", "    d_hat = np.maximum(d_hat, 0)\n")],
 "lr_where": [(LR, "    lamda[lamda < 0] = 0\n", "    lamda = np.where(lamda < 0, 0, lamda)\n")],
 "lr_diag": [(LR, "    d_hat = 1 / (scale) * _get_new_diag(F_hat_temp) * 1 / (scale)\n\n    # Scale back low rank component\n    F_hat = (1 / scale) * F_hat_temp\n",
              "    # Scale back low rank component\n    F_hat = F_hat_temp / scale\n    d_hat = _get_new_diag(F_hat_temp) / scale**2\n")],
 "lr_scale": [(LR, "        v = 1 / np.sqrt(_get_diagonal(F_temp, d_temp).reshape(-1, 1))\n        F = v * F_temp\n        d = (v.flatten() ** 2) * d_temp\n\n        F = vola.reshape(-1, 1) * F\n        d = (vola**2) * d\n",
               "        v = vola / np.sqrt(_get_diagonal(F_temp, d_temp))\n        F = v[:, np.newaxis] * F_temp\n        d = v**2 * d_temp\n")],
 "lr_local": [(LR, "        yield IEWMA(\n            time=t,\n            mean=m,\n            covariance=scale_low_rank(vola=vola.loc[t].values, low_rank=low_rank),\n            volatility=vola.loc[t],\n        )\n",
               "        now = vola.loc[t]\n        cov = scale_low_rank(now.values, low_rank)\n        yield IEWMA(t, m, cov, now)\n")],
 "lr_if": [(LR, "        if k < min_periods - 1:\n            return times[k], LowRankCovariance(\n                np.nan * _low_rank.F, np.nan * _low_rank.d\n            )\n\n        return times[k], LowRankCovariance(_low_rank.F, _low_rank.d)\n",
            "        if k + 1 >= min_periods:\n            return times[k], _low_rank\n        return times[k], LowRankCovariance(np.full((y.shape[1], rank), np.nan), np.full(y.shape[1], np.nan))\n")],
 "lr_dense": [(LR, "    A = LinearOperator((n, n), matvec=_mv)\n\n    # Compute top eigenvalues\n    lamda, Q = eigsh(A, k=rank, which=\"LM\")\n",
               "    A = (scale * F) @ (scale * F).T + (scale * r) @ (scale * r).T\n\n    # Compute top eigenvalues\n    lamda, Q = np.linalg.eigh(A)\n    lamda, Q = lamda[n - rank :].copy(), Q[:, n - rank :]\n")],
 "lr_square": [(LR, "    return np.sum(F**2, axis=1) + d\n", "    return (F * F).sum(axis=1) + d\n")],
}
