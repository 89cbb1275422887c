"""behaviour-preserving edits of factor_model.py, return_combination.py (predictors, lasso), trading_model.py (metrics), MSE"""
FM = "experiments/utils/factor_model.py"
RC = "experiments/utils/return_combination.py"
TM = "experiments/utils/trading_model.py"
XU = "experiments/utils/experiment_utils.py"
EDITS = {
 "fm_helper": [(FM, "def from_factor_to_full_covariance(", "def _full(item):\n    B = item.exposure\n    return B.T @ item.factor_covariance @ B + np.diag(item.diagonal)\n\n\ndef from_factor_to_full_covariance("),
               (FM, "        covariance[\n            item.time\n        ] = item.exposure.T @ item.factor_covariance @ item.exposure + np.diag(\n            item.diagonal\n        )\n", "        covariance[item.time] = _full(item)\n"),
               (FM, "        Sigma = item.exposure.T @ item.factor_covariance @ item.exposure + np.diag(\n            item.diagonal\n        )\n", "        Sigma = _full(item)\n")],
 "fm_dictcomp": [(FM, "    covariance = {}\n\n    for item in factor_model:\n        covariance[\n            item.time\n        ] = item.exposure.T @ item.factor_covariance @ item.exposure + np.diag(\n            item.diagonal\n        )\n\n    return covariance\n",
                  "    return {\n        item.time: item.exposure.T @ item.factor_covariance @ item.exposure\n        + np.diag(item.diagonal)\n        for item in factor_model\n    }\n")],
 "fm_lists": [(FM, "    log_likelihoods = np.zeros(len(factor_model))\n\n", "    log_likelihoods = []\n\n"), (FM, "        log_likelihoods[i] = _single_log_likelihood(r, Sigma, m)\n", "        log_likelihoods.append(_single_log_likelihood(r, Sigma, m).item())\n"), (FM, "    for i, item in enumerate(factor_model):\n        r =", "    for item in factor_model:\n        r =")],
 "fm_ll_name": [(FM, "    # Make causal\n    returns = returns.shift(-1)\n", "    following = returns.shift(-1)\n"), (FM, "r = returns.loc[item.time].values.reshape(-1, 1)", "r = following.loc[item.time].to_numpy()[:, None]")],
 "fm_filter": [(FM, """    Sigmas = {
        key: {item.time: item.covariance for item in iewma}
        for key, iewma in iewmas.items()
    }

    # Only keep Sigmas after start_date
    Sigmas = {
        key: {time: Sigma for time, Sigma in Sigma_dict.items() if time >= start_date}
        for key, Sigma_dict in Sigmas.items()
    }
""", """    Sigmas = {
        key: {item.time: item.covariance for item in iewma if item.time >= start_date}
        for key, iewma in iewmas.items()
    }
""")],
 "fm_first": [(FM, "    fast = cm_iewma_pairs[0]\n    fast = f\"{fast[0]}-{fast[1]}\"\n    Sigmas[fast] = add_to_diagonal(Sigmas[fast], lamda=0.05)\n", "    vola_halflife, cov_halflife = cm_iewma_pairs[0]\n    add_to_diagonal(Sigmas[f\"{vola_halflife}-{cov_halflife}\"], lamda=0.05)\n")],
 "fm_result": [(FM, "    results = list(from_sigmas(Sigmas, factors, means=None).solve(window=10))\n\n    cm_iewma = {result.time: result.covariance for result in results}\n\n    return cm_iewma\n", "    combination = from_sigmas(sigmas=Sigmas, returns=factors)\n    return {r.time: r.covariance for r in combination.solve(window=10)}\n")],
 "fm_result2": [(FM, "    cm_iewma = {result.time: result.covariance for result in results}\n", "    cm_iewma = {}\n    for result in results:\n        cm_iewma[result.time] = result.covariance\n")],
 "fm_slices": [(FM, """        returns_train = returns.loc[
            (returns.index <= train_end) & (returns.index >= train_start)
        ]
        returns_test = returns.loc[returns.index <= test_end]
""", """        returns_train = returns.loc[train_start:train_end]
        returns_test = returns.loc[:test_end]
""")],
 "fm_iloc": [(FM, """        returns_train = returns.loc[
            (returns.index <= train_end) & (returns.index >= train_start)
        ]
        returns_test = returns.loc[returns.index <= test_end]
""", """        returns_train = returns.iloc[t - memory : t]
        returns_test = returns.iloc[: min(t + update_frequency, T)]
"""), (FM, "        train_end = times[t - 1]\n        train_start = times[t - memory]\n\n", ""), (FM, "        test_end = times[min(t + update_frequency - 1, T - 1)]\n", "")],
 "fm_resid": [(FM, """        unexplained_temp = pd.DataFrame(
            returns_test.values - factors_temp.values @ exposure_temp.values,
            index=returns_test.index,
            columns=returns.columns,
        )
""", """        unexplained_temp = returns_test - factors_temp @ exposure_temp
""")],
 "fm_yield": [(FM, """            factor_covariance = covariance
            diagonal = diag_temp.loc[time]

            yield FactorModel(time, exposure_temp, factor_covariance, diagonal)
""", """            yield FactorModel(
                time=time,
                exposure=exposure_temp,
                factor_covariance=covariance,
                diagonal=diag_temp.loc[time],
            )
""")],
 "fm_range": [(FM, "    for t in trange(memory, T, update_frequency):\n", "    for t in range(memory, len(returns), update_frequency):\n")],
 "fm_helper2": [(FM, "def construct_cmiewma_factor_model(", "def _residual_variances(residuals):\n    return residuals.pow(2).ewm(halflife=21, min_periods=0).mean()\n\n\ndef construct_cmiewma_factor_model("), (FM, "(unexplained_temp**2).ewm(halflife=21, min_periods=0).mean()", "_residual_variances(unexplained_temp)")],
 "fm_T": [(FM, "returns_test @ np.transpose(exposure_temp)", "returns_test @ exposure_temp.T"), (FM, "ewm(halflife=21, min_periods=0)", "ewm(halflife=21)")],
 "fm_keys": [(FM, """        for time, covariance in factor_covariance_temp.items():
            factor_covariance = covariance
""", """        for time in factor_covariance_temp:
            factor_covariance = factor_covariance_temp[time]
""")],
 "fm_compact": [(FM, "            iterated_ewma(\n                factors,\n                vola_halflife=pair[0],\n                cov_halflife=pair[1],\n                min_periods_vola=factors.shape[1],\n                min_periods_cov=2 * factors.shape[1],\n            )\n", "            iterated_ewma(factors, pair[0], pair[1], k, 2 * k)\n"), (FM, "    # CM-IEWMA\n", "    k = len(factors.columns)\n")],
 "rc_parts": [(RC, """    return_predictions_pos = return_predictions.copy()
    return_predictions_neg = return_predictions.copy()
    return_predictions_pos[return_predictions_pos < 0] = 0
    return_predictions_neg[return_predictions_neg > 0] = 0
    return pd.concat([return_predictions_pos, return_predictions_neg], axis=1)
""", """    positive = return_predictions.clip(lower=0)
    negative = return_predictions.clip(upper=0)
    return pd.concat([positive, negative], axis=1)
""")],
 "rc_parts2": [(RC, """    return_predictions_pos = return_predictions.copy()
    return_predictions_neg = return_predictions.copy()
    return_predictions_pos[return_predictions_pos < 0] = 0
    return_predictions_neg[return_predictions_neg > 0] = 0
""", """    return_predictions_pos = return_predictions.where(return_predictions > 0, 0)
    return_predictions_neg = return_predictions.where(return_predictions < 0, 0)
""")],
 "rc_daily": [(RC, """    return_predictions = {}

    for lag in lags:
        return_predictions[lag] = returns.shift(lag).dropna()
    return_predictions = pd.DataFrame(return_predictions, index=returns.index)

    return return_predictions
""", """    columns = {lag: returns.shift(lag) for lag in lags}
    return pd.DataFrame(columns, index=returns.index)
""")],
 "rc_ewma": [(RC, """    return_predictions = {}

    for halflife in halflives:
        return_predictions[halflife] = (
            returns.ewm(halflife=halflife).mean().shift(1).dropna()
        )
    return_predictions = pd.DataFrame(return_predictions, index=returns.index[1:])

    return return_predictions
""", """    past = {h: returns.ewm(halflife=h).mean().shift(1) for h in halflives}
    return pd.DataFrame(past, index=returns.index[1:])
""")],
 "rc_ewma2": [(RC, "            returns.ewm(halflife=halflife).mean().shift(1).dropna()\n", "            returns.ewm(halflife=halflife).mean().shift().iloc[1:]\n")],
 "rc_lasso_iloc": [(RC, """        t_start = times[t - memory]
        t_end = times[t - 1]
        return_param.value = returns.loc[t_start:t_end].values
        return_prediction_param.value = return_predictions.loc[t_start:t_end].values
        problem.solve(ignore_dpp=True)
""", """        return_param.value = returns.iloc[t - memory : t].values
        return_prediction_param.value = return_predictions.iloc[t - memory : t].values
        problem.solve(ignore_dpp=True)
""")],
 "rc_lasso_obj": [(RC, """        cp.sum_squares(return_param - return_prediction_param @ weights)
        + alpha * cp.norm1(weights)
""", """        cp.sum_squares(return_prediction_param @ weights - return_param)
        + alpha * cp.sum(cp.abs(weights))
""")],
 "rc_lasso_hat": [(RC, "    returns_hat = ((all_weights * return_predictions).dropna()).sum(axis=1)\n", "    returns_hat = (return_predictions.iloc[memory:] * all_weights).sum(axis=1)\n")],
 "rc_lasso_store": [(RC, "    all_weights = np.nan * return_predictions.iloc[memory:].copy()\n\n    for t in trange(memory, returns.shape[0]):\n        t_start", "    all_weights = pd.DataFrame(\n        np.nan, index=times[memory:], columns=return_predictions.columns\n    )\n\n    for t in range(memory, len(returns)):\n        t_start"), (RC, "        all_weights.loc[t_next] = weights.value.T\n", "        all_weights.loc[t_next] = weights.value\n")],
 "tm_rets": [(TM, "        if excess:\n            assert rf is not None\n            excess_returns = self.rets / self.adjust_factor - rf\n            mean_return = np.mean(excess_returns) * 252\n            stdev = np.std(self.rets / self.adjust_factor) * np.sqrt(252)\n", "        rets = self.rets / self.adjust_factor\n        stdev = np.std(rets) * np.sqrt(252)\n        if excess:\n            assert rf is not None\n            mean_return = np.mean(rets - rf) * 252\n"),
             (TM, "            mean_return = np.mean(self.rets / self.adjust_factor) * 252\n            stdev = np.std(self.rets / self.adjust_factor) * np.sqrt(252)\n", "            mean_return = 252 * rets.mean()\n")],
 "tm_named": [(TM, "        sharpe_ratio = mean_return / stdev\n\n        return metrics(mean_return, stdev, sharpe_ratio, self.compute_max_drawdown())\n", "        drawdown = self.compute_max_drawdown()\n\n        return metrics(\n            mean_return=mean_return,\n            risk=stdev,\n            sharpe=mean_return / stdev,\n            drawdown=drawdown,\n        )\n")],
 "tm_rho": [(TM, "    stdevs = returns.ewm(halflife=125).std().shift(1)\n\n    # set first row to zeros\n    stdevs.iloc[0] = 0\n\n    # Replace nans with zeros\n    stdevs = stdevs.fillna(0)\n\n    return n_devs * stdevs\n", "    stdevs = returns.ewm(halflife=125).std()\n    return n_devs * stdevs.shift(1).fillna(0)\n")],
 "tm_rho2": [(TM, "returns.ewm(halflife=125).std().shift(1)\n", "np.sqrt(returns.ewm(halflife=125).var()).shift(1)\n")],
 "tm_growth": [(TM, "        Vs = [np.array([1])]\n        for t, r_t in enumerate(self.rets):\n            Vs.append(Vs[t] * (1 + r_t / self.adjust_factor))\n        self.Vs = np.array(Vs[1:])\n", "        self.Vs = np.cumprod(1 + self.rets / self.adjust_factor, axis=0)\n")],
 "tm_rf": [(TM, "        if rf is not None:\n            rf = rf.values.reshape(-1, 1)\n        if excess:\n            assert rf is not None\n            excess_returns = self.rets / self.adjust_factor - rf\n", "        if excess:\n            assert rf is not None\n            excess_returns = self.rets / self.adjust_factor - rf.to_numpy()[:, None]\n")],
 "xu_mse": [(XU, """        realized_cov = returns_shifted.loc[time].values.reshape(
            -1, 1
        ) @ returns_shifted.loc[time].values.reshape(1, -1)
        MSEs.append(np.linalg.norm(cov - realized_cov) ** 2)
""", """        r = returns_shifted.loc[time].values
        MSEs.append(((cov.values - np.outer(r, r)) ** 2).sum())
""")],
 "xu_mse2": [(XU, "        MSEs.append(np.linalg.norm(cov - realized_cov) ** 2)\n\n    return pd.Series(MSEs, index=covariances.keys())\n", "        MSEs.append(np.sum(np.square(cov.values - realized_cov)))\n\n    return pd.Series(MSEs, index=list(covariances))\n")],
 "xu_mse3": [(XU, "        MSEs.append(np.linalg.norm(cov - realized_cov) ** 2)\n", "        MSEs.append(np.linalg.norm(cov - realized_cov, ord=\"fro\") ** 2)\n")],
 "xu_diag": [(XU, "    for key in Sigmas.keys():\n        Sigmas[key] = Sigmas[key] + lamda * np.diag(np.diag(Sigmas[key]))\n", "    for key, Sigma in Sigmas.items():\n        Sigmas[key] = Sigma + np.diag(lamda * np.diag(Sigma))\n")],
}
