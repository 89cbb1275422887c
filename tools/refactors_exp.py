"""behaviour-preserving edits of the other modules of experiments/utils"""
RC = "experiments/utils/return_combination.py"
LOOP = """            t_next = times[t]
            for i, asset in enumerate(returns.columns):
                scale = scales[i].loc[t_next]
                all_weights[i].loc[t_next] = self._get_weights(
                    returns_temp[asset],
                    returns_predictions[i].loc[t_start:t_end],
                    scale,
                    alpha,
                )
"""
EDITS = {
 "rc_zip": [(RC, LOOP, """            now = times[t]
            for asset, forecast, scale, weights in zip(returns.columns, returns_predictions, scales, range(n)):
                all_weights[weights].loc[now] = self._get_weights(
                    returns_temp[asset], forecast.loc[t_start:t_end], scale.loc[now], alpha
                )
""")],
 "rc_helper": [(RC, LOOP, """            t_next = times[t]
            self._fill(all_weights, returns_temp, returns_predictions, scales, t_start, t_end, t_next, alpha)
"""), (RC, "    def fit(self, returns, returns_predictions, memory, alpha):\n", """    def _fill(self, all_weights, window, predictions, scales, first, last, now, alpha):
        for i, asset in enumerate(window.columns):
            row = self._get_weights(window[asset], predictions[i].loc[first:last], scales[i].loc[now], alpha)
            all_weights[i].loc[now] = row

    def fit(self, returns, returns_predictions, memory, alpha):
""")],
 "rc_iloc": [(RC, "                    returns_predictions[i].loc[t_start:t_end],\n", "                    returns_predictions[i].iloc[t - memory : t],\n")],
 "rc_max": [(RC, "            t_start = times[max(0, t - memory)]\n", "            t_start = times[t - memory]\n")],
 "rc_swap": [(RC, """        for t in trange(memory, len(times)):  # Note: scales are None for day one
            t_start = times[max(0, t - memory)]
            t_end = times[t - 1]

            returns_temp = returns.loc[t_start:t_end]

            t_next = times[t]
            for i, asset in enumerate(returns.columns):
                scale""", """        for i, asset in enumerate(returns.columns):
            for t in range(memory, len(times)):
                t_start = times[max(0, t - memory)]
                t_end = times[t - 1]

                returns_temp = returns.loc[t_start:t_end]

                t_next = times[t]
                scale""")],
 "rc_dot": [(RC, "        D = np.diag(scale.values)\n\n        weights = np.linalg.solve(\n            (returns_predictions.values.T * b.T) @ returns_predictions.values\n            + alpha * D,\n            (returns_predictions.values.T * b.T) @ returns.values,\n        )\n",
             "        X = returns_predictions.values\n        XtB = (b * X).T\n        gram = XtB @ X + np.diag(alpha * scale.values)\n        weights = np.linalg.solve(gram, XtB.dot(returns.values))\n")],
 "rc_beta": [(RC, "        beta = np.exp(np.log(0.5) / weighted_hf)\n        decay_weights = np.array([beta**i for i in range(len(returns_predictions))])\n        decay_weights = decay_weights / np.sum(decay_weights) * len(returns_predictions)\n        decay_weights = decay_weights[::-1]\n",
              "        T = returns_predictions.shape[0]\n        decay_weights = 0.5 ** (np.arange(T - 1, -1, -1) / weighted_hf)\n        decay_weights = T * decay_weights / decay_weights.sum()\n")],
 "rc_scales": [(RC, """        squared_returns_predictions = [
            prediction**2 for prediction in returns_predictions
        ]

        variances = [
            squared_prediction.ewm(halflife).mean().shift(1)
            for squared_prediction in squared_returns_predictions
        ]

        # scales = [1 / variance for variance in variances]
        scales = [variance for variance in variances]

        return scales
""", """        scales = []
        for prediction in returns_predictions:
            variance = prediction.pow(2).ewm(com=halflife).mean()
            scales.append(variance.shift(1))
        return scales
""")],
 "rc_hats": [(RC, """        returns_hats = {}
        for i in range(n):
            returns_hat = returns_predictions[i].iloc[memory:] * all_weights[i]
            returns_hats[i] = returns_hat.sum(axis=1)

        returns_hats = pd.DataFrame(returns_hats)
        returns_hats.columns = returns.columns
""", """        returns_hats = pd.DataFrame(
            {
                asset: (returns_predictions[i].iloc[memory:] * all_weights[i]).sum(axis=1)
                for i, asset in enumerate(returns.columns)
            }
        )
""")],
 "rc_empty": [(RC, """        all_weights = [
            np.nan * returns_predictions[i].iloc[memory:].copy() for i in range(n)
        ]
""", """        all_weights = []
        for prediction in returns_predictions:
            kept = prediction.iloc[memory:]
            all_weights.append(pd.DataFrame(np.nan, index=kept.index, columns=kept.columns))
""")],
 "rc_assert": [(RC, """        for i in range(n):
            assert (times == returns_predictions[i].index).all()
            "predictors must have same indices"
""", """        assert all(times.equals(prediction.index) for prediction in returns_predictions)
""")],
}

TM = "experiments/utils/trading_model.py"
PB = "experiments/utils/portfolio_backtests.py"
LIM = """                    if "short_lim" in additonal_cons.keys():
                        cons += [cp.norm(w, 1) <= additonal_cons["short_lim"]]
                    if "upper_bound" in additonal_cons.keys():
                        cons += [w <= additonal_cons["upper_bound"]]
                    if "lower_bound" in additonal_cons.keys():
                        cons += [w >= additonal_cons["lower_bound"]]
                    # cons"""
POOL = """            pool = mp.Pool()
            ws_and_obj = pool.starmap(
                self.solve_min_risk,
                zip(
                    all_prob,
                    all_w,
                    all_L_inv_param,
                    [*self.L_inv_hats.values()],
                    all_sigma_hat_param,
                    all_sigma_hats,
                ),
            )
            pool.close()
            pool.join()
"""
RISK = "                risk = cp.norm2(cp.sum(cp.multiply(L_inv_param, w.T), axis=1))\n\n            if self.C_speedup"
EDITS.update({
 "tm_helper": [(TM, LIM, """                    cons += self._limits(w, additonal_cons)
                    # cons"""), (TM, "    def get_vol_cont_w(", """    def _limits(self, w, limits):
        out = []
        for name, bound in limits.items():
            if name == "short_lim":
                out.append(cp.norm1(w) <= bound)
            elif name == "upper_bound":
                out.append(w <= bound)
            elif name == "lower_bound":
                out.append(w >= bound)
        return out

    def get_vol_cont_w(""")],
 "tm_get": [(TM, LIM, """                    short, upper, lower = (additonal_cons.get(k) for k in ("short_lim", "upper_bound", "lower_bound"))
                    if short is not None:
                        cons = cons + [cp.norm(w, 1) <= short]
                    if upper is not None:
                        cons = cons + [upper >= w]
                    if lower is not None:
                        cons = cons + [lower <= w]
                    # cons""")],
 "tm_with": [(TM, POOL, """            with mp.Pool() as pool:
                ws_and_obj = pool.starmap(
                    self.solve_min_risk,
                    [
                        (prob, w, L_inv_param, self.L_inv_hats[t], p, s)
                        for t, p, s in zip(self.returns.index, all_sigma_hat_param, all_sigma_hats)
                    ],
                )
""")],
 "tm_serial": [(TM, POOL, """            ws_and_obj = []
            for k, L_inv in enumerate(self.L_inv_hats.values()):
                ws_and_obj.append(
                    self.solve_min_risk(prob, w, L_inv_param, L_inv, all_sigma_hat_param[k], all_sigma_hats[k])
                )
""")],
 "tm_norm": [(TM, RISK, "                risk = cp.norm(L_inv_param @ w, 2)\n\n            if self.C_speedup")],
 "tm_squares": [(TM, RISK, "                risk = cp.sum_squares(L_inv_param @ w)\n\n            if self.C_speedup")],
 "tm_eq": [(TM, "            ws = np.ones((self.T, self.n)) / self.n\n", "            ws = np.full((self.T, self.n), 1 / self.n)\n")],
 "tm_in": [(TM, "            portfolio_type == \"min_risk\"\n            or portfolio_type == \"vol_cont\"\n            or portfolio_type == \"robust_min_risk\"\n        ):", "            portfolio_type in (\"min_risk\", \"vol_cont\", \"robust_min_risk\")\n        ):")],
 "tm_linv": [(TM, "    Theta = np.linalg.inv(covariance)\n    return np.linalg.inv(np.linalg.cholesky(Theta))\n", "    return np.linalg.cholesky(np.asarray(covariance)).T\n")],
 "tm_ones": [(TM, "                cons += [cp.sum(w) == 1]\n                if", "                cons += [np.ones((1, self.n)) @ w == 1]\n                if")],
 "pb_iloc": [(PB, "    returns_temp = returns.loc[start_date:end_date].shift(-1).dropna()\n", "    window = returns.loc[start_date:end_date]\n    returns_temp = window.shift(-1).iloc[:-1]\n")],
 "pb_frame": [(PB, "    returns_temp = returns.loc[start_date:end_date].shift(-1).dropna()\n", "    window = returns.loc[start_date:end_date]\n    returns_temp = pd.DataFrame(window.values[1:], index=window.index[:-1], columns=window.columns)\n")],
 "pb_mus": [(PB, "        mus_temp = pd.DataFrame({time: mus.loc[time] for time in returns_temp.index}).T\n", "        mus_temp = mus.loc[returns_temp.index]\n")],
 "pb_zip": [(PB, """        for i in trange(len(self.cov_predictors)):
            Sigma_hats = self.cov_predictors[i]
            returns_temp, Sigmas_temp = _get_causal(
                self.returns, Sigma_hats, self.start_date, self.end_date
            )
            trader = Trader(returns_temp, Sigmas_temp)
            trader.backtest(
                portfolio_type="min_risk",
                adjust_factor=adjust_factor,
                additonal_cons=additonal_cons,
            )
            traders_min_risk[self.names[i]] = trader
""", """        for name, Sigma_hats in zip(self.names, self.cov_predictors):
            trader = Trader(*_get_causal(self.returns, Sigma_hats, self.start_date, self.end_date))
            trader.backtest(portfolio_type="min_risk", adjust_factor=adjust_factor, additonal_cons=additonal_cons)
            traders_min_risk[name] = trader
""")],
 "pb_dates": [(PB, "        self.start_date = start_date or list(cov_predictor.keys())[0]\n        self.end_date = end_date or list(cov_predictor.keys())[-1]\n", """        keys = list(cov_predictors[-1])
        self.start_date = keys[0] if start_date is None else start_date
        self.end_date = keys[-1] if end_date is None else end_date
""")],
})
