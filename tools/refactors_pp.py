"""behaviour-preserving edits of the portfolio problems"""
TM = "experiments/utils/trading_model.py"
PB = "experiments/utils/portfolio_backtests.py"
EDITS = {
 "pp_norm": [(TM, "            risk = cp.norm2(cp.sum(cp.multiply(L_inv_param, w[:-1].T), axis=1))\n", "            risky = w[:-1]\n            risk = cp.norm(L_inv_param @ risky, 2)\n")],
 "pp_logs": [(TM, "cp.Minimize(1 / 2 * risk - cp.log(cp.geo_mean(w)))", "cp.Minimize(risk / 2 - cp.sum(cp.log(w)) / self.n)")],
 "pp_normalise": [(TM, "        w_normalized = w.value / np.sum(w.value)\n\n        return w_normalized\n", "        solution = w.value\n        return solution / solution.sum()\n"),
                  (TM, "        prob.solve(solver=\"ECOS\")\n\n        w = z.value / np.sum(z.value)\n        return w\n\n    def solve_max_sharpe", "        prob.solve(solver=\"ECOS\")\n\n        return self._normalise(z.value)\n\n    @staticmethod\n    def _normalise(z):\n        return z / np.sum(z)\n\n    def solve_max_sharpe")],
 "pp_serial": [(TM, "            pool = mp.Pool()\n            ws = pool.starmap(\n                self.solve_risk_parity,\n                zip(all_prob, all_w, all_L_inv_param, [*self.L_inv_hats.values()]),\n            )\n            pool.close()\n            pool.join()\n",
                "            ws = [\n                self.solve_risk_parity(prob, w, L_inv_param, L_inv)\n                for L_inv in self.L_inv_hats.values()\n            ]\n")],
 "pp_context": [(TM, "            pool = mp.Pool()\n            ws = pool.starmap(\n                self.solve_risk_parity,\n                zip(all_prob, all_w, all_L_inv_param, [*self.L_inv_hats.values()]),\n            )\n            pool.close()\n            pool.join()\n",
                 "            tasks = [(prob, w, L_inv_param, L_inv) for L_inv in self.L_inv_hats.values()]\n            with mp.Pool() as pool:\n                ws = pool.starmap(self.solve_risk_parity, tasks)\n")],
 "pp_append": [(TM, "        r_hat_param.value = np.vstack([r_hat.reshape(-1, 1), 0])\n        r_hat_param = np.zeros(r_hat_param.shape)\n", "        r_hat_param.value = np.append(r_hat, 0).reshape(-1, 1)\n")],
 "pp_order": [(TM, "            cons = [z >= 0, z <= M * cp.sum(z), sigma_param.T @ z == 1]\n", "            cons = [cp.sum(cp.multiply(sigma_param, z)) == 1, z <= cp.sum(z) * M]\n            cons.append(0 <= z)\n")],
 "pp_sigmas": [(TM, "            all_sigma_hats = [\n                self.sigma_hats.values[t].reshape(-1, 1) for t in range(self.T)\n            ]\n            ws = ", "            all_sigma_hats = [sigma.reshape(-1, 1) for sigma in self.sigma_hats.values]\n            ws = ")],
 "pp_rhos": [(TM, "        if rhos is not None:\n            self.rhos = rhos.loc[self.returns.index]\n        else:\n            self.rhos = rhos\n", "        self.rhos = None if rhos is None else rhos.loc[self.returns.index]\n")],
 "pp_cons": [(TM, "            cons += [cp.sum(w) == 1]\n            cons += [risk <= sigma_des / np.sqrt(252)]\n", "            cons += [risk * np.sqrt(252) <= sigma_des, cp.sum(w) == 1]\n")],
 "pp_limits": [(TM, "            if [*additonal_cons.keys()]:\n                if \"short_lim\" in additonal_cons.keys():\n                    cons += [cp.norm(w[:-1], 1) <= additonal_cons[\"short_lim\"]]\n                if \"upper_bound\" in additonal_cons.keys():\n                    cons += [w[:-1] <= additonal_cons[\"upper_bound\"]]\n                if \"lower_bound\" in additonal_cons.keys():\n                    cons += [w[:-1] >= additonal_cons[\"lower_bound\"]]\n                # cons += [w >= 0]\n",
                "            cons += self._limits(w[:-1], additonal_cons)\n"),
               (TM, "    def solve_min_risk(", "    @staticmethod\n    def _limits(w, limits):\n        cons = []\n        if \"short_lim\" in limits:\n            cons.append(cp.norm1(w) <= limits[\"short_lim\"])\n        if \"upper_bound\" in limits:\n            cons.append(w <= limits[\"upper_bound\"])\n        if \"lower_bound\" in limits:\n            cons.append(w >= limits[\"lower_bound\"])\n        return cons\n\n    def solve_min_risk(")],
 "pp_classes": [(PB, "            trader.backtest(\n                portfolio_type=\"max_diverse\",\n                adjust_factor=adjust_factor,\n                additonal_cons=additonal_cons,\n            )\n            traders_max_diverse[self.names[i]] = trader\n", "            trader.backtest(\"max_diverse\", additonal_cons=additonal_cons)\n            traders_max_diverse[self.names[i]] = trader\n")],
 "pp_robust": [(TM, "                risk = cp.norm2(\n                    cp.sum(cp.multiply(L_inv_param, w.T), axis=1)\n                ) + kappa * cp.square(sigma_hat_param.T @ cp.abs(w))\n            else:\n", "                exposure = cp.sum(cp.multiply(sigma_hat_param, cp.abs(w)))\n                risk = cp.norm2(cp.sum(cp.multiply(L_inv_param, w.T), axis=1)) + kappa * exposure**2\n            else:\n")],
 "pp_warm": [(TM, "            # Solve problem once to speed up later solves\n            L_inv_param.value = [*self.L_inv_hats.values()][0]\n            sigma_param.value = np.ones((self.n, 1))\n            prob.solve(solver=\"ECOS\")\n\n            all_z", "            all_z")],
}
