"""further behaviour-preserving edits (other modules)"""
CO = "cvx/covariance/combination.py"
EDITS = {
 "co_window_helper": [(CO, "        window = window or len(self.__Ls_shifted)\n        window = min(window, len(self.__Ls_shifted))\n",
                       "        available = len(self.__Ls_shifted)\n        window = available if not window else min(window, available)\n")],
 "co_objective": [(CO, "        return cvx.sum(cvx.log(self.A_param @ self._weight)) - 0.5 * cvx.sum_squares(self.P_chol_param.T @ self._weight)\n",
                   "        log_det = cvx.sum(cvx.log(self.A_param @ self._weight))\n        quad = cvx.sum_squares(self.P_chol_param.T @ self._weight) / 2\n        return log_det - quad\n")],
 "co_constraints": [(CO, "        return [cvx.sum(self._weight) == 1, self._weight >= 0]\n", "        nonneg = self._weight >= 0\n        budget = cvx.sum(self._weight) == 1\n        return [nonneg, budget]\n")],
 "co_minimise": [(CO, "        self.prob = cvx.Problem(cvx.Maximize(self._objective), self._constraints)\n", "        self.prob = cvx.Problem(cvx.Minimize(-self._objective), self._constraints)\n")],
 "co_solve_helper": [(CO, "        L = sum(self.__Ls.loc[time] * weights.values)  # prediction for time+1\n        nu = sum(self.__nus.loc[time] * weights.values)  # prediction for time+1\n",
                      "        L = self._combine(self.__Ls, time, weights)\n        nu = self._combine(self.__nus, time, weights)\n"),
                     (CO, "    def _solve(self, time, problem, **kwargs):\n", "    @staticmethod\n    def _combine(table, time, weights):\n        return sum(table.loc[time] * weights.values)\n\n    def _solve(self, time, problem, **kwargs):\n")],
 "co_sum_dot": [(CO, "        P = {times[i]: sum(prod_Bs.loc[times[i - window + 1] : times[i]]) for i in range(window - 1, len(times))}\n",
                 "        P = {}\n        for i in range(window - 1, len(times)):\n            P[times[i]] = prod_Bs.loc[times[i - window + 1] : times[i]].sum()\n")],
 "co_enum": [(CO, "        for time, AA in A.items():\n            problem.A_param.value = AA\n            problem.P_chol_param.value = P_chol[time]\n",
              "        for time in A:\n            problem.P_chol_param.value = P_chol[time]\n            problem.A_param.value = A[time]\n")],
 "co_try": [(CO, "            try:\n                yield self._solve(time=time, problem=problem, **kwargs)\n            except cvx.SolverError:\n                print(f\"Solver did not converge at time {time}\")\n                yield None\n",
             "            try:\n                result = self._solve(time=time, problem=problem, **kwargs)\n            except cvx.SolverError:\n                print(f\"Solver did not converge at time {time}\")\n                result = None\n            yield result\n")],
 "co_btcol": [(CO, "    return {time: L.T @ returns.loc[time].values - nus[time] for time, L in Ls.items()}\n",
               "    out = {}\n    for time, L in Ls.items():\n        r = returns.loc[time].to_numpy()\n        out[time] = L.T.dot(r) - nus[time]\n    return out\n")],
 "co_diag": [(CO, "    return np.column_stack([np.vstack(diags_interval.iloc[:, i]).flatten() for i in range(K)])\n",
              "    columns = [np.concatenate(list(diags_interval.iloc[:, i])) for i in range(K)]\n    return np.column_stack(columns)\n")],
 "co_inv": [(CO, """        mean = pd.Series(index=self.assets, data=np.linalg.inv(L.T) @ nu)
        sigma = pd.DataFrame(index=self.assets, columns=self.assets, data=np.linalg.inv(L @ L.T))

        mean = pd.Series(index=self.assets, data=np.linalg.inv(L.T) @ nu)
        sigma = pd.DataFrame(index=self.assets, columns=self.assets, data=np.linalg.inv(L @ L.T))
""", """        precision = L @ L.T
        mean = pd.Series(np.linalg.solve(L.T, nu), index=self.assets)
        sigma = pd.DataFrame(np.linalg.inv(precision), index=self.assets, columns=self.assets)
""")],
 "co_results": [(CO, "    sigmas = _map_nested_dicts(results, lambda result: result.covariance)\n    means = _map_nested_dicts(results, lambda result: result.mean)\n",
                 "    sigmas = {k: {t: res.covariance for t, res in v.items()} for k, v in results.items()}\n    means = {k: {t: res.mean for t, res in v.items()} for k, v in results.items()}\n")],
 "co_nonneg": [(CO, "        self._weight = cvx.Variable(len(keys), name=\"weights\")\n", "        self._weight = cvx.Variable(K, name=\"weights\", nonneg=True)\n"),
               (CO, "        return [cvx.sum(self._weight) == 1, self._weight >= 0]\n", "        return [cvx.sum(self._weight) == 1]\n")],
 "co_comment_noop": [(CO, "        problem._construct_problem()\n", "        problem._construct_problem()\n        count = 0\n        count += 1\n        assert count > 0\n")],
}
