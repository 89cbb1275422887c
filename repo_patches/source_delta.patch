From ceaf022064c8e5b10c896d36a3b88c1b1f2fb755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 01/16] fix: keep all outcomes when solve(times=...) starts
 before a full window is available

---
 cvx/covariance/combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 783aed6..ead212b 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -234,7 +234,7 @@ class _CovarianceCombination:
             "times must be consecutive"
 
             # add window - 1 previous time steps to times
-            times = list(all_available_times[zero_index - window + 1 : zero_index]) + times
+            times = list(all_available_times[max(0, zero_index - window + 1) : zero_index]) + times
 
         Bs = {time: np.column_stack(Lts_at_r.loc[time]) for time in times}
         prod_Bs = pd.Series({time: B.T @ B for time, B in Bs.items()})
-- 
2.43.0


From 166fdaf24f10c31db79e306e34ce1abe424634f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 02/16] fix: rolling_window averages over exactly the window

---
 experiments/utils/experiment_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 30c0af7..ad79da9 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -256,8 +256,8 @@ def rolling_window(returns, memory, min_periods=20):
     Sigmas[0] = np.outer(returns[0], returns[0])
 
     for t in range(1, returns.shape[0]):
-        alpha_old = 1 / min(t + 1, memory)
-        alpha_new = 1 / min(t + 2, memory)
+        alpha_old = 1 / min(t, memory)
+        alpha_new = 1 / min(t + 1, memory)
 
         if t >= memory:
             Sigmas[t] = alpha_new / alpha_old * Sigmas[t - 1] + alpha_new * (
-- 
2.43.0


From f56d8cd38797dabe7aa5a9a58b4920dc40f0012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 03/16] fix: log_likelihood_sequential returns the
 log-likelihoods

---
 experiments/utils/experiment_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index ad79da9..a9bd954 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -243,6 +243,8 @@ def log_likelihood_sequential(returns, Sigmas, means=None, scale=1):
             - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
         )
 
+    return ll
+
 
 def rolling_window(returns, memory, min_periods=20):
     min_periods = max(min_periods, 1)
-- 
2.43.0


From 83e654b609cd425f176daf2605cc80459270ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 04/16] fix: Trader.backtest no longer leaks constraints into
 later backtests

---
 experiments/utils/trading_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 9267bbf..439ef79 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -260,6 +260,8 @@ class Trader:
         param rhos: pandas DataFrame of uncertainty in expected returns
             if None, then uncertainty is set to zero. Causal estimates
         """
+        cons = list(cons)  # never extend the caller's (or the default) list
+
         self.portfolio_type = portfolio_type
         self.adjust_factor = adjust_factor
         self.additonal_cons = additonal_cons
-- 
2.43.0


From 9849af85ad7b8529a0ca4304649ad1933220bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 05/16] fix: minimum-risk and risk-parity backtests no longer
 fail to pickle a solved problem

---
 experiments/utils/trading_model.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 439ef79..4a9e55f 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -344,12 +344,7 @@ class Trader:
                     self.sigma_hats.values[t].reshape(-1, 1) for t in range(self.T)
                 ]
 
-                # Solve problem with random inputs once to speed up later solves
-                L_inv_param.value = [*self.L_inv_hats.values()][0]
-                if portfolio_type == "robust_min_risk":
-                    sigma_hat_param.value = all_sigma_hats[0]
-                prob.solve()
-
+            # Note: prob must not be solved here, solved problems can't be pickled
             # solve the problem for each date
             all_w = [w for _ in range(self.T)]
             all_L_inv_param = [L_inv_param for _ in range(self.T)]
@@ -509,11 +504,7 @@ class Trader:
             risk = cp.norm2(cp.sum(cp.multiply(L_inv_param, w.T), axis=1))
             prob = cp.Problem(cp.Minimize(1 / 2 * risk - cp.log(cp.geo_mean(w))))
 
-            # Solve once for speedup later
-            # Solve problem with random inputs once to speed up later solves
-            L_inv_param.value = [*self.L_inv_hats.values()][0]
-            prob.solve()
-
+            # Note: prob must not be solved here, solved problems can't be pickled
             all_w = [w for _ in range(self.T)]
             all_L_inv_param = [L_inv_param for _ in range(self.T)]
             all_prob = [prob for _ in range(self.T)]
-- 
2.43.0


From 71c3c3894529c3133a29115431b00f4d55378c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 06/16] fix: robust minimum-risk backtest uses each day's own
 uncertainties

---
 experiments/utils/trading_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 4a9e55f..0cdd710 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -361,7 +361,9 @@ class Trader:
                     all_prob,
                     all_w,
                     all_L_inv_param,
-                    [*self.L_inv_hats.values(), all_sigma_hat_param, all_sigma_hats],
+                    [*self.L_inv_hats.values()],
+                    all_sigma_hat_param,
+                    all_sigma_hats,
                 ),
             )
             pool.close()
-- 
2.43.0


From 8ff6f3bc9b4ce4c6f0b942cbb1e4e1262e00bf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 07/16] fix: volatility-controlled backtest dilutes weights of
 the right shape

---
 experiments/utils/trading_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 0cdd710..850e1a2 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -158,7 +158,7 @@ class Trader:
 
         sigma_r = obj
         w_cash = (1 - sigma_des / sigma_r).reshape(-1, 1)
-        ws = (1 - w_cash) * ws
+        ws = (1 - w_cash) * ws.reshape(len(ws), -1)
 
         return np.hstack([ws, w_cash])
 
-- 
2.43.0


From d7c132d19d9c1ff751f4c0bb87ceb0ffc34a9427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 08/16] fix: vectorised iterated EWMA uses an array recursion
 (ewma works on dictionaries)

---
 experiments/utils/iterated_ewma_vec.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/experiments/utils/iterated_ewma_vec.py b/experiments/utils/iterated_ewma_vec.py
index 95f9da3..016dc92 100644
--- a/experiments/utils/iterated_ewma_vec.py
+++ b/experiments/utils/iterated_ewma_vec.py
@@ -99,6 +99,23 @@ def ewma(y, halflife, clip_at=None, min_periods=None):
         # EWMAs.append(EWMA_t)
 
 
+def _ewma_array(y, halflife, clip_at=None, min_periods=None):
+    """
+    As ewma, but for an array y with measurements for times t=1,2,...,T=len(y)
+
+    returns: array of EWMAs, one for each row of y
+    """
+
+    beta = np.exp(-np.log(2) / halflife)
+    EWMAs = np.zeros_like(y, dtype=float)
+    EWMAs[0] = y[0]
+    for t in range(1, y.shape[0]):
+        EWMAs[t] = get_next_ewma(
+            EWMAs[t - 1], y[t], t + 1, beta, clip_at, min_periods
+        )
+    return EWMAs
+
+
 def _get_realized_covs(returns):
     """
     param returns: numpy array where rows are vector of asset returns for t=0,1,...
@@ -218,7 +235,7 @@ def iterated_ewma(
     if mean:  # Need to remove one entry for each estimate
         min_periods_vola = max(min_periods_vola, 2)
         min_periods_cov = max(min_periods_cov, 2)
-        returns_mean = ewma(returns.values, halflife=vola_halflife)
+        returns_mean = _ewma_array(returns.values, halflife=vola_halflife)
     else:
         returns_mean = np.zeros_like(returns)
 
@@ -229,7 +246,7 @@ def iterated_ewma(
         clip_at_var = None
     realized_vars = _get_realized_vars(returns.values - returns_mean)
     D = np.sqrt(
-        ewma(
+        _ewma_array(
             realized_vars,
             halflife=vola_halflife,
             clip_at=clip_at_var,
@@ -257,13 +274,13 @@ def iterated_ewma(
 
     ### Correlation estimation
     if mean:
-        returns_adj_mean = ewma(returns_adj, halflife=cov_halflife)
+        returns_adj_mean = _ewma_array(returns_adj, halflife=cov_halflife)
     else:
         returns_adj_mean = np.zeros_like(returns_adj)
     realized_covs = _get_realized_covs(returns_adj - returns_adj_mean)
 
     # Create correlation matrix
-    R_tilde = ewma(realized_covs, halflife=cov_halflife)
+    R_tilde = _ewma_array(realized_covs, halflife=cov_halflife)
 
     # Apply min_periods_cov
     R_tilde = R_tilde[min_periods_cov - 1 :]
-- 
2.43.0


From b3f4d51bfa7b26f40bdb1194aa0b611b05fbce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 09/16] fix: iterated_ewma yields nothing (no IndexError) when
 a warm-up is never completed

---
 cvx/covariance/ewma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cvx/covariance/ewma.py b/cvx/covariance/ewma.py
index a61a7c9..2d7dc8e 100644
--- a/cvx/covariance/ewma.py
+++ b/cvx/covariance/ewma.py
@@ -244,6 +244,10 @@ def _general(
 
     beta = 1 - alpha
 
+    # no rows (e.g. the warm-up of an earlier stage is not complete), no estimates
+    if len(y) == 0:
+        return
+
     # first row, important to initialize the _ewma variable
     _ewma = fct(y[0])
     yield f(k=0)
-- 
2.43.0


From 39dbfbcb8c6625015a02be61b2ee421fcbe8fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 10/16] fix: low-rank format of a singular covariance no longer
 has NaN loadings

---
 cvx/covariance/regularization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cvx/covariance/regularization.py b/cvx/covariance/regularization.py
index f2749de..2021d9a 100644
--- a/cvx/covariance/regularization.py
+++ b/cvx/covariance/regularization.py
@@ -63,7 +63,8 @@ def regularize_covariance(sigmas, r, low_rank_format=False):
             cov = vola.reshape(-1, 1) * R.Approximation * vola.reshape(1, -1)
             yield time, pd.DataFrame(cov, index=sigma.columns, columns=sigma.columns)
         else:
-            F = vola.reshape(-1, 1) * R.Loading * np.sqrt(R.Lambda)
+            # eigenvalues of a singular covariance can be slightly negative numerically
+            F = vola.reshape(-1, 1) * R.Loading * np.sqrt(np.maximum(R.Lambda, 0))
             d = np.diag(vola.reshape(-1, 1) * R.D * vola.reshape(1, -1))
             yield (
                 time,
-- 
2.43.0


From 8250acd540ed706e532aa31080d8c5093b168ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 11/16] fix: log-likelihood evaluators accept integer asset
 labels

---
 experiments/utils/experiment_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index a9bd954..6308a6b 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -120,7 +120,7 @@ def log_likelihood_low_rank(returns, Sigmas, means=None):
         # TODO: forming the covariance matrix is bad...
         cov = low_rank.F @ (low_rank.F).T + np.diag(low_rank.d)
 
-        if not returns.loc[time].isna()[0]:
+        if not returns.loc[time].isna().iloc[0]:
             if means is not None:
                 m = means.loc[time].values.reshape(-1, 1)
             ll.append(
@@ -153,7 +153,7 @@ def log_likelihood_regularized(returns, Sigmas, means=None, r=None):
 
     if r is not None:
         for time, cov in regularize_covariance(Sigmas, r=r):
-            if not returns.loc[time].isna()[0]:
+            if not returns.loc[time].isna().iloc[0]:
                 if means is not None:
                     m = means.loc[time].values.reshape(-1, 1)
                 ll.append(
@@ -164,7 +164,7 @@ def log_likelihood_regularized(returns, Sigmas, means=None, r=None):
                 times.append(time)
     else:
         for time, cov in Sigmas.items():
-            if not returns.loc[time].isna()[0]:
+            if not returns.loc[time].isna().iloc[0]:
                 if means is not None:
                     m = means.loc[time].values.reshape(-1, 1)
                 ll.append(
-- 
2.43.0


From f580705e6408b1b58fabca48632266cd907a856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:38 +0000
Subject: [PATCH 12/16] fix: Gaussian log-likelihoods no longer overflow when
 the determinant underflows

---
 experiments/utils/experiment_utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 6308a6b..312041b 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -89,10 +89,10 @@ def turnover(weights):
 def _single_log_likelihood(r, Sigma, m):
     n = len(r)
     Sigma_inv = np.linalg.inv(Sigma)
-    det = np.linalg.det(Sigma)
+    sign, logdet = np.linalg.slogdet(Sigma)
     return (
         -n / 2 * np.log(2 * np.pi)
-        - 1 / 2 * np.log(det)
+        - 1 / 2 * (np.log(sign) + logdet)
         - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
     )
 
@@ -198,12 +198,13 @@ def log_likelihood(returns, Sigmas, means=None, scale=1):
     means = means * scale
     Sigmas = Sigmas * scale**2
 
-    dets = np.linalg.det(Sigmas).reshape(len(Sigmas), 1, 1)
+    signs, logdets = np.linalg.slogdet(Sigmas)
+    logdets = (np.log(signs) + logdets).reshape(len(Sigmas), 1, 1)
     Sigma_invs = np.linalg.inv(Sigmas)
 
     return (
         -n / 2 * np.log(2 * np.pi)
-        - 1 / 2 * np.log(dets)
+        - 1 / 2 * logdets
         - 1
         / 2
         * np.transpose(returns - means, axes=(0, 2, 1))
@@ -234,12 +235,12 @@ def log_likelihood_sequential(returns, Sigmas, means=None, scale=1):
         r = returns[t].reshape(n, 1)
         m = means[t].reshape(n, 1)
         Sigma = Sigmas[t]
-        det = np.linalg.det(Sigma)
+        sign, logdet = np.linalg.slogdet(Sigma)
         Sigma_inv = np.linalg.inv(Sigma)
 
         ll[t] = (
             -n / 2 * np.log(2 * np.pi)
-            - 1 / 2 * np.log(det)
+            - 1 / 2 * (np.log(sign) + logdet)
             - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
         )
 
-- 
2.43.0


From cff82245cce804898a17decd5da8f8da27bab53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:20 +0000
Subject: [PATCH 13/16] fix: annual risk of excess-return metrics ignored the
 adjustment factor

---
 experiments/utils/trading_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 850e1a2..f939fe6 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -639,7 +639,7 @@ class Trader:
             assert rf is not None
             excess_returns = self.rets / self.adjust_factor - rf
             mean_return = np.mean(excess_returns) * 252
-            stdev = np.std(self.rets) * np.sqrt(252)
+            stdev = np.std(self.rets / self.adjust_factor) * np.sqrt(252)
             # mean_return = (np.mean(self.rets/self.adjust_factor) - np.mean(rf))* 252
             # stdev = np.std(self.rets / self.adjust_factor-rf) * np.sqrt(252)
         else:
-- 
2.43.0


From 260ff7da39e799f8824743f85eb0a365a7580a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:46 +0000
Subject: [PATCH 14/16] fix: realized covariances of a time with a single
 record

---
 experiments/utils/experiment_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 312041b..6b6b765 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -10,7 +10,7 @@ from experiments.utils.iterated_ewma_vec import ewma
 
 def _realized_covariance(returns):
     for time in returns.index.unique():
-        returns_temp = returns.loc[time]
+        returns_temp = returns.loc[[time]]
         T_temp = len(returns_temp)
 
         yield time, returns_temp.cov(ddof=0) * T_temp
@@ -29,7 +29,7 @@ def realized_ewma(returns, halflife, clip_at=None, min_periods=None):
 
 def realized_volas(returns):
     for time in returns.index.unique():
-        yield time, np.sqrt((returns.loc[time] ** 2).sum(axis=0))
+        yield time, np.sqrt((returns.loc[[time]] ** 2).sum(axis=0))
 
 
 def MSE(returns, covariances):
-- 
2.43.0


From eb33c6a916a32b2c65458bfe8fb2d84c7ccad127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:13 +0000
Subject: [PATCH 15/16] fix: maximum-Sharpe backtests read an attribute that no
 longer exists

---
 experiments/utils/trading_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index f939fe6..bf6b2c0 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -193,7 +193,7 @@ class Trader:
         param r_hat: return
 
         """
-        L_inv_param.value = L_inv.T
+        L_inv_param.value = L_inv
         r_hat_param.value = r_hat
         prob.solve(solver="ECOS")
 
@@ -536,7 +536,7 @@ class Trader:
             prob = cp.Problem(cp.Minimize(obj), cons)
 
             # Solve problem once to speed up later solves
-            L_inv_param.value = [*self.Lt_inv_hats.values()][0].T
+            L_inv_param.value = [*self.L_inv_hats.values()][0]
             r_hat_param.value = np.ones((self.n, 1))
             prob.solve(solver="ECOS")
 
@@ -555,7 +555,7 @@ class Trader:
                     all_z,
                     all_L_inv_param,
                     all_r_hat_param,
-                    [*self.Lt_inv_hats.values()],
+                    [*self.L_inv_hats.values()],
                     all_r_hats,
                 ),
             )
-- 
2.43.0


From 9bf7f26c534c022bcffdebb174e5b4fb037f3c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:22 +0000
Subject: [PATCH 16/16] fix: the PRESCIENT row of the performance table carried
 another strategy's name

---
 experiments/utils/portfolio_backtests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/portfolio_backtests.py b/experiments/utils/portfolio_backtests.py
index bea7078..ce9a14f 100644
--- a/experiments/utils/portfolio_backtests.py
+++ b/experiments/utils/portfolio_backtests.py
@@ -48,7 +48,7 @@ def _create_table_helper(metrics, prescient=True):
         metric = metrics["PRESCIENT"]
         print(
             "   {} & {:.1f}\\% & {:.1f}\\% & {:.1f} & {:.0f}\\% \\\\".format(
-                name,
+                "PRESCIENT",
                 metric.mean_return * 100,
                 metric.risk * 100,
                 metric.sharpe,
-- 
2.43.0

