From e09bed5495caea0b867040116726262cc2797706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 01/99] fix: robust SOC block must use L^T so the reported
 radius equals sqrt(w' S w)

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 77e65fe..425cfd3 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -868,7 +868,7 @@ class RobustOptimizer(_BaseOptimization):
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
         G_soc = np.zeros((n + 1, n_vars))
         G_soc[0, n] = -1
-        G_soc[1:, :n] = -self._s_sqrt
+        G_soc[1:, :n] = -self._s_sqrt.T  # S = L L^T, hence ||L^T w||_2 = sqrt(w' S w)
         h_soc = np.zeros(n + 1)
 
         # --- linear inequalities ----------------------------------- #
-- 
2.43.0


From 80d2900dfb88037950bf9b570c79f48e66ab7b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 02/99] fix: relaxed risk parity cone uses L^T and a gamma
 floor normalised like psi, so lambda=0 gives equal risk contributions

---
 pyvallocation/optimization.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 425cfd3..d79fbb9 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -987,7 +987,7 @@ class RelaxedRiskParity(_BaseOptimization):
             A, b: Equality constraints ``A w = b``.
             risk_budgets: Optional target risk budgets :math:`b_i > 0` with
                 :math:`\\sum b_i = 1`.  When provided, the ARC floor becomes
-                :math:`x_i \\zeta_i \\ge b_i \\gamma^2` (risk budgeting).
+                :math:`x_i \\zeta_i \\ge n\\,b_i \\gamma^2` (risk budgeting).
                 When ``None`` (default), equal budgets :math:`b_i = 1/N` are
                 used, recovering the standard ERC portfolio.
         """
@@ -1145,7 +1145,7 @@ class RelaxedRiskParity(_BaseOptimization):
 
         G1 = np.zeros((n + 1, n_vars), dtype=float)
         G1[0, q_idx] = -1.0
-        G1[1:, x_slice] = -self._chol
+        G1[1:, x_slice] = -self._chol.T  # Sigma = L L^T, hence ||L^T x||_2 = sqrt(x' Sigma x)
         G_soc_all.append(G1)
         h_soc_all.append(np.zeros(n + 1, dtype=float))
         soc_dims.append(n + 1)
@@ -1168,13 +1168,14 @@ class RelaxedRiskParity(_BaseOptimization):
             h_soc_all.append(np.zeros(n + 1, dtype=float))
             soc_dims.append(n + 1)
 
-        # ARC floor: x_i * zeta_i >= b_i * gamma^2
-        # Encoded via rotated SOC: sqrt(4*b_i*gamma^2 + (x_i - zeta_i)^2) <= x_i + zeta_i
+        # ARC floor: x_i * zeta_i >= n * b_i * gamma^2 (gamma^2 for equal budgets), which
+        # shares the 1/n normalisation of psi so that psi == gamma exactly at risk parity.
+        # Encoded via rotated SOC: sqrt(4*n*b_i*gamma^2 + (x_i - zeta_i)^2) <= x_i + zeta_i
         for i in range(n):
             block = np.zeros((3, n_vars), dtype=float)
             block[0, x_slice.start + i] = -1.0
             block[0, zeta_slice.start + i] = -1.0
-            block[1, gamma_idx] = -2.0 * np.sqrt(self._risk_budgets[i])
+            block[1, gamma_idx] = -2.0 * np.sqrt(n * self._risk_budgets[i])
             block[2, x_slice.start + i] = -1.0
             block[2, zeta_slice.start + i] = 1.0
             G_soc_all.append(block)
-- 
2.43.0


From acc475ef7077cd766707ac2f5afc6c019d3ce288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 03/99] fix: relaxed risk parity return cap keeps the implied
 budget when only other equalities are given

---
 pyvallocation/optimization.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index d79fbb9..3f42083 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1287,11 +1287,15 @@ class RelaxedRiskParity(_BaseOptimization):
         h_lp_vals.append(np.zeros(n, dtype=float))
         G_lp = np.vstack(G_lp_rows)
         h_lp = np.hstack(h_lp_vals)
-        if A_user is None:
-            A_lp = np.ones((1, n), dtype=float)
-            b_lp = np.array([1.0], dtype=float)
-        else:
-            A_lp, b_lp = A_user, b_user
+        A_lp = np.ones((1, n), dtype=float)
+        b_lp = np.array([1.0], dtype=float)
+        if A_user is not None:
+            # same rule as the SOCP: the unit budget is implied unless a budget row is given
+            if any(np.allclose(row, 1.0, atol=1e-8, rtol=1e-8) for row in A_user):
+                A_lp, b_lp = A_user, b_user
+            else:
+                A_lp = np.vstack([A_lp, A_user])
+                b_lp = np.hstack([b_lp, b_user])
 
         sol_lp = solvers.lp(
             matrix(-self._mean),
-- 
2.43.0


From 4c58f2ccce73c5f9164c650c3000c1c4490b4424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 04/99] fix: constraint right-hand sides are always floating
 point

---
 pyvallocation/utils/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/constraints.py b/pyvallocation/utils/constraints.py
index c5bc199..0084e05 100644
--- a/pyvallocation/utils/constraints.py
+++ b/pyvallocation/utils/constraints.py
@@ -361,7 +361,7 @@ def build_G_h_A_b(
 
     G = _stack(G_rows)
     h = (
-        np.asarray(h_vals)
+        np.asarray(h_vals, float)
         if h_vals
         else (None if return_none_if_empty else np.zeros(0))
     )
-- 
2.43.0


From 09fdbd51fbc7b81b72ea8e5bc857bccae36b1bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 05/99] fix: max_sharpe homogenises constraint right-hand sides
 instead of dropping them

---
 pyvallocation/optimization.py | 83 ++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 41 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 3f42083..f6c00ea 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -443,72 +443,73 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
     def max_sharpe(self, risk_free_rate: float = 0.0) -> OptimizationResult:
         r"""Solve directly for the maximum Sharpe ratio portfolio.
 
-        Uses the Cornuejols-Tütüncü (2007) reformulation:
+        Uses the Cornuejols-Tütüncü (2007) reformulation with the homogenising
+        scalar :math:`\kappa \ge 0`:
 
         .. math::
 
-           \min_{y}\; y^\top \Sigma\, y
+           \min_{y,\kappa}\; y^\top \Sigma\, y
            \quad\text{s.t.}\quad
-           (\mu - r_f)^\top y = 1,\; G\,y \le 0,\; A\,y = 0
+           \mu^\top y - r_f\,\kappa = 1,\; G\,y \le \kappa\,h,\; A\,y = \kappa\,b
 
-        The optimal weights are ``w = y / \mathbf{1}^\top y``.
+        The optimal weights are ``w = y / \kappa``. A unit budget
+        :math:`\mathbf{1}^\top w = 1` is implied unless ``A`` already fixes the
+        budget.
 
         Args:
             risk_free_rate: Risk-free rate for Sharpe computation.
 
         Returns:
             OptimizationResult: Optimal weights, return, and volatility.
+
+        Raises:
+            InfeasibleOptimizationError: If no feasible portfolio has a positive
+                excess return.
         """
-        mu_excess = np.asarray(self._mean).ravel() - risk_free_rate
+        mean = np.asarray(self._mean).ravel()
         N = self._I
 
-        # Build the auxiliary problem: min y'Σy s.t. (μ-rf)'y = 1
-        P = matrix(2.0 * np.asarray(self._cov, dtype=float))
-        q = matrix(np.zeros(N))
+        # variables: y (N) | kappa, measured in units of 1 / scale so that kappa is of order one
+        scale = float(np.max(np.abs(mean - risk_free_rate))) or 1.0
+        P = np.zeros((N + 1, N + 1))
+        P[:N, :N] = 2.0 * np.asarray(self._cov, dtype=float) / scale**2
 
-        # Equality: (μ-rf)'y = 1  +  any user equalities scaled to 0
-        A_rows = [mu_excess.reshape(1, -1)]
+        A_rows = [np.append(mean, -risk_free_rate) / scale]
         b_vals = [1.0]
+        budget_given = False
         if self._A is not None:
-            # User equalities become homogeneous: A y = 0 (since we normalize later).
-            # Non-homogeneous constraints (b != 0) cannot be enforced in this
-            # reformulation (Cornuejols-Tutuncu) and are skipped with a warning.
-            A_np = np.asarray(self._A)
-            b_np = np.asarray(self._b).ravel()
-            for row_idx in range(A_np.shape[0]):
-                if not np.isclose(b_np[row_idx], 0.0, atol=1e-12):
-                    _LOGGER.warning(
-                        "max_sharpe: equality b[%d]=%.4g is non-homogeneous; "
-                        "skipping (cannot be enforced in Cornuejols-Tutuncu "
-                        "reformulation).",
-                        row_idx, b_np[row_idx],
-                    )
-                    continue
-                A_rows.append(A_np[row_idx:row_idx+1])
+            for row, rhs in zip(np.asarray(self._A), np.asarray(self._b).ravel()):
+                A_rows.append(np.append(row, -rhs))
                 b_vals.append(0.0)
+                budget_given |= bool(rhs != 0.0 and row[0] != 0.0 and np.allclose(row, row[0]))
+        if not budget_given:
+            A_rows.append(np.append(np.ones(N), -1.0))
+            b_vals.append(0.0)
 
-        A_mat = matrix(np.vstack(A_rows))
-        b_vec = matrix(np.array(b_vals, dtype=float))
-
-        # Inequalities: G y <= 0 (homogeneous version of G w <= h)
+        G_rows = [np.append(np.zeros(N), -1.0)[None, :]]
         if self._G is not None:
-            G_mat = matrix(np.asarray(self._G, dtype=float))
-            h_vec = matrix(np.zeros(np.asarray(self._G).shape[0]))
-        else:
-            G_mat = None
-            h_vec = None
+            G_rows.append(
+                np.column_stack([np.asarray(self._G, dtype=float), -np.asarray(self._h, dtype=float).ravel()])
+            )
+        G_mat = np.vstack(G_rows)
 
-        sol = solvers.qp(P, q, G_mat, h_vec, A_mat, b_vec)
+        try:
+            sol = solvers.qp(
+                matrix(P), matrix(np.zeros(N + 1)),
+                matrix(G_mat), matrix(np.zeros(G_mat.shape[0])),
+                matrix(np.vstack(A_rows)), matrix(np.array(b_vals, dtype=float)),
+            )
+        except (ArithmeticError, ValueError) as exc:
+            raise InfeasibleOptimizationError("Max Sharpe portfolio is infeasible.") from exc
         if sol["status"] != "optimal":
             raise InfeasibleOptimizationError("Max Sharpe portfolio is infeasible.")
 
-        y = np.asarray(sol["x"]).ravel()
-        y_sum = y.sum()
-        if abs(y_sum) < 1e-12:
-            raise InfeasibleOptimizationError("Max Sharpe portfolio has zero weight sum (degenerate).")
+        x = np.asarray(sol["x"]).ravel()
+        if x[N] < 1e-12:
+            raise InfeasibleOptimizationError("Max Sharpe portfolio is degenerate (unbounded scale).")
 
-        w = y / y_sum
-        ret = float(np.dot(np.asarray(self._mean).ravel(), w))
+        w = x[:N] / x[N]
+        ret = float(np.dot(mean, w))
         risk = float(np.sqrt(w @ np.asarray(self._cov, dtype=float) @ w))
         return OptimizationResult(weights=w, nominal_return=ret, risk=risk)
 
-- 
2.43.0


From eb2c357546041caf1cbd9a8218dbf7e32aa98314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 06/99] fix: rank_mean no longer adds its ranking views to the
 caller's mean_views dict

---
 pyvallocation/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 549c53f..c96584b 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -585,7 +585,7 @@ class FlexibleViewsProcessor:
             if vec_like is None:
                 return {}
             if isinstance(vec_like, dict):
-                return vec_like
+                return dict(vec_like)  # copied: rank_mean adds entries below
             vec = np.asarray(vec_like, float).ravel()
             if vec.size != len(self.assets):
                 raise ValueError(f"`{name}` must have length {len(self.assets)} matching the number of assets.")
-- 
2.43.0


From 30d1f50dca1e96437a5addce9f22119da7e31590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 07/99] fix: Black-Litterman no longer rescales the caller's
 market weights in place

---
 pyvallocation/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index c96584b..aeede55 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1346,7 +1346,7 @@ class BlackLittermanProcessor:
             weights = np.asarray(market_weights, dtype=float).ravel()
             if weights.size != n_assets:
                 raise ValueError("market_weights length mismatch.")
-            weights /= weights.sum()
+            weights = weights / weights.sum()
             self._pi = risk_aversion * self._sigma @ weights.reshape(-1, 1)
             src = "\\delta \\Sigma w"
         elif prior_mean is not None:
-- 
2.43.0


From 782813f8921c55518f5f7394dc9a07cc76bdc9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 08/99] fix: keep the sign of CVaR on frontiers so that
 portfolios with a tail gain rank as least risky

---
 pyvallocation/portfolioapi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 40eb604..0c9e208 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -780,8 +780,8 @@ class PortfolioWrapper:
                     if self.dist.probabilities is not None
                     else generate_uniform_probabilities(scen.shape[0])
                 )
-                alt[f"CVaR ({int(confidence*100)}%)"] = np.abs(
-                    np.asarray(portfolio_cvar(weights, scen, probs, confidence=confidence))
+                alt[f"CVaR ({int(confidence*100)}%)"] = np.asarray(
+                    portfolio_cvar(weights, scen, probs, confidence=confidence)
                 ).reshape(-1)
             except Exception as exc:  # pragma: no cover
                 logger.debug("CVaR overlay skipped: %s", exc)
@@ -1371,7 +1371,7 @@ class PortfolioWrapper:
         )
         weights = optimizer.efficient_frontier(num_portfolios)
         returns = mu_for_frontier @ weights
-        risks = np.abs(np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))).reshape(-1)
+        risks = np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)).reshape(-1)
         raw_risks = risks.copy()
         alternate_risks: Dict[str, np.ndarray] = {}
         try:
@@ -1538,7 +1538,7 @@ class PortfolioWrapper:
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
             try:
-                alt_cvar = np.abs(np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95))).reshape(-1)
+                alt_cvar = np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95)).reshape(-1)
                 alternate_risks["CVaR (95%)"] = alt_cvar
             except Exception as exc:  # pragma: no cover
                 logger.debug("Unable to compute CVaR overlay for robust frontier: %s", exc)
@@ -1664,7 +1664,7 @@ class PortfolioWrapper:
             ) from e
 
         actual_return = mu_for_cvar @ weights
-        risk = float(np.abs(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)))
+        risk = float(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))
 
         w_series = pd.Series(weights, index=self.dist.asset_names, name=f"CVaR Portfolio (Return >= {return_target:.4f})")
 
-- 
2.43.0


From f345a0b8c7b6a858e146c7e73332fb8d8316d7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 09/99] fix: scenario_pnl rejects weights that lack a scenario
 asset instead of returning NaN

---
 pyvallocation/utils/performance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index e5d1fab..b900e64 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -66,10 +66,14 @@ def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
     if isinstance(weights, pd.Series):
         if columns is not None and list(weights.index) != columns:
             weights = weights.reindex(columns)
+        if weights.isna().any():
+            raise ValueError("Weight labels do not match scenario asset names after reindexing.")
         w = weights.to_numpy(dtype=float).reshape(-1, 1)
     elif isinstance(weights, pd.DataFrame):
         if columns is not None and list(weights.index) != columns:
             weights = weights.reindex(columns)
+        if weights.isna().any().any():
+            raise ValueError("Weight labels do not match scenario asset names after reindexing.")
         w = weights.to_numpy(dtype=float)
     else:
         arr_w = np.asarray(weights, dtype=float)
-- 
2.43.0


From 2dee03e79b4a72ce630e86f4836a0c3fc5f0b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 10/99] fix: align labelled transaction-cost series to the
 asset order

---
 pyvallocation/portfolioapi.py | 54 +++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 0c9e208..1f64419 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1117,27 +1117,41 @@ class PortfolioWrapper:
         Args:
             costs: Transaction cost specification.
         """
-        iw = np.asarray(costs.initial_weights, dtype=float).ravel()
-        if iw.shape != (self.dist.N,):
-            raise ValueError(
-                f"`initial_weights` must have shape ({self.dist.N},), got {iw.shape}"
-            )
-        self.initial_weights = iw
-        if costs.market_impact_costs is not None:
-            mic = np.asarray(costs.market_impact_costs, dtype=float).ravel()
-            if mic.shape != (self.dist.N,):
-                raise ValueError(
-                    f"`market_impact_costs` must have shape ({self.dist.N},), got {mic.shape}"
-                )
+        self.initial_weights, mic, pc = self._cost_vectors(costs)
+        if mic is not None:
             self.market_impact_costs = mic
-        if costs.proportional_costs is not None:
-            pc = np.asarray(costs.proportional_costs, dtype=float).ravel()
-            if pc.shape != (self.dist.N,):
-                raise ValueError(
-                    f"`proportional_costs` must have shape ({self.dist.N},), got {pc.shape}"
-                )
+        if pc is not None:
             self.proportional_costs = pc
 
+    def _cost_vectors(
+        self, costs: TransactionCosts
+    ) -> Tuple[np.ndarray, Optional[np.ndarray], Optional[np.ndarray]]:
+        """Return ``(initial_weights, market_impact_costs, proportional_costs)`` in asset order.
+
+        Series labelled by asset are aligned to the distribution's asset names;
+        Series that carry only a default integer index are read by position.
+        """
+        names = self.dist.asset_names
+
+        def vector(value, field_name: str) -> Optional[np.ndarray]:
+            if value is None:
+                return None
+            if isinstance(value, pd.Series) and names is not None and list(value.index) != names:
+                if value.index.is_unique and set(value.index) == set(names):
+                    value = value.reindex(names)
+                elif not isinstance(value.index, pd.RangeIndex):
+                    raise ValueError(f"`{field_name}` labels do not match the asset names.")
+            arr = np.asarray(value, dtype=float).ravel()
+            if arr.shape != (self.dist.N,):
+                raise ValueError(f"`{field_name}` must have shape ({self.dist.N},), got {arr.shape}")
+            return arr
+
+        return (
+            vector(costs.initial_weights, "initial_weights"),
+            vector(costs.market_impact_costs, "market_impact_costs"),
+            vector(costs.proportional_costs, "proportional_costs"),
+        )
+
     def _resolve_constraints(
         self,
         constraints: Union[Constraints, Dict[str, Any], None],
@@ -1165,9 +1179,7 @@ class PortfolioWrapper:
                 G, h, A, b = self.G, self.h, self.A, self.b
 
         if costs is not None:
-            iw = np.asarray(costs.initial_weights, dtype=float).ravel()
-            mic = np.asarray(costs.market_impact_costs, dtype=float).ravel() if costs.market_impact_costs is not None else None
-            pc = np.asarray(costs.proportional_costs, dtype=float).ravel() if costs.proportional_costs is not None else None
+            iw, mic, pc = self._cost_vectors(costs)
         else:
             iw = self.initial_weights
             mic = self.market_impact_costs
-- 
2.43.0


From 415e605f99a719f24c20061f717dc71baa71fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 11/99] fix: min_risk ensemble selector keeps its risk_label
 when a spec is reused

---
 pyvallocation/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 625ca2b..4bf7362 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -981,6 +981,7 @@ def _build_selector(
         return _tangency
 
     if key in {"min_risk", "minimum_risk"}:
+        risk_label = selector_kwargs.pop("risk_label", None)
 
         def _min(frontier: "PortfolioFrontier") -> pd.Series:
             """Select the minimum-risk portfolio.
@@ -991,7 +992,6 @@ def _build_selector(
             Returns:
                 pd.Series: Minimum-risk portfolio weights.
             """
-            risk_label = selector_kwargs.pop("risk_label", None)
             weights, *_ = frontier.min_risk(risk_label=risk_label)
             return weights.rename(label)
 
-- 
2.43.0


From 58b96427372754caa329e2eee47ef99e6506dd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 12/99] fix: stress_invariants aligns labelled weights to the
 instruments when stress views are given

---
 pyvallocation/stress.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index a073219..043d746 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -528,7 +528,8 @@ def stress_invariants(
             ens = compute_effective_number_scenarios(p)
             return mean_r, stdev_r, var_r, cvar_r, ens
 
-        w_arr = np.asarray(weights, float).ravel() if not isinstance(weights, pd.Series) else weights.values
+        pnl_names = list(pnl_df.columns) if isinstance(pnl_df, pd.DataFrame) else None
+        w_arr = _align_weights(weights, pnl_names)[0].ravel()
         m_n = _metrics(pnl_nom, nom_probs, w_arr)
         m_s = _metrics(pnl_stressed, stressed_probs, w_arr)
         ci = int(round(confidence * 100))
-- 
2.43.0


From 05b04dd789e1de62bb1fc06bd512fda4a78ef2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 13/99] fix: drawdown_quantile aligns labelled weights to the
 invariant columns

---
 pyvallocation/utils/performance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index b900e64..eee60d0 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -298,6 +298,9 @@ def drawdown_quantile(
     if reprice is None:
         reprice = _reprice_exp
 
+    if isinstance(weights, pd.Series) and isinstance(invariants, pd.DataFrame):
+        if set(weights.index) == set(invariants.columns):
+            weights = weights.reindex(invariants.columns)
     w = np.asarray(weights, dtype=float).ravel()
     paths = simulate_paths(
         invariants, horizon=horizon, n_paths=n_paths,
-- 
2.43.0


From ed712c72900b0e8a8c83e0ba81b5f1f006657e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 14/99] fix: exact simple-return Jacobian scales the return
 covariance linearly with the horizon

---
 pyvallocation/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 392d28e..bee2c74 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -758,7 +758,7 @@ class RobustBayesPosterior:
         mu_log = mu_np * annualization_factor
         s_mu_log = s_mu_np * (annualization_factor ** 2)
         if exact:
-            sigma_log = sigma_np * (annualization_factor ** 2)
+            sigma_log = sigma_np * annualization_factor  # return covariance grows linearly
             scale = np.exp(mu_log + 0.5 * np.diag(sigma_log))
         else:
             scale = np.exp(mu_log)
-- 
2.43.0


From 2e98ef75db2f6f9a30f0c18c53d11a268bc64d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 15/99] fix: align labelled Black-Litterman and view inputs to
 the asset order; allow a single risk driver

---
 pyvallocation/portfolioapi.py  |  8 ++------
 pyvallocation/utils/weights.py | 25 +++++++++++++++++++++++++
 pyvallocation/views.py         | 16 ++++++++++++++--
 3 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 1f64419..8ea5fa7 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -23,7 +23,7 @@ from .optimization import (
 )
 from .probabilities import generate_uniform_probabilities
 from .utils.functions import portfolio_cvar
-from .utils.weights import wrap_exposure_vector
+from .utils.weights import align_labelled_vector, wrap_exposure_vector
 
 if TYPE_CHECKING:
     from .ensembles import EnsembleResult, EnsembleSpec
@@ -1136,11 +1136,7 @@ class PortfolioWrapper:
         def vector(value, field_name: str) -> Optional[np.ndarray]:
             if value is None:
                 return None
-            if isinstance(value, pd.Series) and names is not None and list(value.index) != names:
-                if value.index.is_unique and set(value.index) == set(names):
-                    value = value.reindex(names)
-                elif not isinstance(value.index, pd.RangeIndex):
-                    raise ValueError(f"`{field_name}` labels do not match the asset names.")
+            value = align_labelled_vector(value, names, field_name)
             arr = np.asarray(value, dtype=float).ravel()
             if arr.shape != (self.dist.N,):
                 raise ValueError(f"`{field_name}` must have shape ({self.dist.N},), got {arr.shape}")
diff --git a/pyvallocation/utils/weights.py b/pyvallocation/utils/weights.py
index 212ef7e..3e025cd 100644
--- a/pyvallocation/utils/weights.py
+++ b/pyvallocation/utils/weights.py
@@ -18,6 +18,7 @@ ArrayLike = Union[np.ndarray, pd.DataFrame, pd.Series]
 
 __all__ = [
     "ArrayLike",
+    "align_labelled_vector",
     "ensure_samples_matrix",
     "wrap_exposure_vector",
     "normalize_weights",
@@ -84,6 +85,30 @@ def wrap_exposure_vector(
     return pd.Series(array, index=asset_names, name=label)
 
 
+def align_labelled_vector(vector, names: Optional[Sequence], field_name: str):
+    """Reorder a labelled Series to ``names``; other inputs are returned unchanged.
+
+    Args:
+        vector: Series or array-like with one entry per name.
+        names: Reference labels, or ``None`` when positions are all there is.
+        field_name: Name used in error messages.
+
+    Returns:
+        The input, reordered when it is a Series carrying the same labels in
+        another order. A Series with only a default integer index is positional.
+
+    Raises:
+        ValueError: If the Series carries labels other than ``names``.
+    """
+    if not isinstance(vector, pd.Series) or names is None or list(vector.index) == list(names):
+        return vector
+    if vector.index.is_unique and set(vector.index) == set(names):
+        return vector.reindex(list(names))
+    if isinstance(vector.index, pd.RangeIndex):
+        return vector
+    raise ValueError(f"`{field_name}` labels do not match the asset names.")
+
+
 def normalize_weights(
     weights: Optional[Union[Sequence[float], pd.Series]],
     num_samples: int,
diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index aeede55..a780d53 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -11,6 +11,7 @@ from scipy.optimize import Bounds, minimize
 
 from .bayesian import _cholesky_pd
 from .probabilities import normalize_probability_vector
+from .utils.weights import align_labelled_vector
 
 # ---------------------------------------------------------------------------
 # View helper functions — readable shortcuts for constraint operators
@@ -528,6 +529,8 @@ class FlexibleViewsProcessor:
                 self._use_pandas = False
 
             if isinstance(prior_cov, pd.DataFrame):
+                if self._use_pandas and prior_cov.index.is_unique and set(prior_cov.index) == set(self.assets):
+                    prior_cov = prior_cov.reindex(index=self.assets, columns=self.assets)
                 cov = prior_cov.values.astype(float)
                 if not self._use_pandas:
                     self.assets = list(prior_cov.index)
@@ -569,7 +572,7 @@ class FlexibleViewsProcessor:
             self.p0 = np.full((S, 1), 1.0 / S)
 
         self.mu0 = (self.R.T @ self.p0).flatten()
-        self.cov0 = np.cov(self.R.T, aweights=self.p0.flatten(), bias=True)
+        self.cov0 = np.atleast_2d(np.cov(self.R.T, aweights=self.p0.flatten(), bias=True))
         self.var0 = np.diag(self.cov0)
 
         def _vec_to_dict(vec_like, name):
@@ -586,6 +589,8 @@ class FlexibleViewsProcessor:
                 return {}
             if isinstance(vec_like, dict):
                 return dict(vec_like)  # copied: rank_mean adds entries below
+            if self._use_pandas:
+                vec_like = align_labelled_vector(vec_like, self.assets, name)
             vec = np.asarray(vec_like, float).ravel()
             if vec.size != len(self.assets):
                 raise ValueError(f"`{name}` must have length {len(self.assets)} matching the number of assets.")
@@ -617,7 +622,7 @@ class FlexibleViewsProcessor:
 
         q = self.posterior_probabilities
         mu_post = (self.R.T @ q).flatten()
-        cov_post = np.cov(self.R.T, aweights=q.flatten(), bias=True)
+        cov_post = np.atleast_2d(np.cov(self.R.T, aweights=q.flatten(), bias=True))
 
         if self._use_pandas:
             self.posterior_returns = pd.Series(mu_post, index=self.assets)
@@ -1339,6 +1344,13 @@ class BlackLittermanProcessor:
             raise ValueError("risk_aversion must be positive.")
         self._tau: float = float(tau)
 
+        # Labelled inputs follow the covariance's asset order, not their own.
+        names = self._assets if self._is_pandas else None
+        pi = align_labelled_vector(pi, names, "pi")
+        market_weights = align_labelled_vector(market_weights, names, "market_weights")
+        prior_mean = align_labelled_vector(prior_mean, names, "prior_mean")
+        mean_views = align_labelled_vector(mean_views, names, "mean_views")
+
         if pi is not None:
             self._pi = np.asarray(pi, dtype=float).reshape(-1, 1)
             src = "user \\pi"
-- 
2.43.0


From bb2c6c8e76e7456d85ee72c5a80a8b1073caeda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 16/99] fix: NIW update aligns labelled sample statistics to
 the prior's assets

---
 pyvallocation/bayesian.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index bee2c74..074cd02 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -10,6 +10,8 @@ from scipy import linalg as sla
 from scipy.stats import chi2
 import pandas as pd
 
+from .utils.weights import align_labelled_vector
+
 
 def _to_numpy(x: Union[npt.NDArray[np.floating], pd.Series, pd.DataFrame]) -> npt.NDArray[np.floating]:
     """Return ``x`` as a NumPy array with ``float`` dtype.
@@ -350,6 +352,17 @@ class NIWPosterior:
                 "Posterior already computed. Create a new NIWPosterior for a fresh update."
             )
 
+        # Labelled sample statistics follow the prior's asset order, not their own
+        if self._asset_index is not None:
+            sample_mu = align_labelled_vector(sample_mu, list(self._asset_index), "sample_mu")
+            if isinstance(sample_sigma, pd.DataFrame) and not (
+                sample_sigma.index.equals(self._asset_index) and sample_sigma.columns.equals(self._asset_index)
+            ):
+                if set(sample_sigma.index) == set(self._asset_index) == set(sample_sigma.columns):
+                    sample_sigma = sample_sigma.reindex(index=self._asset_index, columns=self._asset_index)
+                elif not isinstance(sample_sigma.index, pd.RangeIndex):
+                    raise ValueError("Index/columns of `sample_sigma` must match the prior's asset names.")
+
         # Convert pandas inputs if present
         if isinstance(sample_mu, pd.Series):
             smu = sample_mu.values.astype(float)
-- 
2.43.0


From 61e0332a2d329e7acd7b7aee0ec8dbf1475e06c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 17/99] fix: MILP allocation bounds let short-sale proceeds
 fund long positions above total_value

---
 pyvallocation/discrete_allocation.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 847eb63..0dac583 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -372,26 +372,21 @@ def allocate_mip(
         [cash_penalty],
     ])
 
-    max_shares_per_lot = np.where(price_per_lot > 0, np.floor(inputs.total_value / price_per_lot).astype(int), 0)
-    max_shares_per_lot = np.clip(max_shares_per_lot + 1, 0, None)
-
-    # With short positions, short-sale proceeds can push leftover cash
-    # above total_value, so the upper bound must account for the maximum
-    # possible proceeds from negative lots.
-    short_proceeds_max = float(
-        np.sum(np.where(weights.values < 0, max_shares_per_lot * price_per_lot, 0.0))
-    )
+    # Short-sale proceeds fund long positions larger than total_value and can
+    # push leftover cash above it, so both bounds must account for them.
+    gross_value = float(max(inputs.total_value, np.abs(target_values).sum()))
+    short_lots = np.where(weights.values < 0, np.floor(gross_value / price_per_lot) + 1, 0.0)
+    short_proceeds_max = float(np.sum(short_lots * price_per_lot))
+    long_lots = np.floor((inputs.total_value + short_proceeds_max) / price_per_lot) + 1
     effective_cash_ub = inputs.total_value + short_proceeds_max
     upper_cash = effective_cash_ub if max_cash is None else min(max_cash, effective_cash_ub)
 
     # Allow negative lots for short positions
-    lot_lb = np.where(
-        weights.values >= 0, 0.0, -max_shares_per_lot.astype(float)
-    )
+    lot_lb = np.where(weights.values >= 0, 0.0, -short_lots)
     lb = np.concatenate([lot_lb, np.zeros(n + 1)])  # u and r stay >= 0
     ub = np.concatenate([
-        max_shares_per_lot.astype(float),
-        np.full(n, inputs.total_value, dtype=float),
+        long_lots,
+        np.full(n, np.inf),
         [upper_cash],
     ])
     bounds = optimize.Bounds(lb, ub)
-- 
2.43.0


From 6cf6c86d5a10a4745392ce52fafbb43a1169e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 18/99] fix: discrete allocation rejects non-finite weights,
 prices and total value

---
 pyvallocation/discrete_allocation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 0dac583..ed9bb0b 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -102,6 +102,8 @@ class DiscreteAllocationInput:
             missing_str = ", ".join(sorted(missing_prices))
             raise ValueError(f"Missing latest prices for assets: {missing_str}")
 
+        if not np.isfinite(weights).all():
+            raise ValueError("All weights must be finite.")
         weights = weights.loc[~np.isclose(weights, 0.0)]
         if weights.empty:
             raise ValueError("`weights` must contain at least one non-zero entry.")
@@ -111,9 +113,11 @@ class DiscreteAllocationInput:
         latest_prices = latest_prices.reindex(weights.index)
         if (latest_prices <= 0).any():
             raise ValueError("All latest prices must be strictly positive.")
+        if not np.isfinite(latest_prices).all():
+            raise ValueError("All latest prices must be finite.")
 
-        if self.total_value <= 0:
-            raise ValueError("`total_value` must be positive.")
+        if self.total_value <= 0 or not np.isfinite(self.total_value):
+            raise ValueError("`total_value` must be positive and finite.")
 
         lot_sizes = _lot_sizes_to_series(self.lot_sizes, weights.index)
 
-- 
2.43.0


From 618b4e3705dbae47c4ff92f7b167a1e8ac040c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 19/99] fix: Ledoit-Wolf shrinkage intensity follows the
 published formulas (it was always zero)

---
 pyvallocation/moments.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 2503484..0d41ab8 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -330,12 +330,13 @@ def shrink_covariance_ledoit_wolf(
         The function calculates various components of the Ledoit-Wolf formula:
 
         *   `F`: The target matrix.
-        *   `pi_mat`, `pi_hat`, `diag_pi`, `off_pi`, `rho_hat`: Components related
-            to the estimation of the optimal shrinkage intensity.
+        *   `pi_hat`, `rho_hat`: Asymptotic variance of the sample covariance and
+            its asymptotic covariance with the target (zero for ``"identity"``),
+            summed over all entries.
         *   `gamma_hat`: The squared Frobenius norm of the difference between
             the sample covariance and the target matrix.
-        *   `kappa`: Intermediate value for shrinkage intensity.
-        *   `delta`: The optimal shrinkage intensity, clipped between 0 and 1.
+        *   `delta`: The optimal shrinkage intensity
+            ``(pi_hat - rho_hat) / (T * gamma_hat)``, clipped between 0 and 1.
 
         The final shrunk covariance matrix is ensured to be positive semi-definite
         using `ensure_psd_matrix`.
@@ -357,31 +358,32 @@ def shrink_covariance_ledoit_wolf(
         F = np.eye(N) * np.trace(S_arr) / N
     elif target == "constant_correlation":
         std = np.sqrt(np.diag(S_arr))
-        corr = S_arr / np.outer(std, std)
-        r_bar = (corr.sum() - N) / (N * (N - 1))
+        inv_std = np.divide(1.0, std, out=np.zeros(N), where=std > 0)
+        corr = S_arr * np.outer(inv_std, inv_std)
+        r_bar = (corr.sum() - np.trace(corr)) / max(N * (N - 1), 1)
         F = r_bar * np.outer(std, std)
         np.fill_diagonal(F, np.diag(S_arr))
     else:
         logger.error("Unsupported shrinkage target: %s", target)
         raise ValueError("Unsupported target: " + target)
 
-    M = X[:, :, None] * X[:, None, :]
-    pi_mat = np.mean((M - S_arr) ** 2, axis=0)
-    pi_hat = np.mean(pi_mat)
-    diag_pi = np.trace(pi_mat)
-    off_pi = pi_hat - diag_pi
+    deviations = X[:, :, None] * X[:, None, :] - S_arr
+    pi_mat = np.mean(deviations**2, axis=0)
+    pi_hat = pi_mat.sum()
 
     if target == "identity":
-        rho_hat = diag_pi
+        # Ledoit-Wolf (2004): the target is fixed up to scale.
+        rho_hat = 0.0
     else:
-        rho_hat = diag_pi + ((F - np.diag(np.diag(F))).sum() / (N * (N - 1))) * off_pi
+        # Ledoit-Wolf (2003): the target's correlations use the sample variances.
+        variance_deviations = np.einsum("tii->ti", deviations)
+        theta = np.einsum("ti,tij->ij", variance_deviations, deviations) / T
+        off_diagonal = np.outer(inv_std, std) * theta
+        rho_hat = np.trace(pi_mat) + r_bar * (off_diagonal.sum() - np.trace(off_diagonal))
 
     gamma_hat = np.linalg.norm(S_arr - F, "fro") ** 2
-    kappa = (pi_hat - rho_hat) / gamma_hat
-    # For identity target: delta = kappa (Ledoit-Wolf 2004, Eq. 2).
-    # For constant_correlation target: delta = kappa / T (variant that accounts
-    # for the larger number of estimated parameters in the structured target).
-    delta = float(np.clip(kappa if target == "identity" else kappa / T, 0.0, 1.0))
+    # A sample covariance equal to the target leaves nothing to shrink.
+    delta = float(np.clip((pi_hat - rho_hat) / (T * gamma_hat), 0.0, 1.0)) if gamma_hat > 0 else 0.0
 
     Sigma = ensure_psd_matrix(delta * F + (1 - delta) * S_arr)
     Sigma = (Sigma + Sigma.T) / 2
-- 
2.43.0


From c5f4d5ec3259ca6402f09a2dfa02c6357958e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 20/99] fix: Tyler's estimator is scale-equivariant, so
 small-scale returns keep its robustness

---
 pyvallocation/moments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 0d41ab8..740e249 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -657,6 +657,8 @@ def robust_covariance_tyler(
     trace_target = np.trace(sample_cov) / max(N, 1)
     if trace_target <= 0.0:
         trace_target = 1.0
+    # The floors below are absolute, so iterate on unit-scale data.
+    X = X / np.sqrt(trace_target)
     if isinstance(target, str):
         if target != "identity":
             raise ValueError("`target` must be 'identity' or an array-like.")
-- 
2.43.0


From 942a13c9a9cf28ae517acc8d03b9dfd370739c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 21/99] fix: POET picks the number of factors before the
 eigen-gap, not inside the noise

---
 pyvallocation/moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 740e249..449ffce 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -533,7 +533,8 @@ def factor_covariance_poet(
             k_sel = 1
         else:
             diffs = np.diff(eigvals)
-            accel = diffs[:-1] - diffs[1:]
+            # the eigen-gap narrows most right after the last factor
+            accel = diffs[1:] - diffs[:-1]
             k_sel = int(np.argmax(accel) + 1)
     else:
         if k <= 0:
-- 
2.43.0


From cbe7ed1b78943ea7ec94c8af36e68bcb34335199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 22/99] fix: moment estimators accept a single asset and
 labelled probabilities

---
 pyvallocation/moments.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 449ffce..dbc37a5 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -203,9 +203,9 @@ def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, Arra
     Returns:
         Tuple[ArrayLike, ArrayLike]: A tuple containing:
             -   **mu** (ArrayLike): The weighted mean vector of asset returns.
-                If `R` or `p` were pandas objects, `mu` will be a :class:`pandas.Series`.
+                If `R` is a pandas object, `mu` will be a :class:`pandas.Series`.
             -   **S** (ArrayLike): The weighted covariance matrix of asset returns.
-                If `R` or `p` were pandas objects, `S` will be a :class:`pandas.DataFrame`.
+                If `R` is a pandas object, `S` will be a :class:`pandas.DataFrame`.
 
     Raises:
         ValueError: If `p` has a length mismatch with `R`, or if `p` contains
@@ -231,7 +231,7 @@ def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, Arra
     S = np.einsum('ti,tj,t->ij', X, X, p_arr, optimize=True)
     S = (S + S.T) / 2
 
-    labels = _labels(R, p)
+    labels = _labels(R)  # p is indexed by scenario, not by asset
     logger.debug("Estimated weighted mean and covariance matrix.")
     return _wrap(mu, labels, True), _wrap(S, labels, False)
 
@@ -521,7 +521,7 @@ def factor_covariance_poet(
     else:
         scale = np.ones(N, dtype=float)
     X_scaled = X_centered / scale
-    S_scaled = np.cov(X_scaled, rowvar=False, ddof=1)
+    S_scaled = np.atleast_2d(np.cov(X_scaled, rowvar=False, ddof=1))
     eigvals, eigvecs = np.linalg.eigh(S_scaled)
     order = np.argsort(eigvals)[::-1]
     eigvals = eigvals[order]
@@ -653,7 +653,7 @@ def robust_covariance_tyler(
         raise ValueError("`shrinkage` must lie in [0, 1].")
 
     X = X - X.mean(axis=0, keepdims=True)
-    sample_cov = np.cov(X, rowvar=False, ddof=1)
+    sample_cov = np.atleast_2d(np.cov(X, rowvar=False, ddof=1))
     sample_cov = ensure_psd_matrix(sample_cov)
     trace_target = np.trace(sample_cov) / max(N, 1)
     if trace_target <= 0.0:
@@ -1231,7 +1231,7 @@ def estimate_moments(
     if p is None:
         mu_sample = X.mean(axis=0)
         # Use ddof=0 (MLE) for consistency with estimate_sample_moments
-        S_sample = np.cov(X, rowvar=False, ddof=0)
+        S_sample = np.atleast_2d(np.cov(X, rowvar=False, ddof=0))
         mu_sample_wrapped = _wrap(mu_sample, labels, True)
         S_sample_wrapped = _wrap(S_sample, labels, False)
     else:
-- 
2.43.0


From 9c77e38663d1ca992984b35907bed1705173b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 23/99] fix: James-Stein never expands a single-asset mean away
 from its target

---
 pyvallocation/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index dbc37a5..e661858 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -980,7 +980,7 @@ def shrink_mean_james_stein(
     if quad <= 0.0:
         shrink = 0.0
     else:
-        shrink = max(0.0, 1.0 - (N - 2.0) / quad)
+        shrink = min(max(0.0, 1.0 - (N - 2.0) / quad), 1.0)
     mu_js = mu_target + shrink * diff
     return _wrap(mu_js, _labels(mu_hat, S), True)
 
-- 
2.43.0


From 02aab519102f72d37a2965f42952ba5308fd212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 24/99] fix: robust optimiser with proportional costs no longer
 crashes on its objective vector

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index f6c00ea..cbc22fd 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -863,7 +863,7 @@ class RobustOptimizer(_BaseOptimization):
         penalty = kw.get("lam", kw.get("gamma_mu"))
 
         c = np.hstack(
-            (-self._mean, penalty, (self._costs, self._costs) if self._has_costs else [])
+            (-self._mean, penalty, np.tile(self._costs, 2) if self._has_costs else [])
         )
 
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
-- 
2.43.0


From 5b776246a7830c720616facd631be3b4b1ce14cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 25/99] fix: bound GLPK's primal simplex, which can cycle for
 ever, and retry with the dual

---
 pyvallocation/optimization.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index cbc22fd..ea01f22 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -157,6 +157,21 @@ def _linear_turnover_blocks(
     )
     return c_cost, A_trade, w0
 
+
+def _solve_lp(c, G, h, A, b) -> dict:
+    """Solve an LP with GLPK, retrying with the dual simplex when the primal one cycles.
+
+    GLPK's primal simplex has no anti-cycling rule and can loop for ever on
+    degenerate programmes, so its iterations are bounded.
+    """
+    sol: dict = {}
+    for method in ("GLP_PRIMAL", "GLP_DUALP"):
+        glpk = {**solvers.options.get("glpk", {}), "meth": method, "it_lim": 10_000 + 20 * c.size[0]}
+        sol = solvers.lp(c, G, h, A, b, solver="glpk", options={**solvers.options, "glpk": glpk})
+        if sol["status"] != "unknown":
+            break
+    return sol
+
 # ------------------------------------------------------------------ #
 # Result container
 # ------------------------------------------------------------------ #
@@ -288,9 +303,7 @@ class _BaseOptimization(ABC):
         the current constraint set.  Used to anchor the **right end** of every
         efficient frontier.
         """
-        sol = solvers.lp(
-            self._expected_row.T, self._G, self._h, self._A, self._b, solver="glpk"
-        )
+        sol = _solve_lp(self._expected_row.T, self._G, self._h, self._A, self._b)
         self._assert_optimal(sol, "LP")
         return -sol["primal objective"]
 
@@ -659,7 +672,7 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
             h = matrix([-return_target]) if h is None else matrix(
                 np.append(np.asarray(h).ravel(), -return_target)
             )
-        sol = solvers.lp(self._c, G, h, self._A, self._b, solver="glpk")
+        sol = _solve_lp(self._c, G, h, self._A, self._b)
         self._assert_optimal(sol, "LP")
         return np.asarray(sol["x"]).ravel()[: self._I]
 
@@ -1298,13 +1311,6 @@ class RelaxedRiskParity(_BaseOptimization):
                 A_lp = np.vstack([A_lp, A_user])
                 b_lp = np.hstack([b_lp, b_user])
 
-        sol_lp = solvers.lp(
-            matrix(-self._mean),
-            matrix(G_lp),
-            matrix(h_lp),
-            matrix(A_lp),
-            matrix(b_lp),
-            solver="glpk",
-        )
+        sol_lp = _solve_lp(matrix(-self._mean), matrix(G_lp), matrix(h_lp), matrix(A_lp), matrix(b_lp))
         self._assert_optimal(sol_lp, "LP")
         return -sol_lp["primal objective"]
-- 
2.43.0


From edd48c3b38fc005ba7250d63b34f05e88191d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 26/99] fix: reject a non-finite CVaR return target (it aborted
 the process), tail levels outside (0, 1] and a NaN regulariser

---
 pyvallocation/optimization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index ea01f22..91e0381 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -590,6 +590,8 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         """
         R, p = np.asarray(R, float), np.asarray(p, float)
         T, N = R.shape
+        if not 0.0 < alpha <= 1.0:
+            raise ValueError("`alpha` must be a tail probability in (0, 1].")
         self._alpha = float(alpha)
         self._has_costs = initial_weights is not None and proportional_costs is not None
         super()._init_constraints(p @ R, G, h, A, b)
@@ -668,6 +670,8 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         """
         G, h = self._G, self._h
         if return_target is not None:
+            if not np.isfinite(return_target):
+                raise ValueError("`return_target` must be a finite scalar.")
             G = self._expected_row if G is None else matrix([G, self._expected_row])
             h = matrix([-return_target]) if h is None else matrix(
                 np.append(np.asarray(h).ravel(), -return_target)
@@ -1047,7 +1051,7 @@ class RelaxedRiskParity(_BaseOptimization):
         Solve the relaxed risk parity SOCP for a given ``lambda_reg`` and
         optional target return ``return_target``.
         """
-        if lambda_reg < 0:
+        if not lambda_reg >= 0:
             raise ValueError("`lambda_reg` must be non-negative.")
         if return_target is not None and (not np.isfinite(return_target)):
             raise ValueError("`return_target` must be a finite scalar.")
-- 
2.43.0


From 98b49f09b9481e4175809138b108b3254f439632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 27/99] fix: integer return targets work without inequality
 constraints

---
 pyvallocation/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 91e0381..788e991 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -423,7 +423,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         G, h = self._G, self._h
         if return_target is not None:
             G = self._expected_row if G is None else matrix([G, self._expected_row])
-            h = matrix([-return_target]) if h is None else matrix(
+            h = matrix([-float(return_target)]) if h is None else matrix(
                 np.append(np.asarray(h).ravel(), -return_target)
             )
         sol = solvers.qp(self._P, self._q, G, h, self._A, self._b)
@@ -673,7 +673,7 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
             if not np.isfinite(return_target):
                 raise ValueError("`return_target` must be a finite scalar.")
             G = self._expected_row if G is None else matrix([G, self._expected_row])
-            h = matrix([-return_target]) if h is None else matrix(
+            h = matrix([-float(return_target)]) if h is None else matrix(
                 np.append(np.asarray(h).ravel(), -return_target)
             )
         sol = _solve_lp(self._c, G, h, self._A, self._b)
-- 
2.43.0


From d899041f95cf77cca53b8de53108a05ca2b0d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 28/99] fix: mean-CVaR return targets use the distribution's
 expected returns, the ones reported

---
 pyvallocation/optimization.py | 4 +++-
 pyvallocation/portfolioapi.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 788e991..91fd987 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -576,6 +576,7 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         *,
         initial_weights: Optional[npt.NDArray[np.floating]] = None,
         proportional_costs: Optional[npt.NDArray[np.floating]] = None,
+        mean: Optional[npt.ArrayLike] = None,
     ):
         """Create a mean-CVaR optimizer instance.
 
@@ -587,6 +588,7 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
             A, b: Equality constraints ``A w = b``.
             initial_weights: Optional initial portfolio for proportional costs.
             proportional_costs: Optional linear cost vector (requires ``initial_weights``).
+            mean: Optional expected returns for the return targets. Defaults to ``p @ R``.
         """
         R, p = np.asarray(R, float), np.asarray(p, float)
         T, N = R.shape
@@ -594,7 +596,7 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
             raise ValueError("`alpha` must be a tail probability in (0, 1].")
         self._alpha = float(alpha)
         self._has_costs = initial_weights is not None and proportional_costs is not None
-        super()._init_constraints(p @ R, G, h, A, b)
+        super()._init_constraints(p @ R if mean is None else mean, G, h, A, b)
 
         base_len = N + 1 + T
         extra_len = 2 * N if self._has_costs else 0
diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 8ea5fa7..96fc527 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1375,7 +1375,8 @@ class PortfolioWrapper:
         optimizer = MeanCVaR(
             R=scenarios, p=probs, alpha=alpha, G=G, h=h, A=A, b=b,
             initial_weights=iw,
-            proportional_costs=pc
+            proportional_costs=pc,
+            mean=mu_for_frontier,
         )
         weights = optimizer.efficient_frontier(num_portfolios)
         returns = mu_for_frontier @ weights
@@ -1660,7 +1661,8 @@ class PortfolioWrapper:
         optimizer = MeanCVaR(
             R=scenarios, p=probs, alpha=alpha, G=G, h=h, A=A, b=b,
             initial_weights=iw,
-            proportional_costs=pc
+            proportional_costs=pc,
+            mean=mu_for_cvar,
         )
 
         try:
-- 
2.43.0


From fb0a7ca6049804f45d580c614f5538f258dd46c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 29/99] fix: infeasible mean-variance targets raise
 InfeasibleOptimizationError and stalled QPs are retried with a normalised
 objective

---
 pyvallocation/optimization.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 91fd987..a3be284 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -172,6 +172,22 @@ def _solve_lp(c, G, h, A, b) -> dict:
             break
     return sol
 
+
+def _solve_qp(P, q, G, h, A, b) -> dict:
+    """Solve a QP with CVXOPT; a numerical breakdown counts as an unsolved problem.
+
+    On infeasible problems the iterates can leave the cone, which CVXOPT reports
+    with a bare ``ValueError: domain error`` or an ``ArithmeticError``.
+    """
+    try:
+        return solvers.qp(P, q, G, h, A, b)
+    except ArithmeticError:
+        return {"status": "unknown", "x": None}
+    except ValueError as exc:
+        if "domain error" not in str(exc):
+            raise
+        return {"status": "unknown", "x": None}
+
 # ------------------------------------------------------------------ #
 # Result container
 # ------------------------------------------------------------------ #
@@ -422,17 +438,20 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         """
         G, h = self._G, self._h
         if return_target is not None:
+            if not np.isfinite(return_target):
+                raise ValueError("`return_target` must be finite.")
             G = self._expected_row if G is None else matrix([G, self._expected_row])
             h = matrix([-float(return_target)]) if h is None else matrix(
                 np.append(np.asarray(h).ravel(), -return_target)
             )
-        sol = solvers.qp(self._P, self._q, G, h, self._A, self._b)
-        if sol["status"] != "optimal":  # scale-adaptive ridge regularisation fallback
+        sol = _solve_qp(self._P, self._q, G, h, self._A, self._b)
+        if sol["status"] != "optimal":  # retry with a scale-adaptive ridge and a normalised objective
             P_np = np.asarray(self._P)
             ridge = max(1e-8, 1e-8 * np.trace(P_np) / max(self._I, 1))
-            P_reg = matrix(P_np + np.eye(self._I) * ridge)
+            P_reg = P_np + np.eye(self._I) * ridge
+            scale = 1.0 / np.max(np.abs(P_reg))
             _LOGGER.debug("QP retry with ridge=%.2e", ridge)
-            sol = solvers.qp(P_reg, self._q, G, h, self._A, self._b)
+            sol = _solve_qp(matrix(P_reg * scale), self._q * scale, G, h, self._A, self._b)
         self._assert_optimal(sol, "QP")
         return np.asarray(sol["x"]).ravel()
 
-- 
2.43.0


From ecd42e42a02b8c742e8e1eaa2296fccc3b88902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 30/99] fix: mean-variance QP objective is normalised, so
 small-scale returns are optimised to the same accuracy

---
 pyvallocation/optimization.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index a3be284..5d7fab1 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -176,11 +176,14 @@ def _solve_lp(c, G, h, A, b) -> dict:
 def _solve_qp(P, q, G, h, A, b) -> dict:
     """Solve a QP with CVXOPT; a numerical breakdown counts as an unsolved problem.
 
-    On infeasible problems the iterates can leave the cone, which CVXOPT reports
+    The objective is normalised because CVXOPT's gap tolerance is absolute: on
+    daily returns (variances near 1e-5) it would stop far from the optimum. On
+    infeasible problems the iterates can leave the cone, which CVXOPT reports
     with a bare ``ValueError: domain error`` or an ``ArithmeticError``.
     """
+    scale = float(np.max(np.abs(np.asarray(P)))) or 1.0
     try:
-        return solvers.qp(P, q, G, h, A, b)
+        return solvers.qp(P / scale, q / scale, G, h, A, b)
     except ArithmeticError:
         return {"status": "unknown", "x": None}
     except ValueError as exc:
@@ -445,13 +448,12 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
                 np.append(np.asarray(h).ravel(), -return_target)
             )
         sol = _solve_qp(self._P, self._q, G, h, self._A, self._b)
-        if sol["status"] != "optimal":  # retry with a scale-adaptive ridge and a normalised objective
+        if sol["status"] != "optimal":  # scale-adaptive ridge regularisation fallback
             P_np = np.asarray(self._P)
             ridge = max(1e-8, 1e-8 * np.trace(P_np) / max(self._I, 1))
-            P_reg = P_np + np.eye(self._I) * ridge
-            scale = 1.0 / np.max(np.abs(P_reg))
+            P_reg = matrix(P_np + np.eye(self._I) * ridge)
             _LOGGER.debug("QP retry with ridge=%.2e", ridge)
-            sol = _solve_qp(matrix(P_reg * scale), self._q * scale, G, h, self._A, self._b)
+            sol = _solve_qp(P_reg, self._q, G, h, self._A, self._b)
         self._assert_optimal(sol, "QP")
         return np.asarray(sol["x"]).ravel()
 
-- 
2.43.0


From e269c0bb26394c0c8e1337da75cd4ec4bdd84d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 31/99] fix: robust optimiser reports the uncertainty radius of
 its weights (with no penalty it reported a slack variable)

---
 pyvallocation/optimization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 5d7fab1..d4a0c42 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -974,8 +974,10 @@ class RobustOptimizer(_BaseOptimization):
         )
         self._assert_optimal(sol, "SOCP")
         x = np.asarray(sol["x"]).ravel()
-        w, t = x[:n], x[n]
-        return OptimizationResult(w, float(self._mean @ w), float(t))
+        w = x[:n]
+        # t only bounds the radius from above: without a penalty it is not pushed onto it
+        radius = float(np.linalg.norm(self._s_sqrt.T @ w))
+        return OptimizationResult(w, float(self._mean @ w), radius)
 
 
 # =================================================================== #
-- 
2.43.0


From 3bce03f7a651c080203015d7a97c74cb1fe4007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 32/99] fix: robust gamma portfolios report simple returns for
 log posteriors, like every other call

---
 pyvallocation/portfolioapi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 96fc527..d41eb0c 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -2044,11 +2044,14 @@ class PortfolioWrapper:
             )
             risk_value = float(gamma_sigma_sq)
 
+        mu_r, _ = self._report_mu_cov()
+        nominal_return = float(mu_r @ result.weights)
+
         logger.info(
             f"Successfully solved for robust \\gamma-portfolio. "
-            f"Nominal Return: {result.nominal_return:.4f}, Estimation Risk (squared): {risk_value:.4f}"
+            f"Nominal Return: {nominal_return:.4f}, Estimation Risk (squared): {risk_value:.4f}"
         )
-        return w_series, result.nominal_return, risk_value
+        return w_series, nominal_return, risk_value
 
     def make_ensemble_spec(
         self,
-- 
2.43.0


From 45b2acb5504fe6902652cd0cc5da929a22886f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 33/99] fix: reject non-finite current holdings and cost rates
 (they aborted GLPK or were used silently)

---
 pyvallocation/optimization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index d4a0c42..687d1d4 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -99,17 +99,20 @@ _LOGGER: Final = logging.getLogger(__name__)
 # Helpers
 # ------------------------------------------------------------------ #
 def _check_shapes(**arrays: npt.NDArray[np.floating]) -> None:
-    """Raise ``ValueError`` if any supplied arrays have mismatched shapes.
+    """Raise ``ValueError`` if any supplied arrays have mismatched shapes or non-finite entries.
 
     Args:
         **arrays: Named arrays to compare.
 
     Raises:
-        ValueError: If shapes are not identical.
+        ValueError: If shapes are not identical or an entry is NaN or infinite.
     """
     shapes = {k: v.shape for k, v in arrays.items()}
     if len(set(shapes.values())) > 1:
         raise ValueError(f"Shape mismatch: {shapes}")
+    for k, v in arrays.items():
+        if not np.all(np.isfinite(v)):
+            raise ValueError(f"`{k}` must contain only finite values.")
 
 
 def _quadratic_turnover(
-- 
2.43.0


From cc80e12fa1db1f7608e4f897e6b39629f394dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 34/99] fix: a NaN half-life or bandwidth is rejected instead
 of giving NaN probabilities

---
 pyvallocation/probabilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/probabilities.py b/pyvallocation/probabilities.py
index 73b2bfd..282ab27 100644
--- a/pyvallocation/probabilities.py
+++ b/pyvallocation/probabilities.py
@@ -106,7 +106,7 @@ def generate_exp_decay_probabilities(
         np.ndarray: Exponentially decaying probabilities summing to one.
     """
 
-    if half_life <= 0:
+    if not half_life > 0:  # also rejects NaN
         raise ValueError("half_life must be greater than 0.")
     p = np.exp(
         -np.log(2) / half_life * (num_observations - np.arange(1, num_observations + 1))
@@ -152,7 +152,7 @@ def generate_gaussian_kernel_probabilities(
     if h is None:
         h = silverman_bandwidth(x)
     h = float(h)
-    if h <= 0:
+    if not h > 0:  # also rejects NaN
         raise ValueError("Bandwidth `h` must be strictly positive.")
     if x_T is None:
         x_T = x[-1]
-- 
2.43.0


From 385a244943f9c3838444fd658bcf7beafb2c454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 35/99] fix: portfolio_var accepts weight frames like the other
 risk measures

---
 pyvallocation/utils/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 3a49518..3e9395f 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -146,7 +146,7 @@ def portfolio_var(
         R_arr = R_arr - p.T @ R_arr
 
     with np.errstate(over='ignore', under='ignore', invalid='ignore', divide='ignore'):
-        pf_pnl = R_arr @ w
+        pf_pnl = R_arr @ _ensure_weights_matrix(w)
     if pf_pnl.ndim == 1:
         pf_pnl = pf_pnl.reshape(-1, 1)
 
-- 
2.43.0


From 40104c5cdcdda1731ef9c85ae2ea14960b9e3725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 36/99] fix: entropy pooling raises on unsatisfiable views (it
 returned probabilities violating them) and solves small-scale views
 accurately

---
 pyvallocation/views.py | 62 ++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index a780d53..99cab4a 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -220,6 +220,7 @@ def entropy_pooling(
 
     Raises:
         ValueError: If an unsupported ``method`` is specified.
+        RuntimeError: If no distribution satisfying the views is found.
 
     Notes:
         Adapted from `fortitudo.tech` (https://github.com/fortitudo-tech/fortitudo.tech).
@@ -244,7 +245,7 @@ def entropy_pooling(
     num_equalities = b_col.shape[0]
 
     if G is None or h is None:
-        current_lhs = A
+        current_lhs = np.atleast_2d(np.asarray(A, dtype=float))
         current_rhs_stacked = b_col
         bounds_lower = [-np.inf] * num_equalities
         bounds_upper = [np.inf] * num_equalities
@@ -261,29 +262,48 @@ def entropy_pooling(
     initial_lagrange_multipliers = np.zeros(current_lhs.shape[0])
     optimizer_bounds = Bounds(bounds_lower, bounds_upper)
 
-    solver_options = {"maxfun": 10000}
-    if opt_method == "L-BFGS-B":
-        solver_options["maxiter"] = 1000
-
-    solution = minimize(
-        _entropy_pooling_dual_objective,
-        x0=initial_lagrange_multipliers,
-        args=(log_p_col, current_lhs, current_rhs_stacked.squeeze()),
-        method=opt_method,
-        jac=True,
-        bounds=optimizer_bounds,
-        options=solver_options,
-    )
-
-    if not solution.success:
-        status = getattr(solution, "status", None)
-        message = getattr(solution, "message", "")
+    # Rows are brought to unit scale: the multipliers then share one scale and the
+    # stopping rules apply equally to a daily mean view and to a probability.
+    row_scale = np.abs(current_lhs).max(axis=1)
+    row_scale = np.where(row_scale > 0.0, row_scale, 1.0)
+    current_lhs = current_lhs / row_scale[:, np.newaxis]
+    rhs = current_rhs_stacked.ravel() / row_scale
+
+    # The solver's own success flag is not reliable either way: unsatisfiable views
+    # can stall "successfully" and a converged line search can report failure. The
+    # optimality residual (projected dual gradient = violation of the views) decides.
+    best_residual, best_multipliers, messages = np.inf, initial_lagrange_multipliers, []
+    for solver in dict.fromkeys((opt_method, "TNC", "L-BFGS-B")):
+        solver_options = {"maxfun": 10000}
+        if solver == "L-BFGS-B":
+            solver_options["maxiter"] = 1000
+        with np.errstate(over="ignore", invalid="ignore"):
+            solution = minimize(
+                _entropy_pooling_dual_objective,
+                x0=initial_lagrange_multipliers,
+                args=(log_p_col, current_lhs, rhs),
+                method=solver,
+                jac=True,
+                bounds=optimizer_bounds,
+                options=solver_options,
+            )
+            _, gradient = _entropy_pooling_dual_objective(solution.x, log_p_col, current_lhs, rhs)
+        gradient = np.atleast_1d(gradient) / 1000.0
+        at_bound = (solution.x <= optimizer_bounds.lb) & (gradient > 0.0)
+        residual = float(np.max(np.abs(np.where(at_bound, 0.0, gradient))))
+        messages.append(f"{solver} (status={getattr(solution, 'status', None)}): {getattr(solution, 'message', '')}")
+        if residual < best_residual:
+            best_residual, best_multipliers = residual, solution.x
+        if best_residual <= 1e-7:
+            break
+
+    if not best_residual <= 1e-5:
         raise RuntimeError(
-            "Entropy pooling optimisation failed "
-            f"(status={status}): {message}"
+            "Entropy pooling optimisation failed; the views may be infeasible "
+            f"(residual {best_residual:.1e}; {'; '.join(messages)})"
         )
 
-    optimal_lagrange_multipliers_col = solution.x[:, np.newaxis]
+    optimal_lagrange_multipliers_col = best_multipliers[:, np.newaxis]
 
     with np.errstate(over="ignore", under="ignore", invalid="ignore", divide="ignore"):
         posterior_exponent = log_p_col - 1.0 - current_lhs.T @ optimal_lagrange_multipliers_col
-- 
2.43.0


From 6abd60f921478da3ec2ef172bdf8c7a8bbfc85ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 37/99] fix: Black-Litterman rejects non-finite inputs and
 priors of the wrong length (they gave NaN posteriors)

---
 pyvallocation/views.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 99cab4a..73e3ebd 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1386,6 +1386,8 @@ class BlackLittermanProcessor:
             src = "prior_mean"
         else:
             raise ValueError("Provide exactly one of pi, market_weights or prior_mean.")
+        if self._pi.shape[0] != n_assets:
+            raise ValueError("The prior mean must have one entry per asset of `prior_cov`.")
         if verbose:
             print(f"[BL] \\pi source: {src}.")
 
@@ -1417,6 +1419,16 @@ class BlackLittermanProcessor:
         self._conf: Optional[np.ndarray] = self._parse_conf(view_confidences, view_keys)
         self._idzorek_use_tau = bool(idzorek_use_tau)
         self._omega: np.ndarray = self._build_omega(omega, verbose)
+        if not 0.0 < self._tau < np.inf:
+            raise ValueError("tau must be positive and finite.")
+        for name, values in (
+            ("prior_cov", self._sigma),
+            ("prior mean", self._pi),
+            ("mean_views", self._q),
+            ("omega / view_confidences", self._omega),
+        ):
+            if not np.isfinite(values).all():
+                raise ValueError(f"{name} must contain only finite values.")
 
         # ---------- posterior -------------------------------------------
         self._posterior_mean, self._posterior_cov = self._compute_posterior(verbose)
-- 
2.43.0


From 448a399d5363f0534a8adc05aa1181caf8015613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 38/99] fix: the NIW update rejects non-finite prior and sample
 statistics

---
 pyvallocation/bayesian.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 074cd02..efb6acd 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -285,6 +285,9 @@ class NIWPosterior:
         if nu0 < 0:
             raise ValueError("`nu0` (prior pseudo-count for covariance) must be non-negative.")
 
+        if not (np.isfinite(self.prior_mu).all() and np.isfinite(self.prior_sigma).all()):
+            raise ValueError("`prior_mu` and `prior_sigma` must contain only finite values.")
+
         _ = _cholesky_pd(self.prior_sigma)  # Ensure prior_sigma is PD or near-PD
 
         self.t0: int = int(t0)
@@ -383,6 +386,9 @@ class NIWPosterior:
         if ssigma.ndim != 2 or ssigma.shape != (self.N, self.N):
             raise ValueError(f"`sample_sigma` must be a square matrix of shape ({self.N}, {self.N}), or pandas.DataFrame with matching index/columns.")
 
+        if not (np.isfinite(smu).all() and np.isfinite(ssigma).all()):
+            raise ValueError("`sample_mu` and `sample_sigma` must contain only finite values.")
+
         _ = _cholesky_pd(ssigma)  # Ensure sample_sigma is PD or near-PD
 
         # Compute posterior scalars
-- 
2.43.0


From 468fc4b70c8c9bd821bdc4e6583b52eb30caee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 39/99] fix: graphical lasso solves on the covariance's own
 scale (at return scale it returned the ridge start or failed)

---
 pyvallocation/moments.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index e661858..de6dc80 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -783,11 +783,15 @@ def _graphical_lasso_admm(
     alpha: float,
     *,
     rho: float = 1.0,
-    max_iter: int = 200,
-    tol: float = 1e-4,
+    max_iter: int = 5000,
+    tol: float = 1e-5,
 ) -> Tuple[np.ndarray, np.ndarray, int]:
     """Solve the graphical lasso via ADMM.
 
+    The problem is solved for the covariance divided by its average variance,
+    because tolerances and the penalty parameter are meaningful on that scale
+    only; ``rho`` is adapted to balance primal and dual residuals.
+
     Args:
         emp_cov: Empirical covariance matrix.
         alpha: L1 penalty parameter.
@@ -799,6 +803,11 @@ def _graphical_lasso_admm(
         Tuple[np.ndarray, np.ndarray, int]: Covariance, precision, and iteration count.
     """
     p = emp_cov.shape[0]
+    scale = float(np.trace(emp_cov)) / p
+    if scale <= 0.0:
+        scale = 1.0
+    emp_cov = emp_cov / scale
+    alpha = alpha / scale
     Theta = np.linalg.inv(emp_cov + alpha * np.eye(p))
     Z = Theta.copy()
     U = np.zeros_like(emp_cov)
@@ -827,11 +836,15 @@ def _graphical_lasso_admm(
         eps_dual = tol * np.sqrt(p) + tol * np.linalg.norm(rho * U, ord="fro")
         if r_norm <= eps_pri and s_norm <= eps_dual:
             break
+        if iteration % 10 == 0 and not 0.1 <= (r_norm / eps_pri) / max(s_norm / eps_dual, 1e-300) <= 10.0:
+            factor = 2.0 if r_norm / eps_pri > s_norm / eps_dual else 0.5
+            rho *= factor
+            U = U / factor
 
     else:
         raise RuntimeError("Graphical lasso did not converge within max_iter.")
 
-    precision = Theta
+    precision = Theta / scale
     try:
         covariance = np.linalg.inv(precision)
     except np.linalg.LinAlgError:
-- 
2.43.0


From ce1e8f5fdf36be87407f37291ad23677bd92a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 40/99] fix: moment estimators reject missing or infinite
 returns (three of them silently zeroed the covariance)

---
 pyvallocation/moments.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index de6dc80..c4a4eba 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -181,6 +181,12 @@ def _wrap(x: np.ndarray, labels: Optional[Sequence[str]], vector: bool) -> Array
     return pd.DataFrame(x, index=labels, columns=labels)
 
 
+def _require_finite(X: np.ndarray) -> None:
+    """Raise if the return matrix has missing or infinite entries."""
+    if not np.isfinite(X).all():
+        raise ValueError("Input `R` must contain only finite values.")
+
+
 def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, ArrayLike]:
     """
     Estimates the weighted mean vector and covariance matrix from scenarios.
@@ -411,6 +417,7 @@ def shrink_covariance_oas(R: ArrayLike, assume_centered: bool = True) -> ArrayLi
     T, N = X.shape
     if T == 0 or N == 0:
         raise ValueError("Input `R` must contain at least one observation and one asset.")
+    _require_finite(X)
     if not assume_centered:
         X = X - X.mean(axis=0, keepdims=True)
     with np.errstate(over="ignore", under="ignore", divide="ignore", invalid="ignore"):
@@ -649,6 +656,7 @@ def robust_covariance_tyler(
     T, N = X.shape
     if T == 0 or N == 0:
         raise ValueError("Input `R` must contain at least one observation and one asset.")
+    _require_finite(X)
     if not 0.0 <= shrinkage <= 1.0:
         raise ValueError("`shrinkage` must lie in [0, 1].")
 
@@ -879,6 +887,7 @@ def sparse_precision_glasso(
         raise ValueError("Input `R` must be two-dimensional with shape (T, N).")
     if X.shape[0] < 2:
         raise ValueError("Graphical lasso requires at least two observations.")
+    _require_finite(X)
     if not assume_centered:
         X = X - X.mean(axis=0, keepdims=True)
     T = X.shape[0]
@@ -1239,6 +1248,7 @@ def estimate_moments(
     if X.ndim != 2:
         raise ValueError("Input `R` must be two-dimensional with shape (T, N).")
     T, _ = X.shape
+    _require_finite(X)
     labels = _labels(R)
 
     if p is None:
-- 
2.43.0


From 2955bbab6608fb934dc5f718bae79130f332234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 41/99] fix: Tyler's covariance keeps the sample's total
 variance (it was divided by the number of assets)

---
 pyvallocation/moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index c4a4eba..686a04b 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -715,7 +715,8 @@ def robust_covariance_tyler(
             max_iter, delta / denom, tol,
         )
 
-    covariance *= trace_target / N
+    # The shape has trace N; restore the total variance of the sample.
+    covariance *= trace_target
     covariance = 0.5 * (covariance + covariance.T)
     if ensure_psd:
         covariance = ensure_psd_matrix(covariance)
-- 
2.43.0


From df2ca85e3dddc83d6890597294ed68826636890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 42/99] fix: labelled shrinkage targets are aligned with the
 asset labels (they were read by position)

---
 pyvallocation/moments.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 686a04b..d173a20 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -128,6 +128,7 @@ from pyvallocation.utils.validation import (
     check_weights_sum_to_one,
     ensure_psd_matrix,
 )
+from pyvallocation.utils.weights import align_labelled_vector
 
 import pandas as pd
 
@@ -673,6 +674,13 @@ def robust_covariance_tyler(
             raise ValueError("`target` must be 'identity' or an array-like.")
         target_matrix = np.eye(N)
     else:
+        if isinstance(R, pd.DataFrame) and isinstance(target, pd.DataFrame):
+            for axis in (0, 1):
+                if not target.axes[axis].equals(R.columns) and target.axes[axis].is_unique:
+                    if set(target.axes[axis]) == set(R.columns):
+                        target = target.reindex(list(R.columns), axis=axis)
+                    elif not isinstance(target.axes[axis], pd.RangeIndex):
+                        raise ValueError("`target` labels do not match the asset names.")
         target_matrix = np.asarray(target, dtype=float)
         if target_matrix.shape != (N, N):
             raise ValueError("Custom target must have shape (N, N).")
@@ -991,6 +999,7 @@ def shrink_mean_james_stein(
             raise ValueError("`target` must be 'grand_mean' or an array-like.")
         mu_target = np.full_like(mu_arr, mu_arr.mean())
     else:
+        target = align_labelled_vector(target, _labels(mu_hat, S), "target")
         mu_target = np.asarray(target, dtype=float).reshape(-1)
         if mu_target.size != N:
             raise ValueError("Custom target must have length N.")
-- 
2.43.0


From c92d1977c6767babab1341aa040073ca89ede55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 43/99] fix: project_scenarios normalises probabilities that
 are slightly off one (it crashed on rounded ones)

---
 pyvallocation/utils/projection.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 41ed005..edc2e52 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -235,8 +235,7 @@ def project_scenarios(R, investment_horizon=2, p=None, n_simulations=1000,
         weight_sum = weights.sum()
         if not np.isfinite(weight_sum) or weight_sum <= 0:
             raise ValueError("Scenario probabilities must sum to a positive finite value.")
-        if not np.isclose(weight_sum, 1.0):
-            weights = weights / weight_sum
+        weights = weights / weight_sum
 
     rng = np.random.default_rng(seed)
     idx = rng.choice(num_rows, size=(n_simulations, investment_horizon), p=weights)
-- 
2.43.0


From bf45ebe7d080ea7e28a47193a8ffe2d4ca36f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 44/99] fix: simulate_paths keeps repriced values as returned
 (integer drivers truncated them, one instrument was copied to every driver)

---
 pyvallocation/utils/projection.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index edc2e52..076c29b 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -301,10 +301,11 @@ def simulate_paths(
 
     if reprice is not None:
         # Apply repricing at each time step
-        out = np.empty_like(cumulative)
-        for t in range(horizon):
-            out[:, t, :] = reprice(cumulative[:, t, :])
-        return out
+        steps = [
+            np.asarray(reprice(cumulative[:, t, :]), dtype=float).reshape(n_paths, -1)
+            for t in range(horizon)
+        ]
+        return np.stack(steps, axis=1)
 
     return cumulative
 
-- 
2.43.0


From 245b7f10171bf302086fd1d396c5e12f597a5211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 45/99] fix: simple2log rejects covariances no log-normal has
 (it returned NaN)

---
 pyvallocation/utils/projection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 076c29b..ef5c93b 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -154,7 +154,10 @@ def simple2log(mu_r, cov_r):
     var_g = np.log1p(np.diag(cov_r_np) / m**2)
     mu_g_np = np.log(m) - 0.5 * var_g
 
-    cov_g_np = np.log1p(cov_r_np / np.outer(m, m))
+    rel_cov = cov_r_np / np.outer(m, m)
+    if np.any(rel_cov <= -1.0):
+        raise ValueError("`cov_r` is not the covariance of any log-normal simple returns.")
+    cov_g_np = np.log1p(rel_cov)
     np.fill_diagonal(cov_g_np, var_g)  # keep exact variances
 
     return (_wrap_vector(mu_g_np, mu_r), _wrap_matrix(cov_g_np, cov_r))
-- 
2.43.0


From d4f25a505922e6c069de2a8455133682dfeae0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 46/99] fix: drawdowns count the fall from the initial wealth
 (a loss in the first step was ignored)

---
 pyvallocation/utils/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index eee60d0..d9ffadc 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -312,7 +312,7 @@ def drawdown_quantile(
     wealth = 1.0 + port_cum  # wealth relative to $1
 
     # Running maximum and drawdown
-    running_max = np.maximum.accumulate(wealth, axis=1)
+    running_max = np.maximum(np.maximum.accumulate(wealth, axis=1), 1.0)
     drawdowns = (running_max - wealth) / np.where(running_max > 0, running_max, 1.0)
     max_dd = drawdowns.max(axis=1)  # (n_paths,)
 
-- 
2.43.0


From 43403f2042f2c4f07bf45697580283332f73a7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 47/99] fix: simulate_paths validates probabilities, horizon
 and path count (all-negative probabilities were accepted)

---
 pyvallocation/utils/projection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index ef5c93b..e1f0408 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -294,7 +294,13 @@ def simulate_paths(
         raise ValueError("`R` must be 1D or 2D.")
 
     T, N = R_np.shape
+    if horizon <= 0 or n_paths <= 0:
+        raise ValueError("`horizon` and `n_paths` must be positive integers.")
     weights = np.asarray(p, dtype=float).ravel() if p is not None else np.full(T, 1.0 / T)
+    if weights.shape[0] != T:
+        raise ValueError("Probability vector length must match the number of scenarios.")
+    if np.any(weights < 0) or not np.isfinite(weights.sum()) or weights.sum() <= 0:
+        raise ValueError("Scenario probabilities must be non-negative with a positive finite sum.")
     weights = weights / weights.sum()
 
     rng = np.random.default_rng(seed)
-- 
2.43.0


From 878734598230abda5c01e8915fe065a7e07971f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 48/99] fix: MILP allocation never buys an asset whose target
 weight is negative

---
 pyvallocation/discrete_allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index ed9bb0b..1ca73d8 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -389,7 +389,7 @@ def allocate_mip(
     lot_lb = np.where(weights.values >= 0, 0.0, -short_lots)
     lb = np.concatenate([lot_lb, np.zeros(n + 1)])  # u and r stay >= 0
     ub = np.concatenate([
-        long_lots,
+        np.where(weights.values >= 0, long_lots, 0.0),
         np.full(n, np.inf),
         [upper_cash],
     ])
-- 
2.43.0


From c6fb92399d23e6749fb660e39f1a082fd33cc5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 49/99] fix: fully invested discrete allocations of large
 portfolios no longer fail on rounding

---
 pyvallocation/discrete_allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 1ca73d8..68b0ff1 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -181,7 +181,7 @@ def _build_result(inputs: DiscreteAllocationInput, raw_shares: pd.Series) -> Dis
     portfolio_value = float(values.sum())
     leftover = float(inputs.total_value - portfolio_value)
     # Numerical noise guard
-    if leftover < 0 and abs(leftover) < 1e-8:
+    if leftover < 0 and abs(leftover) < max(1e-8, 1e-12 * inputs.total_value):
         leftover = 0.0
     elif leftover < 0:
         raise RuntimeError("Allocation exceeded available funds by more than tolerance.")
-- 
2.43.0


From ab32cdda1abaa2b8fab2db89691730f305d0c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 50/99] fix: labelled ensemble weights are aligned with the
 specs when combining frontiers (they were read by position)

---
 pyvallocation/ensembles.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 4bf7362..afb2e0c 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -59,6 +59,7 @@ from cvxopt import matrix, solvers
 from .probabilities import resolve_probabilities
 from .utils.weights import (
     ArrayLike,
+    align_labelled_vector,
     ensure_samples_matrix,
     normalize_weights,
     wrap_exposure_vector,
@@ -616,7 +617,9 @@ def assemble_portfolio_ensemble(
                     ensembles["average"] = average_frontiers(
                         frontier_list,
                         selections=cleaned_selections,
-                        ensemble_weights=ensemble_weights,
+                        ensemble_weights=align_labelled_vector(
+                            ensemble_weights, [spec.name for spec in specs], "ensemble_weights"
+                        ),
                     )
                 elif entry == "stack":
                     ensembles["stack"] = exposure_stack_frontiers(
-- 
2.43.0


From 69e5cf95b6be709b93d8c8f3681220d3d764f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 51/99] fix: combining frontiers of specs that share a name
 uses each spec's own frontier

---
 pyvallocation/ensembles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index afb2e0c..dc27bb3 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -553,12 +553,14 @@ def assemble_portfolio_ensemble(
         raise ValueError("At least one EnsembleSpec must be provided.")
 
     frontiers: Dict[str, "PortfolioFrontier"] = {}
+    built_frontiers: List["PortfolioFrontier"] = []
     selections: List[pd.Series] = []
     metadata: Dict[str, Dict[str, Any]] = {}
 
     for spec in specs:
         frontier = spec.frontier_factory()
         frontiers[spec.name] = frontier
+        built_frontiers.append(frontier)
         metadata[spec.name] = dict(spec.metadata or {})
         selected = _coerce_weights_series(frontier, spec.selector(frontier), spec.name)
         selections.append(selected)
@@ -590,7 +592,7 @@ def assemble_portfolio_ensemble(
                 else:
                     raise ValueError(f"Unsupported ensemble option '{entry}'.")
         else:  # combine on full frontier matrices
-            frontier_list = [frontiers[spec.name] for spec in specs]
+            frontier_list = built_frontiers
             selections_norm = [
                 None if spec.frontier_selection is None else list(spec.frontier_selection)
                 for spec in specs
-- 
2.43.0


From ee6d287bbd688963859a9936586ae76b3ac18d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 52/99] fix: make_portfolio_spec accepts callables without a
 __name__ (partials crashed)

---
 pyvallocation/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index dc27bb3..b8d21b0 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -755,7 +755,7 @@ def make_portfolio_spec(
     selector_fn = _build_selector(selector, selector_kwargs, name)
 
     spec_metadata = dict(metadata or {})
-    spec_metadata.setdefault("optimiser", optimiser if isinstance(optimiser, str) else optimiser.__name__)
+    spec_metadata.setdefault("optimiser", optimiser if isinstance(optimiser, str) else getattr(optimiser, "__name__", repr(optimiser)))
     spec_metadata.setdefault("mean_estimator", mean_estimator)
     spec_metadata.setdefault("cov_estimator", cov_estimator)
     spec_metadata.setdefault("use_scenarios", use_scenarios)
-- 
2.43.0


From f65696f42756c21946d60729e6690630b8255a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 53/99] fix: ensembles reject sample portfolios with missing or
 infinite weights (they averaged to NaN)

---
 pyvallocation/utils/weights.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/utils/weights.py b/pyvallocation/utils/weights.py
index 3e025cd..da6b305 100644
--- a/pyvallocation/utils/weights.py
+++ b/pyvallocation/utils/weights.py
@@ -60,6 +60,8 @@ def ensure_samples_matrix(
         raise ValueError("Sample portfolios must broadcast to a 2D array (assets x portfolios).")
     if not allow_empty and arr.shape[1] == 0:
         raise ValueError("Sample matrix must contain at least one portfolio.")
+    if not np.all(np.isfinite(arr)):
+        raise ValueError("Sample portfolios contain NaN or Inf values.")
     return arr, asset_names, sample_names
 
 
-- 
2.43.0


From a82a0cb623a848e316cd52dadc67fbfaccf33ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 54/99] fix: stress_invariants reports several portfolios (one
 row each) instead of crashing

---
 pyvallocation/stress.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index 043d746..d11434e 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -529,15 +529,16 @@ def stress_invariants(
             return mean_r, stdev_r, var_r, cvar_r, ens
 
         pnl_names = list(pnl_df.columns) if isinstance(pnl_df, pd.DataFrame) else None
-        w_arr = _align_weights(weights, pnl_names)[0].ravel()
-        m_n = _metrics(pnl_nom, nom_probs, w_arr)
-        m_s = _metrics(pnl_stressed, stressed_probs, w_arr)
+        w_mat, _, portfolio_names = _align_weights(weights, pnl_names)
         ci = int(round(confidence * 100))
-        return pd.DataFrame({
-            "return_nom": [m_n[0]], "stdev_nom": [m_n[1]],
-            f"VaR{ci}_nom": [m_n[2]], f"CVaR{ci}_nom": [m_n[3]], "ENS_nom": [m_n[4]],
-            "return_stressed": [m_s[0]], "stdev_stressed": [m_s[1]],
-            f"VaR{ci}_stressed": [m_s[2]], f"CVaR{ci}_stressed": [m_s[3]], "ENS_stressed": [m_s[4]],
-        })
+        labels = ("return", "stdev", f"VaR{ci}", f"CVaR{ci}", "ENS")
+        rows = []
+        for w_arr in w_mat.T:
+            m_n = _metrics(pnl_nom, nom_probs, w_arr)
+            m_s = _metrics(pnl_stressed, stressed_probs, w_arr)
+            row = {f"{label}_nom": value for label, value in zip(labels, m_n)}
+            row.update({f"{label}_stressed": value for label, value in zip(labels, m_s)})
+            rows.append(row)
+        return pd.DataFrame(rows, index=portfolio_names if len(rows) > 1 else None)
 
     return stress_test(weights, pnl_df, confidence=confidence, demean=demean)
-- 
2.43.0


From 9f9c21d28ea12d3ab3cb2ec82aae49014af2aae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 55/99] fix: risk measures, P&L and drawdown reports reject
 missing or infinite weights and scenarios (VaR ranked NaN scenarios as the
 best)

---
 pyvallocation/utils/functions.py   | 13 +++++++++++++
 pyvallocation/utils/performance.py |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 3e9395f..c3c733e 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -14,8 +14,19 @@ def _ensure_weights_matrix(w: np.ndarray | pd.Series | pd.DataFrame) -> np.ndarr
         np.ndarray: Weights as a 2D array with shape ``(N, M)``.
     """
     arr = np.asarray(w, dtype=float)
+    if not np.isfinite(arr).all():
+        raise ValueError("Weights must contain only finite values.")
     return arr.reshape(-1, 1) if arr.ndim == 1 else arr
 
+
+def _validate_scenarios(R: np.ndarray, p: np.ndarray) -> None:
+    """Reject scenarios or probabilities from which no risk number can be computed."""
+    if not np.isfinite(R).all():
+        raise ValueError("Scenarios must contain only finite values.")
+    if not np.isfinite(p).all() or (p < -1e-9).any():
+        raise ValueError("Probabilities must be finite and non-negative.")
+
+
 def portfolio_variance(
     w: np.ndarray | pd.Series,
     cov: np.ndarray | pd.DataFrame,
@@ -80,6 +91,7 @@ def portfolio_cvar(
 
     R_arr = np.asarray(R, dtype=float)
     p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(p, dtype=float).reshape(-1, 1)
+    _validate_scenarios(R_arr, p)
 
     if demean:
         R_arr = R_arr - p.T @ R_arr
@@ -141,6 +153,7 @@ def portfolio_var(
 
     R_arr = np.asarray(R, dtype=float)
     p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(p, dtype=float).reshape(-1, 1)
+    _validate_scenarios(R_arr, p)
 
     if demean:
         R_arr = R_arr - p.T @ R_arr
diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index d9ffadc..9c071e1 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -84,6 +84,8 @@ def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
 
     if w.shape[0] != arr.shape[1]:
         raise ValueError("Weight dimension must match the number of assets.")
+    if not (np.isfinite(w).all() and np.isfinite(arr).all()):
+        raise ValueError("Weights and scenarios must contain only finite values.")
 
     pnl = arr @ w
     if pnl.ndim == 1:
@@ -302,6 +304,8 @@ def drawdown_quantile(
         if set(weights.index) == set(invariants.columns):
             weights = weights.reindex(invariants.columns)
     w = np.asarray(weights, dtype=float).ravel()
+    if not np.isfinite(w).all():
+        raise ValueError("`weights` must contain only finite values.")
     paths = simulate_paths(
         invariants, horizon=horizon, n_paths=n_paths,
         p=p, reprice=reprice, seed=seed,
-- 
2.43.0


From 68dfffcf3bc592e443754d643268cf71d4c28ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:28 +0000
Subject: [PATCH 56/99] fix: from_prices rejects infinite prices in frames (an
 infinite first price became a -100% return)

---
 pyvallocation/portfolioapi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index d41eb0c..cb783da 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -997,6 +997,8 @@ class PortfolioWrapper:
                 raise ValueError("`prices` must have at least 2 rows to compute returns.")
             if prices.isnull().any().any():
                 raise ValueError("`prices` contains NaN values. Fill or drop missing data before calling from_prices.")
+            if np.isinf(prices.to_numpy(dtype=float)).any():
+                raise ValueError("`prices` contains infinite values.")
             if (prices <= 0).any().any():
                 raise ValueError("`prices` contains non-positive values. Prices must be strictly positive.")
             returns = prices.pct_change().iloc[1:]
-- 
2.43.0


From 5acedca05d04d16ef7846fcc500af9eeb24b343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 57/99] fix: CVaR frontier's convexity correction is relative
 to its scale (narrow frontiers reported another portfolio's CVaR)

---
 pyvallocation/portfolioapi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index cb783da..aaa05bb 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1405,7 +1405,9 @@ class PortfolioWrapper:
             risks = np.maximum.accumulate(risks)
 
             # 2) convexify via lower convex envelope in (return, risk)
-            def _lower_convex_envelope(x: np.ndarray, y: np.ndarray, eps: float = 1e-12) -> np.ndarray:
+            def _lower_convex_envelope(x: np.ndarray, y: np.ndarray) -> np.ndarray:
+                # relative to the extent of the frontier: returns may be daily, grids dense
+                eps = 1e-12 * float(np.ptp(x)) * float(np.ptp(y))
                 idx_stack: list[int] = []
                 for i in range(len(x)):
                     while len(idx_stack) >= 2:
-- 
2.43.0


From d05fb5655de04341bafc2949116bc9f0e920c39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 58/99] fix: exposure stacking normalises its programme (large
 exposures stalled the solver)

---
 pyvallocation/ensembles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index b8d21b0..6ca1c86 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -201,8 +201,10 @@ def exposure_stacking(
         summed = exposures[:, subset].sum(axis=1)
         linear += (masked @ summed) / max(subset.size, 1)
 
-    qp_P = matrix(2.0 * gram)
-    qp_q = matrix(-2.0 * linear.reshape(-1, 1))
+    # The solver's tolerances are absolute: normalise, so the exposures' unit does not matter.
+    scale = max(float(np.max(np.abs(gram))), float(np.max(np.abs(linear)))) or 1.0
+    qp_P = matrix(2.0 * gram / scale)
+    qp_q = matrix(-2.0 * linear.reshape(-1, 1) / scale)
     qp_A = matrix(np.ones((1, num_samples)))
     qp_b = matrix(np.array([[1.0]]))
     qp_G = matrix(-np.identity(num_samples))
-- 
2.43.0


From 196869ae63b38c6003be015b095e5a03743bae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:55 +0000
Subject: [PATCH 59/99] fix: integer allocation retries without presolve when
 HiGHS fails on its presolved model

---
 pyvallocation/discrete_allocation.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 68b0ff1..bbb0231 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -430,14 +430,21 @@ def allocate_mip(
         ub=-target_values,
     )
 
-    options = solver_options or {}
-    result = optimize.milp(
-        c=c,
-        integrality=integrality,
-        bounds=bounds,
-        constraints=[equality_constraint, upper_constraint, lower_constraint],
-        options=options,
-    )
+    options = dict(solver_options or {})
+
+    def solve(solver_opts):
+        return optimize.milp(
+            c=c,
+            integrality=integrality,
+            bounds=bounds,
+            constraints=[equality_constraint, upper_constraint, lower_constraint],
+            options=solver_opts,
+        )
+
+    result = solve(options)
+    if result.status == 4 and "presolve" not in options:
+        # HiGHS occasionally fails on its own presolved model; the original one solves.
+        result = solve({**options, "presolve": False})
 
     if not result.success:
         raise RuntimeError(f"MILP solver failed with status {result.status}: {result.message}")
-- 
2.43.0


From 9fda33624a60e1911d001ae5416b9ad262d1cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:03 +0000
Subject: [PATCH 60/99] fix: exposure stacking passes its solver options with
 the call (concurrent calls leaked them into CVXOPT's global options)

---
 pyvallocation/ensembles.py | 30 +++---------------------------
 1 file changed, 3 insertions(+), 27 deletions(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 6ca1c86..d7a8e8b 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -38,7 +38,6 @@ Name: Exposure Stacking (L=3), dtype: float64
 from __future__ import annotations
 
 from dataclasses import dataclass, field
-from contextlib import contextmanager
 from typing import (
     Any,
     Callable,
@@ -119,26 +118,6 @@ def average_exposures(
     return wrap_exposure_vector(averaged, asset_names, label="Average Exposure")
 
 
-@contextmanager
-def _temporary_solver_options(overrides: Optional[dict]):
-    """Context manager that applies temporary CVXOPT solver options.
-
-    Args:
-        overrides: Optional dictionary of solver option overrides.
-
-    Yields:
-        None
-    """
-    previous = solvers.options.copy()
-    if overrides:
-        solvers.options.update(overrides)
-    try:
-        yield
-    finally:
-        solvers.options.clear()
-        solvers.options.update(previous)
-
-
 def exposure_stacking(
     sample_portfolios: ArrayLike,
     L: int,
@@ -210,12 +189,9 @@ def exposure_stacking(
     qp_G = matrix(-np.identity(num_samples))
     qp_h = matrix(np.zeros((num_samples, 1)))
 
-    options = {"show_progress": False}
-    if solver_options:
-        options.update(solver_options)
-
-    with _temporary_solver_options(options):
-        solution = solvers.qp(qp_P, qp_q, qp_G, qp_h, qp_A, qp_b)
+    # Options go with the call: editing the global ones leaks into concurrent solves.
+    options = {**solvers.options, "show_progress": False, **(solver_options or {})}
+    solution = solvers.qp(qp_P, qp_q, qp_G, qp_h, qp_A, qp_b, options=options)
 
     if solution.get("status") != "optimal":
         raise RuntimeError(f"Exposure stacking QP failed (status={solution.get('status')}).")
-- 
2.43.0


From 7bf44c3b9e99d57c8a2ebbf985e5a8803d9a8c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:46 +0000
Subject: [PATCH 61/99] fix: optimiser classes reject missing or infinite
 inputs (a NaN constraint aborted the interpreter inside GLPK)

---
 pyvallocation/optimization.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 687d1d4..2cd6145 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -110,8 +110,20 @@ def _check_shapes(**arrays: npt.NDArray[np.floating]) -> None:
     shapes = {k: v.shape for k, v in arrays.items()}
     if len(set(shapes.values())) > 1:
         raise ValueError(f"Shape mismatch: {shapes}")
+    _check_finite(**arrays)
+
+
+def _check_finite(**arrays: Optional[npt.ArrayLike]) -> None:
+    """Raise ``ValueError`` if any supplied array has a NaN or infinite entry.
+
+    Args:
+        **arrays: Named arrays to check; ``None`` is skipped.
+
+    Raises:
+        ValueError: If an entry is NaN or infinite.
+    """
     for k, v in arrays.items():
-        if not np.all(np.isfinite(v)):
+        if v is not None and not np.all(np.isfinite(np.asarray(v, float))):
             raise ValueError(f"`{k}` must contain only finite values.")
 
 
@@ -290,6 +302,9 @@ class _BaseOptimization(ABC):
             G, h: Inequality constraint matrices such that ``G w <= h``.
             A, b: Equality constraint matrices such that ``A w = b``.
         """
+        _check_finite(mean=mean, G=G, A=A, b=b)
+        if h is not None and not np.all(np.asarray(h, float) > -np.inf):
+            raise ValueError("`h` must not contain missing or negative infinite values.")
         self._mean = np.asarray(mean, float)
         self._I = self._mean.size
         self._G = matrix(G) if G is not None else None
@@ -424,6 +439,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
             market_impact_costs: Optional diagonal costs (requires ``initial_weights``).
         """
         self._cov = np.asarray(covariance, float)
+        _check_finite(covariance=self._cov)
         super()._init_constraints(mean, G, h, A, b)
 
         P, q = 2 * self._cov, np.zeros(self._I)
@@ -616,6 +632,7 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         """
         R, p = np.asarray(R, float), np.asarray(p, float)
         T, N = R.shape
+        _check_finite(R=R, p=p)
         if not 0.0 < alpha <= 1.0:
             raise ValueError("`alpha` must be a tail probability in (0, 1].")
         self._alpha = float(alpha)
@@ -835,6 +852,7 @@ class RobustOptimizer(_BaseOptimization):
             initial_weights: Optional initial portfolio for proportional costs.
             proportional_costs: Optional linear cost vector (requires ``initial_weights``).
         """
+        _check_finite(uncertainty_cov=uncertainty_cov)
         super()._init_constraints(expected_return, G, h, A, b)
         self._s_sqrt = _cholesky_pd(np.asarray(uncertainty_cov, float))
         self._w0, self._costs = initial_weights, proportional_costs
@@ -1040,6 +1058,7 @@ class RelaxedRiskParity(_BaseOptimization):
         cov = np.asarray(covariance, dtype=float)
         if cov.ndim != 2 or cov.shape[0] != cov.shape[1]:
             raise ValueError("`covariance` must be a square matrix.")
+        _check_finite(covariance=cov)
         cov = 0.5 * (cov + cov.T)
 
         super()._init_constraints(mean, G, h, A, b)
-- 
2.43.0


From 3a97d9a1245bd187f1f97b2620799a7bf7c0987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 62/99] fix: mean-variance programmes normalise their
 inequality rows (return targets in their own units stalled the solver on
 ordinary markets)

---
 pyvallocation/optimization.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 2cd6145..e3ed192 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -192,11 +192,17 @@ def _solve_qp(P, q, G, h, A, b) -> dict:
     """Solve a QP with CVXOPT; a numerical breakdown counts as an unsolved problem.
 
     The objective is normalised because CVXOPT's gap tolerance is absolute: on
-    daily returns (variances near 1e-5) it would stop far from the optimum. On
+    daily returns (variances near 1e-5) it would stop far from the optimum. The
+    inequality rows are normalised because rows in other units (a return target
+    next to weight bounds) can stall the interior-point iterations. On
     infeasible problems the iterates can leave the cone, which CVXOPT reports
     with a bare ``ValueError: domain error`` or an ``ArithmeticError``.
     """
     scale = float(np.max(np.abs(np.asarray(P)))) or 1.0
+    if G is not None:
+        rows = np.abs(np.asarray(G)).max(axis=1)
+        rows[rows == 0.0] = 1.0
+        G, h = matrix(np.asarray(G) / rows[:, None]), matrix(np.asarray(h).ravel() / rows)
     try:
         return solvers.qp(P / scale, q / scale, G, h, A, b)
     except ArithmeticError:
-- 
2.43.0


From 09b4cb01c4f2fdd5b04c05d60ca74b09458c2210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:06 +0000
Subject: [PATCH 63/99] fix: stalled quadratic programmes are retried at
 another scale of the objective

---
 pyvallocation/optimization.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index e3ed192..f452f52 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -203,14 +203,19 @@ def _solve_qp(P, q, G, h, A, b) -> dict:
         rows = np.abs(np.asarray(G)).max(axis=1)
         rows[rows == 0.0] = 1.0
         G, h = matrix(np.asarray(G) / rows[:, None]), matrix(np.asarray(h).ravel() / rows)
-    try:
-        return solvers.qp(P / scale, q / scale, G, h, A, b)
-    except ArithmeticError:
-        return {"status": "unknown", "x": None}
-    except ValueError as exc:
-        if "domain error" not in str(exc):
-            raise
-        return {"status": "unknown", "x": None}
+    sol: dict = {"status": "unknown", "x": None}
+    for factor in (1.0, 0.1, 10.0):  # iterations that stall at one scale of the objective succeed at another
+        try:
+            sol = solvers.qp(P / (factor * scale), q / (factor * scale), G, h, A, b)
+        except ArithmeticError:
+            continue
+        except ValueError as exc:
+            if "domain error" not in str(exc):
+                raise
+            continue
+        if sol["status"] == "optimal":
+            break
+    return sol
 
 # ------------------------------------------------------------------ #
 # Result container
-- 
2.43.0


From 95157847f69c44e580192f1522014d15a97e2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 64/99] fix: moment estimators reject missing or infinite
 inputs (some returned finite estimates)

---
 pyvallocation/moments.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index d173a20..a9ce16f 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -182,10 +182,10 @@ def _wrap(x: np.ndarray, labels: Optional[Sequence[str]], vector: bool) -> Array
     return pd.DataFrame(x, index=labels, columns=labels)
 
 
-def _require_finite(X: np.ndarray) -> None:
-    """Raise if the return matrix has missing or infinite entries."""
+def _require_finite(X: np.ndarray, name: str = "R") -> None:
+    """Raise if an input has missing or infinite entries."""
     if not np.isfinite(X).all():
-        raise ValueError("Input `R` must contain only finite values.")
+        raise ValueError(f"Input `{name}` must contain only finite values.")
 
 
 def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, ArrayLike]:
@@ -219,6 +219,7 @@ def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, Arra
             negative values or does not sum to one.
     """
     R_arr = np.asarray(R, dtype=float)
+    _require_finite(R_arr)
     p_arr = np.asarray(p, dtype=float).reshape(-1)
     T, N = R_arr.shape
 
@@ -273,6 +274,8 @@ def shrink_mean_jorion(mu: ArrayLike, S: ArrayLike, T: int) -> ArrayLike:
         clipped between 0 and 1 to ensure a valid shrinkage factor.
     """
     mu_arr, S_arr = np.asarray(mu), np.asarray(S)
+    _require_finite(mu_arr, "mu")
+    _require_finite(S_arr, "S")
     N = mu_arr.size
     if T <= 0 or N <= 2 or S_arr.shape != (N, N):
         logger.error(
@@ -349,6 +352,8 @@ def shrink_covariance_ledoit_wolf(
         using `ensure_psd_matrix`.
     """
     R_arr, S_arr = np.asarray(R), np.asarray(S_hat)
+    _require_finite(R_arr)
+    _require_finite(S_arr, "S_hat")
     T, N = R_arr.shape
     if T == 0 or S_arr.shape != (N, N):
         logger.error(
@@ -479,6 +484,7 @@ def shrink_covariance_nls(
         ) from exc
 
     X = np.asarray(R_or_S, dtype=float)
+    _require_finite(X)
     if X.ndim != 2:
         raise ValueError("Input must be two-dimensional with shape (T, N).")
     k_arg: Optional[int] = None if dof_correction == 0 else int(dof_correction)
@@ -516,6 +522,7 @@ def factor_covariance_poet(
         :cite:p:`fan2013large`
     """
     X = np.asarray(R, dtype=float)
+    _require_finite(X)
     if X.ndim != 2:
         raise ValueError("Input `R` must be two-dimensional with shape (T, N).")
     T, N = X.shape
@@ -761,6 +768,7 @@ def covariance_ewma(
     """
     labels = _labels(R)
     X = np.asarray(R, dtype=float)
+    _require_finite(X)
     if X.ndim != 2:
         raise ValueError("Input `R` must be two-dimensional with shape (T, N).")
     T, N = X.shape
@@ -986,6 +994,8 @@ def shrink_mean_james_stein(
     """
     mu_arr = np.asarray(mu_hat, dtype=float).reshape(-1)
     Sigma = np.asarray(S, dtype=float)
+    _require_finite(mu_arr, "mu_hat")
+    _require_finite(Sigma, "S")
     if Sigma.ndim != 2 or Sigma.shape[0] != Sigma.shape[1]:
         raise ValueError("`S` must be a square covariance matrix.")
     N = mu_arr.size
@@ -1001,6 +1011,7 @@ def shrink_mean_james_stein(
     else:
         target = align_labelled_vector(target, _labels(mu_hat, S), "target")
         mu_target = np.asarray(target, dtype=float).reshape(-1)
+        _require_finite(mu_target, "target")
         if mu_target.size != N:
             raise ValueError("Custom target must have length N.")
 
@@ -1039,6 +1050,7 @@ def robust_mean_huber(
         :cite:p:`huber1964robust`
     """
     X = np.asarray(R, dtype=float)
+    _require_finite(X)
     if X.ndim != 2:
         raise ValueError("Input `R` must be two-dimensional with shape (T, N).")
     if not allow_vectorized:
@@ -1080,6 +1092,7 @@ def robust_mean_median_of_means(
         ArrayLike: Robust mean vector.
     """
     X = np.asarray(R, dtype=float)
+    _require_finite(X)
     if X.ndim != 2:
         raise ValueError("Input `R` must be two-dimensional with shape (T, N).")
     T, N = X.shape
-- 
2.43.0


From 9f714c6ebdfb7e178ce9a7af36e015fbd51b8dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 65/99] fix: projections and moment conversions reject missing
 or infinite inputs (undrawn or minus-infinite rows gave finite reports)

---
 pyvallocation/utils/projection.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index e1f0408..53426c9 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -107,6 +107,13 @@ def _wrap_matrix(x_np, template):
     )
 
 
+def _require_finite(**arrays):
+    """Raise ``ValueError`` if any named array has a NaN or infinite entry."""
+    for name, values in arrays.items():
+        if not np.isfinite(np.asarray(values, dtype=float)).all():
+            raise ValueError(f"`{name}` must contain only finite values.")
+
+
 def log2simple(mu_g, cov_g):
     r"""\mu,\Sigma of log-returns -> \mu,\Sigma of simple returns (vectorised, pandas-aware).
 
@@ -119,6 +126,7 @@ def log2simple(mu_g, cov_g):
     """
     mu_g_np = _to_numpy(mu_g)
     cov_g_np = _to_numpy(cov_g)
+    _require_finite(mu_g=mu_g_np, cov_g=cov_g_np)
 
     d = np.diag(cov_g_np)
     exp_mu = np.exp(mu_g_np + 0.5 * d)
@@ -144,6 +152,7 @@ def simple2log(mu_r, cov_r):
     """
     mu_r_np = _to_numpy(mu_r)
     cov_r_np = _to_numpy(cov_r)
+    _require_finite(mu_r=mu_r_np, cov_r=cov_r_np)
 
     m = mu_r_np + 1.0
     if np.any(m <= 0):
@@ -222,6 +231,7 @@ def project_scenarios(R, investment_horizon=2, p=None, n_simulations=1000,
     is_series = isinstance(R, pd.Series)
     is_dataframe = isinstance(R, pd.DataFrame)
     R_np = _to_numpy(R)
+    _require_finite(R=R_np)
 
     if R_np.ndim not in (1, 2):
         raise ValueError("`R` must be a 1D or 2D array-like of scenarios.")
@@ -288,6 +298,7 @@ def simulate_paths(
         risk-driver changes (or repriced values) at each time step.
     """
     R_np = _to_numpy(R)
+    _require_finite(R=R_np)
     if R_np.ndim == 1:
         R_np = R_np.reshape(-1, 1)
     if R_np.ndim != 2:
-- 
2.43.0


From d21b9bea1894127ab0ebc0e8b8a9c61fd0c8d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:35 +0000
Subject: [PATCH 66/99] fix: scenario counts and kernel probabilities reject
 invalid inputs (infinite probabilities counted as one scenario)

---
 pyvallocation/probabilities.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/probabilities.py b/pyvallocation/probabilities.py
index 282ab27..302d8d6 100644
--- a/pyvallocation/probabilities.py
+++ b/pyvallocation/probabilities.py
@@ -149,6 +149,8 @@ def generate_gaussian_kernel_probabilities(
         v = x.copy()
     else:
         v = np.asarray(v)
+    if not (np.isfinite(x).all() and np.isfinite(v).all()):
+        raise ValueError("Conditioning variables must contain only finite values.")
     if h is None:
         h = silverman_bandwidth(x)
     h = float(h)
@@ -163,6 +165,14 @@ def generate_gaussian_kernel_probabilities(
     return w / weight_sum
 
 
+def _valid_masses(probabilities: ProbabilityLike) -> np.ndarray:
+    """Return the probabilities as a flat array, rejecting negative or non-finite entries."""
+    p = np.asarray(probabilities, dtype=float).ravel()
+    if not np.isfinite(p).all() or (p < 0.0).any():
+        raise ValueError("Probabilities must be finite and non-negative.")
+    return p
+
+
 def compute_effective_number_scenarios(probabilities: np.ndarray) -> float:
     """Return the effective number of scenarios (entropy-based).
 
@@ -190,7 +200,7 @@ def compute_effective_number_scenarios(probabilities: np.ndarray) -> float:
     References:
         :cite:p:`meucci2012ens`
     """
-    p = np.asarray(probabilities, dtype=float).ravel()
+    p = _valid_masses(probabilities)
     # Use convention 0*log(0) = 0 via masking
     mask = p > 0
     entropy = -np.sum(p[mask] * np.log(p[mask]))
@@ -210,4 +220,4 @@ def compute_effective_number_scenarios_hhi(probabilities: np.ndarray) -> float:
     Returns:
         float: Herfindahl-based effective number of scenarios.
     """
-    return float(1.0 / np.sum(np.asarray(probabilities, dtype=float).ravel() ** 2))
+    return float(1.0 / np.sum(_valid_masses(probabilities) ** 2))
-- 
2.43.0


From 9ec552447ae971fe0f1a6e5c7b02502b267d6738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 67/99] fix: flexible views reject missing or infinite
 scenarios and prior moments

---
 pyvallocation/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 73e3ebd..22e5851 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -514,6 +514,8 @@ class FlexibleViewsProcessor:
                 self.assets = [str(i) for i in range(self.R.shape[1])]
                 self._use_pandas = False
 
+            if not np.isfinite(np.asarray(self.R, dtype=float)).all():
+                raise ValueError("`prior_risk_drivers` must contain only finite values.")
             S, N = self.R.shape
 
             if prior_probabilities is None:
@@ -564,6 +566,8 @@ class FlexibleViewsProcessor:
                 raise ValueError(
                     f"`prior_cov` must be a square matrix of shape ({N}, {N})."
                 )
+            if not (np.isfinite(mu).all() and np.isfinite(cov).all()):
+                raise ValueError("`prior_mean` and `prior_cov` must contain only finite values.")
             cov = 0.5 * (cov + cov.T)
             cov = cov + np.eye(N) * 1e-6
             chol = _cholesky_pd(cov)
-- 
2.43.0


From 49da8f9a0f9eb15ab2f0baa1c9053625dbecd4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 68/99] fix: robust frontiers reject an unusable return_cov
 instead of silently dropping the volatility

---
 pyvallocation/portfolioapi.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index aaa05bb..929e06d 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1521,20 +1521,19 @@ class PortfolioWrapper:
         if return_cov is None and self._uncertainty_cov is not None:
             return_cov = self.dist.cov  # Sigma_ce lives in dist.cov after from_robust_posterior
         if return_cov is not None:
-            try:
-                cov_ref = return_cov
-                if isinstance(cov_ref, pd.DataFrame):
-                    if self.dist.asset_names is not None:
-                        cov_ref = cov_ref.loc[self.dist.asset_names, self.dist.asset_names]
-                    cov_ref = cov_ref.to_numpy(dtype=float)
-                else:
-                    cov_ref = np.asarray(cov_ref, dtype=float)
-                if cov_ref.shape != (weights_arr.shape[0], weights_arr.shape[0]):
-                    raise ValueError("`return_cov` must be a square matrix matching asset count.")
-                vols = np.sqrt(np.sum((weights_arr.T @ cov_ref) * weights_arr.T, axis=1))
-                alternate_risks["Volatility"] = vols
-            except Exception as exc:  # pragma: no cover - defensive
-                logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
+            cov_ref = return_cov
+            if isinstance(cov_ref, pd.DataFrame):
+                if self.dist.asset_names is not None:
+                    cov_ref = cov_ref.loc[self.dist.asset_names, self.dist.asset_names]
+                cov_ref = cov_ref.to_numpy(dtype=float)
+            else:
+                cov_ref = np.asarray(cov_ref, dtype=float)
+            if cov_ref.shape != (weights_arr.shape[0], weights_arr.shape[0]):
+                raise ValueError("`return_cov` must be a square matrix matching asset count.")
+            if not np.all(np.isfinite(cov_ref)):
+                raise ValueError("`return_cov` must contain only finite values.")
+            vols = np.sqrt(np.sum((weights_arr.T @ cov_ref) * weights_arr.T, axis=1))
+            alternate_risks["Volatility"] = vols
 
         if self.dist.scenarios is not None:
             try:
-- 
2.43.0


From d13d8eeed0ec1afd642ac2ceeed49daadfafa889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 69/99] fix: portfolio variance and volatility reject missing
 or infinite covariances

---
 pyvallocation/utils/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index c3c733e..bb066b5 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -43,6 +43,8 @@ def portfolio_variance(
     """
     W = _ensure_weights_matrix(w)
     cov_np = np.asarray(cov, dtype=float)
+    if not np.isfinite(cov_np).all():
+        raise ValueError("Covariance must contain only finite values.")
     quad = np.sum((W.T @ cov_np) * W.T, axis=1)
     return quad.item() if quad.size == 1 else quad
 
-- 
2.43.0


From 30dfc80593bd67b528a0d06f7aa24978400f5604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 70/99] fix: from_scenarios rejects infinite scenarios before
 converting them (minus-infinite log returns became total losses)

---
 pyvallocation/portfolioapi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 929e06d..0977c1e 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -874,6 +874,8 @@ class PortfolioWrapper:
             >>> frontier = wrapper.variance_frontier()
         """
 
+        if not np.all(np.isfinite(np.asarray(scenarios, dtype=float))):
+            raise ValueError("`scenarios` must contain only finite values.")
         if return_type == "log":
             from .utils.projection import convert_scenarios_compound_to_simple
             is_df = isinstance(scenarios, pd.DataFrame)
-- 
2.43.0


From 0effa8a2fd03e32532767cc5a2bd2294e0cc938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:06 +0000
Subject: [PATCH 71/99] fix: performance reports reject weights held in assets
 the scenarios lack

Weights whose labels the scenarios do not know were silently dropped by the
reindexing, so the report described a smaller portfolio than the one given.
---
 pyvallocation/utils/performance.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 9c071e1..1e7b29b 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -23,6 +23,18 @@ WeightsLike = Union[np.ndarray, pd.Series, pd.DataFrame]
 __all__ = ["scenario_pnl", "performance_report", "horizon_report", "drawdown_quantile"]
 
 
+def _reindex_weights(weights, columns):
+    """Reorder labelled weights to ``columns``; weight held elsewhere is an error."""
+    if columns is not None and list(weights.index) != columns:
+        unknown = weights.loc[~weights.index.isin(columns)]
+        if (unknown != 0).any(axis=None):
+            raise ValueError(
+                f"Weight labels not found in scenario asset names: {list(unknown.index)}"
+            )
+        weights = weights.reindex(columns)
+    return weights
+
+
 def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
     """
     Compute scenario-by-scenario portfolio P&L.
@@ -64,14 +76,12 @@ def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
         weights = pd.Series(weights, dtype=float)
 
     if isinstance(weights, pd.Series):
-        if columns is not None and list(weights.index) != columns:
-            weights = weights.reindex(columns)
+        weights = _reindex_weights(weights, columns)
         if weights.isna().any():
             raise ValueError("Weight labels do not match scenario asset names after reindexing.")
         w = weights.to_numpy(dtype=float).reshape(-1, 1)
     elif isinstance(weights, pd.DataFrame):
-        if columns is not None and list(weights.index) != columns:
-            weights = weights.reindex(columns)
+        weights = _reindex_weights(weights, columns)
         if weights.isna().any().any():
             raise ValueError("Weight labels do not match scenario asset names after reindexing.")
         w = weights.to_numpy(dtype=float)
@@ -161,8 +171,7 @@ def performance_report(
     p = resolve_probabilities(probabilities, R_arr.shape[0])
 
     if isinstance(weights, pd.Series):
-        if asset_names is not None and list(weights.index) != asset_names:
-            weights = weights.reindex(asset_names)
+        weights = _reindex_weights(weights, asset_names)
         if weights.isna().any():
             raise ValueError(
                 "Weight labels do not match scenario asset names after reindexing."
@@ -171,8 +180,7 @@ def performance_report(
     elif isinstance(weights, pd.DataFrame):
         if weights.shape[1] != 1:
             raise ValueError("`weights` must represent a single allocation.")
-        if asset_names is not None and list(weights.index) != asset_names:
-            weights = weights.reindex(asset_names)
+        weights = _reindex_weights(weights, asset_names)
         if weights.isna().any().any():
             raise ValueError(
                 "Weight labels do not match scenario asset names after reindexing."
-- 
2.43.0


From 7c35dc691aa5b7a0ccdc112f01ae88d7192974c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:26 +0000
Subject: [PATCH 72/99] fix: drawdown_quantile rejects weights of other
 instruments

Labelled weights that do not match the invariants were applied by position.
---
 pyvallocation/utils/performance.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 1e7b29b..e412359 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -305,12 +305,16 @@ def drawdown_quantile(
     """
     from .projection import simulate_paths, reprice_exp as _reprice_exp
 
-    if reprice is None:
-        reprice = _reprice_exp
-
     if isinstance(weights, pd.Series) and isinstance(invariants, pd.DataFrame):
         if set(weights.index) == set(invariants.columns):
             weights = weights.reindex(invariants.columns)
+        elif reprice is None and not isinstance(weights.index, pd.RangeIndex):
+            # Only a custom repricer may map the invariants to other instruments.
+            raise ValueError("Weight labels do not match the invariant names.")
+
+    if reprice is None:
+        reprice = _reprice_exp
+
     w = np.asarray(weights, dtype=float).ravel()
     if not np.isfinite(w).all():
         raise ValueError("`weights` must contain only finite values.")
-- 
2.43.0


From 15260eacec1c5eaa67051cd555cf679d4bb65cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 73/99] fix: risk functions align labelled weights with
 labelled inputs

portfolio_variance, portfolio_volatility, portfolio_var and portfolio_cvar
accept pandas inputs but paired weights and assets by position, so weights in
another asset order silently gave the risk of a different portfolio.
---
 pyvallocation/utils/functions.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index bb066b5..765b3fb 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -4,6 +4,24 @@ from __future__ import annotations
 import numpy as np
 import pandas as pd
 
+
+def _align_rows(w, reference):
+    """Order the rows of labelled weights as the columns of a labelled reference.
+
+    A default integer index is positional; labels the reference lacks are an error.
+    """
+    if not isinstance(w, (pd.Series, pd.DataFrame)) or not isinstance(reference, pd.DataFrame):
+        return w
+    names = list(reference.columns)
+    if list(w.index) == names:
+        return w
+    if w.index.is_unique and set(w.index) == set(names):
+        return w.reindex(names)
+    if isinstance(w.index, pd.RangeIndex) or isinstance(reference.columns, pd.RangeIndex):
+        return w
+    raise ValueError("Weight labels do not match the asset names.")
+
+
 def _ensure_weights_matrix(w: np.ndarray | pd.Series | pd.DataFrame) -> np.ndarray:
     """Accept vector or matrix weights and return an ``(N, M)`` ndarray.
 
@@ -41,7 +59,7 @@ def portfolio_variance(
     Returns:
         Scalar variance (single portfolio) or ``(M,)`` array for multiple portfolios.
     """
-    W = _ensure_weights_matrix(w)
+    W = _ensure_weights_matrix(_align_rows(w, cov))
     cov_np = np.asarray(cov, dtype=float)
     if not np.isfinite(cov_np).all():
         raise ValueError("Covariance must contain only finite values.")
@@ -98,7 +116,7 @@ def portfolio_cvar(
     if demean:
         R_arr = R_arr - p.T @ R_arr
 
-    W = _ensure_weights_matrix(w)
+    W = _ensure_weights_matrix(_align_rows(w, R))
     with np.errstate(over='ignore', under='ignore', invalid='ignore', divide='ignore'):
         pf_pnl = R_arr @ W
     if pf_pnl.ndim == 1:
@@ -161,7 +179,7 @@ def portfolio_var(
         R_arr = R_arr - p.T @ R_arr
 
     with np.errstate(over='ignore', under='ignore', invalid='ignore', divide='ignore'):
-        pf_pnl = R_arr @ _ensure_weights_matrix(w)
+        pf_pnl = R_arr @ _ensure_weights_matrix(_align_rows(w, R))
     if pf_pnl.ndim == 1:
         pf_pnl = pf_pnl.reshape(-1, 1)
 
-- 
2.43.0


From 035f6c0753aa40852ab8cbf895490501cc33f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 74/99] fix: Black-Litterman aligns the columns of prior_cov
 with its rows

A covariance frame with its columns in another order than its rows was read by
position (and then averaged with its transpose).
---
 pyvallocation/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 22e5851..f0511fe 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1350,6 +1350,10 @@ class BlackLittermanProcessor:
 
         # ---------- \Sigma (prior covariance) --------------------------------
         self._is_pandas: bool = isinstance(prior_cov, pd.DataFrame)
+        if self._is_pandas and list(prior_cov.columns) != list(prior_cov.index):
+            if not prior_cov.index.is_unique or set(prior_cov.columns) != set(prior_cov.index):
+                raise ValueError("`prior_cov` rows and columns must carry the same asset labels.")
+            prior_cov = prior_cov.reindex(columns=prior_cov.index)
         self._assets: List[Union[str, int]] = (
             list(prior_cov.index)
             if self._is_pandas
-- 
2.43.0


From 238d8e0a459781375f7595a23e92498295db4b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 75/99] fix: synthetic views prior rejects a covariance of
 other assets

A prior_cov frame naming other assets than prior_mean was used by position.
---
 pyvallocation/views.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index f0511fe..bc03cf9 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -552,7 +552,14 @@ class FlexibleViewsProcessor:
 
             if isinstance(prior_cov, pd.DataFrame):
                 if self._use_pandas and prior_cov.index.is_unique and set(prior_cov.index) == set(self.assets):
-                    prior_cov = prior_cov.reindex(index=self.assets, columns=self.assets)
+                    if set(prior_cov.columns) == set(self.assets):
+                        prior_cov = prior_cov.reindex(index=self.assets, columns=self.assets)
+                    else:
+                        raise ValueError("`prior_cov` rows and columns must carry the same asset labels.")
+                elif self._use_pandas and not any(
+                    isinstance(x.index, pd.RangeIndex) for x in (prior_mean, prior_cov)
+                ):
+                    raise ValueError("`prior_mean` and `prior_cov` must carry the same asset labels.")
                 cov = prior_cov.values.astype(float)
                 if not self._use_pandas:
                     self.assets = list(prior_cov.index)
-- 
2.43.0


From 4a7ab5e426a775563314fa57e0e39ee6beda09e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 76/99] fix: moment conversions align a labelled covariance
 with the mean

log2simple and simple2log paired labelled means and covariances by position, so
a covariance in another asset order gave moments of a different market.
---
 pyvallocation/utils/projection.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 53426c9..0ace1c6 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -114,6 +114,19 @@ def _require_finite(**arrays):
             raise ValueError(f"`{name}` must contain only finite values.")
 
 
+def _align_cov(mu, cov):
+    """Order a labelled covariance as a labelled mean; other labels are an error."""
+    if not (isinstance(mu, pd.Series) and isinstance(cov, pd.DataFrame)):
+        return cov
+    if list(cov.index) == list(mu.index) == list(cov.columns):
+        return cov
+    if mu.index.is_unique and set(cov.index) == set(mu.index) == set(cov.columns):
+        return cov.reindex(index=mu.index, columns=mu.index)
+    if isinstance(mu.index, pd.RangeIndex) or isinstance(cov.index, pd.RangeIndex):
+        return cov
+    raise ValueError("The mean and the covariance must carry the same asset labels.")
+
+
 def log2simple(mu_g, cov_g):
     r"""\mu,\Sigma of log-returns -> \mu,\Sigma of simple returns (vectorised, pandas-aware).
 
@@ -124,6 +137,7 @@ def log2simple(mu_g, cov_g):
     Returns:
         Tuple[ArrayLike, ArrayLike]: Mean and covariance in simple-return units.
     """
+    cov_g = _align_cov(mu_g, cov_g)
     mu_g_np = _to_numpy(mu_g)
     cov_g_np = _to_numpy(cov_g)
     _require_finite(mu_g=mu_g_np, cov_g=cov_g_np)
@@ -150,6 +164,7 @@ def simple2log(mu_r, cov_r):
     Returns:
         Tuple[ArrayLike, ArrayLike]: Mean and covariance in log-return units.
     """
+    cov_r = _align_cov(mu_r, cov_r)
     mu_r_np = _to_numpy(mu_r)
     cov_r_np = _to_numpy(cov_r)
     _require_finite(mu_r=mu_r_np, cov_r=cov_r_np)
-- 
2.43.0


From 41900c86d93985166852ac174c05e9b058e00fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 77/99] fix: from_robust_posterior aligns the mean uncertainty
 with the mean

A labelled s_mu in another asset order than mu was used by position.
---
 pyvallocation/portfolioapi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 0977c1e..ea54ce1 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -957,6 +957,10 @@ class PortfolioWrapper:
             bounds=bounds,
         )
         wrapper._return_type = "log"
+        if isinstance(s_mu, pd.DataFrame) and isinstance(mu, pd.Series):
+            if set(s_mu.index) != set(mu.index) or set(s_mu.columns) != set(mu.index):
+                raise ValueError("`posterior.mu` and `posterior.s_mu` must carry the same asset labels.")
+            s_mu = s_mu.reindex(index=mu.index, columns=mu.index)
         wrapper._uncertainty_cov = np.asarray(s_mu, dtype=float)
         return wrapper
 
-- 
2.43.0


From 81169b42646fd6e441a55f839f4628ffb837b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:06 +0000
Subject: [PATCH 78/99] fix: shrinkage estimators reject a covariance whose
 rows name other assets

Only the columns of a labelled covariance were compared with the mean.
---
 pyvallocation/moments.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index a9ce16f..d91ab53 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -164,6 +164,16 @@ def _labels(*objs: ArrayLike) -> Optional[Sequence[str]]:
     return found
 
 
+def _require_same_axes(S: ArrayLike, name: str) -> None:
+    """Reject a labelled covariance whose rows name other assets than its columns."""
+    if (
+        isinstance(S, pd.DataFrame)
+        and not isinstance(S.index, pd.RangeIndex)
+        and S.index.to_list() != S.columns.to_list()
+    ):
+        raise ValueError(f"`{name}` must carry the same labels on its rows and columns.")
+
+
 def _wrap(x: np.ndarray, labels: Optional[Sequence[str]], vector: bool) -> ArrayLike:
     """Wrap arrays into pandas containers when labels are available.
 
@@ -276,6 +286,7 @@ def shrink_mean_jorion(mu: ArrayLike, S: ArrayLike, T: int) -> ArrayLike:
     mu_arr, S_arr = np.asarray(mu), np.asarray(S)
     _require_finite(mu_arr, "mu")
     _require_finite(S_arr, "S")
+    _require_same_axes(S, "S")
     N = mu_arr.size
     if T <= 0 or N <= 2 or S_arr.shape != (N, N):
         logger.error(
@@ -354,6 +365,7 @@ def shrink_covariance_ledoit_wolf(
     R_arr, S_arr = np.asarray(R), np.asarray(S_hat)
     _require_finite(R_arr)
     _require_finite(S_arr, "S_hat")
+    _require_same_axes(S_hat, "S_hat")
     T, N = R_arr.shape
     if T == 0 or S_arr.shape != (N, N):
         logger.error(
@@ -996,6 +1008,7 @@ def shrink_mean_james_stein(
     Sigma = np.asarray(S, dtype=float)
     _require_finite(mu_arr, "mu_hat")
     _require_finite(Sigma, "S")
+    _require_same_axes(S, "S")
     if Sigma.ndim != 2 or Sigma.shape[0] != Sigma.shape[1]:
         raise ValueError("`S` must be a square covariance matrix.")
     N = mu_arr.size
-- 
2.43.0


From f84a9dc316e5f06aa4733c712625b38d443db23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:11 +0000
Subject: [PATCH 79/99] fix: portfolio variance aligns the rows of a labelled
 covariance with its columns

---
 pyvallocation/utils/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 765b3fb..173e112 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -59,6 +59,7 @@ def portfolio_variance(
     Returns:
         Scalar variance (single portfolio) or ``(M,)`` array for multiple portfolios.
     """
+    cov = _align_rows(cov, cov)
     W = _ensure_weights_matrix(_align_rows(w, cov))
     cov_np = np.asarray(cov, dtype=float)
     if not np.isfinite(cov_np).all():
-- 
2.43.0


From 5cdf139dcfbd88ce311c6572c564362eb2026dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 80/99] fix: Idzorek confidences outside [0, 1] are rejected

They were clipped, so a confidence written as a percentage became certainty.
---
 pyvallocation/views.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index bc03cf9..c85d435 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1581,6 +1581,8 @@ class BlackLittermanProcessor:
         if isinstance(omega, str) and omega.lower() == "idzorek":
             if self._conf is None:
                 raise ValueError("Idzorek requires view_confidences.")
+            if not ((self._conf >= 0.0) & (self._conf <= 1.0)).all():
+                raise ValueError("view_confidences must lie in [0, 1].")
             # Simplified closed-form Idzorek approximation (Walters 2014).
             # For the full iterative 7-step procedure, see Idzorek (2005) Eqs. 12-18.
             # Note: multi-asset basket views in P are not yet supported (pair-wise only).
-- 
2.43.0


From 1c7088c0be39b92665525aa1ca840b44dab7b49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 81/99] fix: a NaN risk percentile is rejected

Every comparison with NaN is false, so it selected the first portfolio.
---
 pyvallocation/portfolioapi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index ea54ce1..dae884d 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -600,7 +600,7 @@ class PortfolioFrontier:
             if pct > 100.0:
                 raise ValueError("`percentile` must be within [0, 1] or [0, 100].")
             pct /= 100.0
-        if pct < 0.0 or pct > 1.0:
+        if not 0.0 <= pct <= 1.0:
             raise ValueError("`percentile` must be within [0, 1] or [0, 100].")
         return pct
 
-- 
2.43.0


From c456c08cca5a7612488e3ee553353b36cee84f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 82/99] fix: project_mean_covariance rejects invalid factors
 and non-finite moments

A negative or NaN annualization factor produced an invalid covariance that the
optimisers then repaired into an unrelated one.
---
 pyvallocation/utils/projection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 0ace1c6..4027e32 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -22,6 +22,9 @@ def project_mean_covariance(
     Returns:
         tuple: Scaled mean vector and covariance matrix.
     """
+    if not 0 < annualization_factor < np.inf:
+        raise ValueError("`annualization_factor` must be positive and finite.")
+    _require_finite(mu=mu, cov=cov)
 
     return mu * annualization_factor, cov * annualization_factor
 
-- 
2.43.0


From 7f234cd0daaf0e279810af35732cbd2dd9c8497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:04 +0000
Subject: [PATCH 83/99] fix: tangency rejects a non-finite risk-free rate

Every Sharpe ratio became -inf, so the first portfolio was reported as tangency.
---
 pyvallocation/portfolioapi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index dae884d..b7ddf54 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -462,6 +462,8 @@ class PortfolioFrontier:
                 "All portfolios on the frontier have zero risk. Sharpe ratio is undefined."
             )
 
+        if not np.isfinite(risk_free_rate):
+            raise ValueError("`risk_free_rate` must be finite.")
         with np.errstate(divide='ignore', invalid='ignore'):
             sharpe_ratios = (self.returns - risk_free_rate) / self.risks
         sharpe_ratios[~np.isfinite(sharpe_ratios)] = -np.inf
-- 
2.43.0


From 23e5e04ff038f2d75099744b8c233a4de0795358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 84/99] fix: maximum-Sharpe programmes that stall are retried
 at another scale

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index f452f52..9384f38 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -558,7 +558,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         G_mat = np.vstack(G_rows)
 
         try:
-            sol = solvers.qp(
+            sol = _solve_qp(
                 matrix(P), matrix(np.zeros(N + 1)),
                 matrix(G_mat), matrix(np.zeros(G_mat.shape[0])),
                 matrix(np.vstack(A_rows)), matrix(np.array(b_vals, dtype=float)),
-- 
2.43.0


From 81ab93463e12216cfdf514a52212b5828dbd80fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 85/99] fix: cone programmes whose iterates leave the cone
 count as unsolved (bare 'math domain error' escaped the relaxed risk-parity
 fallback)

---
 pyvallocation/optimization.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 9384f38..f6f8f92 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -217,6 +217,18 @@ def _solve_qp(P, q, G, h, A, b) -> dict:
             break
     return sol
 
+
+def _solve_cone(*args, **kwargs) -> dict:
+    """Solve a cone programme with CVXOPT; a numerical breakdown counts as an unsolved problem."""
+    try:
+        return solvers.conelp(*args, **kwargs)
+    except ArithmeticError:
+        return {"status": "unknown", "x": None}
+    except ValueError as exc:
+        if "domain error" not in str(exc):
+            raise
+        return {"status": "unknown", "x": None}
+
 # ------------------------------------------------------------------ #
 # Result container
 # ------------------------------------------------------------------ #
@@ -996,7 +1008,7 @@ class RobustOptimizer(_BaseOptimization):
                 np.asarray(self._b).ravel(),
             ) if self._A is not None else (None, None)
 
-        sol = solvers.conelp(
+        sol = _solve_cone(
             matrix(c),
             matrix([matrix(G_lin), matrix(G_soc)]),
             matrix([matrix(h_lin), matrix(h_soc)]),
@@ -1270,7 +1282,7 @@ class RelaxedRiskParity(_BaseOptimization):
             else np.hstack(h_soc_all)
         )
 
-        sol = solvers.conelp(
+        sol = _solve_cone(
             matrix(c),
             matrix(G_total),
             matrix(h_total),
-- 
2.43.0


From beb3a0ef189531889ed1e168b7f3aadfa9a3060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:47 +0000
Subject: [PATCH 86/99] fix: the highest attainable return is found for
 intraday means

---
 pyvallocation/optimization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index f6f8f92..bc36343 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -363,9 +363,11 @@ class _BaseOptimization(ABC):
         the current constraint set.  Used to anchor the **right end** of every
         efficient frontier.
         """
-        sol = _solve_lp(self._expected_row.T, self._G, self._h, self._A, self._b)
+        # GLPK's optimality tolerance is absolute: intraday means would end at a worse vertex
+        scale = float(np.max(np.abs(np.asarray(self._expected_row)))) or 1.0
+        sol = _solve_lp(self._expected_row.T / scale, self._G, self._h, self._A, self._b)
         self._assert_optimal(sol, "LP")
-        return -sol["primal objective"]
+        return -sol["primal objective"] * scale
 
 # ------------------------------------------------------------------ #
 # Frontier mix-in
-- 
2.43.0


From 2d514d61e4b507aaef95b0e6d53a929980c60d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 87/99] fix: a view on a ranked pair does not replace the
 ranking

---
 pyvallocation/views.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index c85d435..98200a9 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -644,8 +644,9 @@ class FlexibleViewsProcessor:
                 raise ValueError("`rank_mean` requires at least 2 assets.")
             for i in range(len(rank_mean) - 1):
                 pair = (rank_mean[i], rank_mean[i + 1])
-                if pair not in self.mean_views:
-                    self.mean_views[pair] = (">=", 0.0)
+                # a view on the same pair does not replace the ranking
+                own = (self.mean_views[pair],) if pair in self.mean_views else ()
+                self.mean_views[pair] = ("all", *own, (">=", 0.0))
 
         self.sequential = bool(sequential)
 
@@ -702,6 +703,8 @@ class FlexibleViewsProcessor:
         Handles all formats accepted by :meth:`_parse_view` plus the
         ``between(lo, hi)`` range syntax, which expands to two constraints.
         """
+        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == "all":
+            return [spec for view in v[1:] for spec in FlexibleViewsProcessor._parse_view_specs(view)]
         if (
             isinstance(v, (list, tuple))
             and len(v) == 3
-- 
2.43.0


From d34f4f778e940311d3617433f52cc7193aca7b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:54 +0000
Subject: [PATCH 88/99] fix: frontier reports mark the portfolio whose weights
 they show (tangency reports always raised)

---
 pyvallocation/plotting.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 89f7331..3d6ec7f 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -934,22 +934,40 @@ def plot_frontier_report(
     ax_frontier, ax_weights = axes
 
     selection_key = selection.lower()
+    selection_key = {
+        "minimum_risk": "min_risk",
+        "maximum_return": "max_return",
+        "max_sharpe": "tangency",
+        "sharpe": "tangency",
+    }.get(selection_key, selection_key)
     selection_kwargs = dict(selection_kwargs or {})
+    risk_free_rate = float(selection_kwargs.pop("risk_free_rate", 0.0))
 
     selected_weights = weights
     selected_risk = None
     selected_return = None
 
     if selected_weights is None:
-        if selection_key in {"min_risk", "minimum_risk"}:
+        if selection_key == "min_risk":
             selected_weights, selected_return, selected_risk = frontier.min_risk(
                 risk_label=risk_label
             )
-        elif selection_key in {"max_return", "maximum_return"}:
+        elif selection_key == "max_return":
             selected_weights, selected_return, selected_risk = frontier.max_return()
-        elif selection_key in {"tangency", "max_sharpe", "sharpe"}:
-            rf = float(selection_kwargs.pop("risk_free_rate", 0.0))
-            selected_weights, selected_return, selected_risk = frontier.tangency(rf)
+        elif selection_key == "tangency":
+            selected_weights, selected_return, selected_risk = frontier.tangency(
+                risk_free_rate
+            )
+            if risk_label not in (None, frontier.risk_measure):
+                # The chart ranks by the plotted measure; show that portfolio's weights.
+                resolved = _resolve_highlight(
+                    frontier,
+                    "tangency",
+                    risk_vector=frontier._risk_vector(risk_label),
+                    risk_free_rate=risk_free_rate,
+                )
+                if resolved is not None:
+                    _, selected_risk, selected_return, selected_weights, _ = resolved
         elif selection_key in {"risk_target", "max_return_subject_to_risk"}:
             max_risk = float(selection_kwargs.pop("max_risk"))
             selected_weights, selected_return, selected_risk = frontier.at_risk(
@@ -983,7 +1001,7 @@ def plot_frontier_report(
         frontier,
         ax=ax_frontier,
         highlight=highlight,
-        risk_free_rate=selection_kwargs.get("risk_free_rate"),
+        risk_free_rate=risk_free_rate,
         show_points=show_points,
         percent_axes=percent_axes,
         risk_label=risk_label,
-- 
2.43.0


From 298c72d526035645f989c861cc29d05a6e327a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 89/99] fix: frontier grids draw every frontier of a group
 (same-named ones overwrote each other)

---
 pyvallocation/plotting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 3d6ec7f..ebcc067 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -444,11 +444,10 @@ def plot_frontiers_grid(
     normalized = _normalize_frontiers(frontiers, labels)
     grouper = by or (lambda supplied, fr: fr.risk_measure or "Risk")
 
-    grouped: "OrderedDict[str, OrderedDict[str, PortfolioFrontier]]" = OrderedDict()
+    grouped: "OrderedDict[str, List[Tuple[Optional[str], PortfolioFrontier]]]" = OrderedDict()
     for supplied_label, frontier in normalized:
         key = str(grouper(supplied_label, frontier))
-        bucket = grouped.setdefault(key, OrderedDict())
-        bucket[supplied_label or frontier.risk_measure] = frontier
+        grouped.setdefault(key, []).append((supplied_label, frontier))
 
     if not grouped:
         raise ValueError("No frontiers supplied.")
@@ -458,7 +457,7 @@ def plot_frontiers_grid(
     fig, axes = plt.subplots(rows, cols, figsize=figsize, sharex=sharex, sharey=sharey)
     axes_flat = np.atleast_1d(axes).ravel()
 
-    for ax, (group_name, mapping) in zip(axes_flat, grouped.items()):
+    for ax, (group_name, members) in zip(axes_flat, grouped.items()):
         show_legend = legend
         if legend_policy == "auto":
             show_legend = legend and len(grouped) == 1
@@ -470,7 +469,8 @@ def plot_frontiers_grid(
             raise ValueError("`legend_policy` must be 'auto', 'each', or 'none'.")
 
         plot_frontiers(
-            mapping,
+            [frontier for _, frontier in members],
+            labels=[supplied_label for supplied_label, _ in members],
             ax=ax,
             highlight=highlight,
             risk_free_rate=risk_free_rate,
-- 
2.43.0


From 137417d25e18ea256379b7fafd858d69e9324f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 90/99] fix: frontier grids accept the documented legend policy
 'all'

---
 pyvallocation/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index ebcc067..85b0b22 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -463,10 +463,10 @@ def plot_frontiers_grid(
             show_legend = legend and len(grouped) == 1
         elif legend_policy == "none":
             show_legend = False
-        elif legend_policy == "each":
+        elif legend_policy in {"each", "all"}:
             show_legend = legend
         else:
-            raise ValueError("`legend_policy` must be 'auto', 'each', or 'none'.")
+            raise ValueError("`legend_policy` must be 'auto', 'each' ('all'), or 'none'.")
 
         plot_frontiers(
             [frontier for _, frontier in members],
-- 
2.43.0


From 54c1df7206f42d86ff9f961d53bf9822b3c2a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 91/99] fix: bar charts of weights keep their asset labels (the
 category axis was formatted as percentages)

---
 pyvallocation/plotting.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 85b0b22..431480e 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -533,9 +533,8 @@ def plot_weights(
         try:
             from matplotlib.ticker import FuncFormatter
             fmt = FuncFormatter(lambda x, _pos: f"{x:.1%}")
-            ax.xaxis.set_major_formatter(fmt)
-            if kind == "bar":
-                ax.yaxis.set_major_formatter(fmt)
+            value_axis = ax.xaxis if kind == "barh" else ax.yaxis
+            value_axis.set_major_formatter(fmt)
         except Exception:  # pragma: no cover
             pass
 
-- 
2.43.0


From eb6347f1e460cdb297d024fe4c0a76d17679237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 92/99] fix: plot_param_impact draws on supplied axes (it
 crashed on any pair)

---
 pyvallocation/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 431480e..822a29c 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -641,8 +641,8 @@ def plot_param_impact(
     if ax is None:
         fig, axes = plt.subplots(1, 2, figsize=(8, 3))
     else:
-        fig = ax.figure
         axes = ax
+        fig = axes[0].figure
 
     ax_return, ax_risk = axes
     ax_return.plot(values, returns, marker="o")
-- 
2.43.0


From 6d0349d3be613905e5ff77c259bab10ab6a4adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:45 +0000
Subject: [PATCH 93/99] fix: assembling a single specification with
 ensemble="stack" returns its portfolio (the documented example raised)

---
 pyvallocation/ensembles.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index d7a8e8b..b369f4a 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -562,6 +562,11 @@ def assemble_portfolio_ensemble(
                 if entry == "average":
                     ensembles["average"] = average_exposures(selection_df, weights=ensemble_weights)
                 elif entry == "stack":
+                    if total_portfolios == 1:  # its own only convex combination
+                        ensembles["stack"] = average_exposures(selection_df).rename(
+                            f"Exposure Stacking (L={folds})"
+                        )
+                        continue
                     ensembles["stack"] = exposure_stacking(
                         selection_df,
                         L=folds,
@@ -602,6 +607,11 @@ def assemble_portfolio_ensemble(
                         ),
                     )
                 elif entry == "stack":
+                    if total_portfolios == 1:  # its own only convex combination
+                        ensembles["stack"] = average_frontiers(
+                            frontier_list, selections=cleaned_selections
+                        ).rename(f"Exposure Stacking (L={folds})")
+                        continue
                     ensembles["stack"] = exposure_stack_frontiers(
                         frontier_list,
                         L=folds,
-- 
2.43.0


From ef9cc603988c04348886567b8c560a56ac3498a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:42 +0000
Subject: [PATCH 94/99] fix: specifications made from a wrapper keep its
 constraints, costs, return convention and mean uncertainty

---
 pyvallocation/portfolioapi.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index b7ddf54..af2afa5 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -2084,9 +2084,11 @@ class PortfolioWrapper:
     ) -> EnsembleSpec:
         """
         Convenience wrapper around :func:`pyvallocation.ensembles.make_portfolio_spec`
-        that reuses the wrapper's distribution.
+        that reuses the wrapper's distribution, together with its default constraints,
+        costs, return convention and mean uncertainty. ``constraints`` and ``costs`` in
+        ``optimiser_kwargs`` take precedence over the wrapper's own.
         """
-        from .ensembles import make_portfolio_spec
+        from .ensembles import _resolve_optimiser, make_portfolio_spec
 
         use_scenarios = self.dist.scenarios is not None
 
@@ -2098,16 +2100,30 @@ class PortfolioWrapper:
             """
             return copy.deepcopy(self.dist)
 
+        run = _resolve_optimiser(optimiser)
+        own_constraints = (optimiser_kwargs or {}).get("constraints") is None
+
+        def _optimiser(wrapper: PortfolioWrapper, **kwargs: Any) -> PortfolioFrontier:
+            """Run the optimiser under this wrapper's settings."""
+            inherited = ["initial_weights", "market_impact_costs", "proportional_costs"]
+            inherited += ["_return_type", "_uncertainty_cov"]
+            if own_constraints:
+                inherited += ["G", "h", "A", "b"]
+            for attribute in inherited:
+                setattr(wrapper, attribute, copy.deepcopy(getattr(self, attribute)))
+            return run(wrapper, **kwargs)
+
+        label = optimiser if isinstance(optimiser, str) else getattr(optimiser, "__name__", repr(optimiser))
         return make_portfolio_spec(
             name=name,
             distribution_factory=_distribution_factory,
             use_scenarios=use_scenarios,
-            optimiser=optimiser,
+            optimiser=_optimiser,
             optimiser_kwargs=optimiser_kwargs,
             selector=selector,
             selector_kwargs=selector_kwargs,
             frontier_selection=frontier_selection,
-            metadata=metadata,
+            metadata={"optimiser": label, **(metadata or {})},
         )
 
     def assemble_ensembles(
-- 
2.43.0


From f15817d05d329db3733330fab78912e54cd9318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:58 +0000
Subject: [PATCH 95/99] fix: equality rows implied by others (a repeated
 budget, sectors that sum to it) are solved instead of rejected as
 rank-deficient

---
 pyvallocation/optimization.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index bc36343..7054ef5 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -188,6 +188,28 @@ def _solve_lp(c, G, h, A, b) -> dict:
     return sol
 
 
+def _drop_redundant_rows(A, b):
+    """Remove equality rows implied by earlier ones, which CVXOPT's factorisations reject.
+
+    A dependent row with a contradictory right-hand side is kept, so that the
+    solver reports the problem as infeasible.
+    """
+    if A is None:
+        return A, b
+    rows, rhs = np.asarray(A, dtype=float), np.asarray(b, dtype=float).ravel()
+    norms = np.linalg.norm(rows, axis=1, keepdims=True)
+    if norms.all() and np.linalg.matrix_rank(rows / norms, tol=1e-10) == len(rhs):
+        return A, b
+    keep: list[int] = []
+    for i, row in enumerate(rows):
+        coef = np.linalg.lstsq(rows[keep].T, row, rcond=None)[0] if keep else np.zeros(0)
+        implied = float(coef @ rhs[keep])
+        dependent = np.linalg.norm(row - coef @ rows[keep]) <= 1e-10 * np.linalg.norm(row)
+        if not dependent or abs(rhs[i] - implied) > 1e-9 * max(1.0, abs(rhs[i]), abs(implied)):
+            keep.append(i)
+    return (matrix(rows[keep]), matrix(rhs[keep])) if keep else (None, None)
+
+
 def _solve_qp(P, q, G, h, A, b) -> dict:
     """Solve a QP with CVXOPT; a numerical breakdown counts as an unsolved problem.
 
@@ -203,6 +225,7 @@ def _solve_qp(P, q, G, h, A, b) -> dict:
         rows = np.abs(np.asarray(G)).max(axis=1)
         rows[rows == 0.0] = 1.0
         G, h = matrix(np.asarray(G) / rows[:, None]), matrix(np.asarray(h).ravel() / rows)
+    A, b = _drop_redundant_rows(A, b)
     sol: dict = {"status": "unknown", "x": None}
     for factor in (1.0, 0.1, 10.0):  # iterations that stall at one scale of the objective succeed at another
         try:
@@ -218,10 +241,11 @@ def _solve_qp(P, q, G, h, A, b) -> dict:
     return sol
 
 
-def _solve_cone(*args, **kwargs) -> dict:
+def _solve_cone(c, G, h, dims, A, b) -> dict:
     """Solve a cone programme with CVXOPT; a numerical breakdown counts as an unsolved problem."""
+    A, b = _drop_redundant_rows(A, b)
     try:
-        return solvers.conelp(*args, **kwargs)
+        return solvers.conelp(c, G, h, dims=dims, A=A, b=b)
     except ArithmeticError:
         return {"status": "unknown", "x": None}
     except ValueError as exc:
-- 
2.43.0


From 1808a817072baa5b40855e30f1cb6d494ac501cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:38 +0000
Subject: [PATCH 96/99] fix: covariance frames whose columns are ordered
 differently from their rows are aligned (or rejected) when the mean is
 unlabelled

---
 pyvallocation/bayesian.py         | 2 ++
 pyvallocation/utils/projection.py | 2 ++
 pyvallocation/views.py            | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index efb6acd..e38a6b1 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -269,6 +269,8 @@ class NIWPosterior:
                 # If prior_mu was not pandas but prior_sigma is, infer index
                 self._pandas = True
                 self._asset_index = prior_sigma.index.copy()
+                if not prior_sigma.columns.equals(self._asset_index):
+                    raise ValueError("Index and columns of prior_sigma must match.")
             else:
                 # Ensure indices match
                 if not prior_sigma.index.equals(self._asset_index) or not prior_sigma.columns.equals(self._asset_index):
diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 4027e32..2e85f0b 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -119,6 +119,8 @@ def _require_finite(**arrays):
 
 def _align_cov(mu, cov):
     """Order a labelled covariance as a labelled mean; other labels are an error."""
+    if isinstance(cov, pd.DataFrame) and cov.index.is_unique and set(cov.columns) == set(cov.index):
+        cov = cov.reindex(columns=cov.index)
     if not (isinstance(mu, pd.Series) and isinstance(cov, pd.DataFrame)):
         return cov
     if list(cov.index) == list(mu.index) == list(cov.columns):
diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 98200a9..ed9ffeb 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -560,6 +560,8 @@ class FlexibleViewsProcessor:
                     isinstance(x.index, pd.RangeIndex) for x in (prior_mean, prior_cov)
                 ):
                     raise ValueError("`prior_mean` and `prior_cov` must carry the same asset labels.")
+                elif prior_cov.index.is_unique and set(prior_cov.columns) == set(prior_cov.index):
+                    prior_cov = prior_cov.reindex(columns=prior_cov.index)
                 cov = prior_cov.values.astype(float)
                 if not self._use_pandas:
                     self.assets = list(prior_cov.index)
-- 
2.43.0


From 3ee64eb3ac443ff613ac72ce82bea95290f53bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:19 +0000
Subject: [PATCH 97/99] fix: constraint limits whose number differs from their
 rows are rejected by every optimiser

---
 pyvallocation/optimization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 7054ef5..5ac6c2c 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -197,6 +197,8 @@ def _drop_redundant_rows(A, b):
     if A is None:
         return A, b
     rows, rhs = np.asarray(A, dtype=float), np.asarray(b, dtype=float).ravel()
+    if len(rows) != len(rhs):
+        return A, b
     norms = np.linalg.norm(rows, axis=1, keepdims=True)
     if norms.all() and np.linalg.matrix_rank(rows / norms, tol=1e-10) == len(rhs):
         return A, b
@@ -352,6 +354,9 @@ class _BaseOptimization(ABC):
         _check_finite(mean=mean, G=G, A=A, b=b)
         if h is not None and not np.all(np.asarray(h, float) > -np.inf):
             raise ValueError("`h` must not contain missing or negative infinite values.")
+        for rows, limits, name in ((G, h, "h"), (A, b, "b")):
+            if rows is not None and limits is not None and len(np.asarray(rows)) != np.size(limits):
+                raise ValueError(f"`{name}` must hold one value per constraint row.")
         self._mean = np.asarray(mean, float)
         self._I = self._mean.size
         self._G = matrix(G) if G is not None else None
-- 
2.43.0


From eb0b69aef6633db7ef6edad75cb4e3534ce9459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:35 +0000
Subject: [PATCH 98/99] fix: estimators reject empty inputs instead of
 returning NaN estimates

---
 pyvallocation/moments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index d91ab53..6b09d31 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -193,7 +193,9 @@ def _wrap(x: np.ndarray, labels: Optional[Sequence[str]], vector: bool) -> Array
 
 
 def _require_finite(X: np.ndarray, name: str = "R") -> None:
-    """Raise if an input has missing or infinite entries."""
+    """Raise if an input is empty or has missing or infinite entries."""
+    if np.size(X) == 0:
+        raise ValueError(f"Input `{name}` must not be empty.")
     if not np.isfinite(X).all():
         raise ValueError(f"Input `{name}` must contain only finite values.")
 
-- 
2.43.0


From 1a8e1f5987d0546a11371647ee06fa6647ff9238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:12 +0000
Subject: [PATCH 99/99] fix: volatility of fully hedged portfolios is zero
 instead of NaN when the variance is negative by rounding

---
 pyvallocation/optimization.py      |  2 +-
 pyvallocation/portfolioapi.py      | 12 ++++++------
 pyvallocation/stress.py            |  4 ++--
 pyvallocation/utils/functions.py   |  2 +-
 pyvallocation/utils/performance.py |  2 +-
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 5ac6c2c..c4116ed 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -617,7 +617,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
 
         w = x[:N] / x[N]
         ret = float(np.dot(mean, w))
-        risk = float(np.sqrt(w @ np.asarray(self._cov, dtype=float) @ w))
+        risk = float(np.sqrt(max(w @ np.asarray(self._cov, dtype=float) @ w, 0.0)))
         return OptimizationResult(weights=w, nominal_return=ret, risk=risk)
 
 # =================================================================== #
diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index af2afa5..a4e78b4 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1336,7 +1336,7 @@ class PortfolioWrapper:
         weights = optimizer.efficient_frontier(num_portfolios)
         mu_r, cov_r = self._report_mu_cov()
         returns = mu_r @ weights
-        risks = np.sqrt(np.sum((weights.T @ cov_r) * weights.T, axis=1))
+        risks = np.sqrt(np.maximum(np.sum((weights.T @ cov_r) * weights.T, axis=1), 0.0))
 
         alternate_risks = self._cvar_overlay(weights)
 
@@ -1395,7 +1395,7 @@ class PortfolioWrapper:
         alternate_risks: Dict[str, np.ndarray] = {}
         try:
             cov = np.cov(scenarios.T, aweights=probs, bias=True)
-            vols = np.sqrt(np.sum((weights.T @ cov) * weights.T, axis=1))
+            vols = np.sqrt(np.maximum(np.sum((weights.T @ cov) * weights.T, axis=1), 0.0))
             alternate_risks["Volatility"] = vols
         except Exception as exc:  # pragma: no cover - defensive convenience
             logger.debug("Unable to compute volatility proxy for CVaR frontier: %s", exc)
@@ -1540,7 +1540,7 @@ class PortfolioWrapper:
                 raise ValueError("`return_cov` must be a square matrix matching asset count.")
             if not np.all(np.isfinite(cov_ref)):
                 raise ValueError("`return_cov` must contain only finite values.")
-            vols = np.sqrt(np.sum((weights_arr.T @ cov_ref) * weights_arr.T, axis=1))
+            vols = np.sqrt(np.maximum(np.sum((weights_arr.T @ cov_ref) * weights_arr.T, axis=1), 0.0))
             alternate_risks["Volatility"] = vols
 
         if self.dist.scenarios is not None:
@@ -1553,7 +1553,7 @@ class PortfolioWrapper:
                 )
                 if "Volatility" not in alternate_risks:
                     cov = np.cov(scen.T, aweights=probs, bias=True)
-                    vols = np.sqrt(np.sum((weights_arr.T @ cov) * weights_arr.T, axis=1))
+                    vols = np.sqrt(np.maximum(np.sum((weights_arr.T @ cov) * weights_arr.T, axis=1), 0.0))
                     alternate_risks["Volatility"] = vols
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
@@ -1628,7 +1628,7 @@ class PortfolioWrapper:
 
         mu_r, cov_r = self._report_mu_cov()
         actual_return = mu_r @ weights
-        risk = np.sqrt(weights.T @ cov_r @ weights)
+        risk = np.sqrt(np.maximum(weights.T @ cov_r @ weights, 0.0))
 
         w_series = pd.Series(weights, index=self.dist.asset_names, name=f"MV Portfolio (Return >= {return_target:.4f})")
 
@@ -1817,7 +1817,7 @@ class PortfolioWrapper:
         w_series = pd.Series(weights, index=asset_names, name=name)
 
         achieved_return = float(mu_r @ weights)
-        portfolio_variance = float(weights @ (cov_r @ weights))
+        portfolio_variance = max(float(weights @ (cov_r @ weights)), 0.0)
         risk_contributions = weights * np.asarray(solution.marginal_risk, dtype=float)
         sigma_w = np.sqrt(portfolio_variance)
         risk_contributions_pct = (risk_contributions / sigma_w) / sigma_w * 100 if sigma_w > 0 else risk_contributions * 0
diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index d11434e..f007af7 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -188,7 +188,7 @@ def stress_test(
         mean = (W.T @ mu_vec).reshape(-1)
         var = np.asarray(portfolio_var(W, R_matrix, probs, confidence=conf, demean=demean)).reshape(-1)
         cvar = np.asarray(portfolio_cvar(W, R_matrix, probs, confidence=conf, demean=demean)).reshape(-1)
-        stdev = np.sqrt(np.einsum("ik,kl,il->i", W.T, sigma_mat, W.T))
+        stdev = np.sqrt(np.maximum(np.einsum("ik,kl,il->i", W.T, sigma_mat, W.T), 0.0))
         ens = compute_effective_number_scenarios(probs)
         return mean, stdev, var, cvar, ens
 
@@ -522,7 +522,7 @@ def stress_invariants(
             sigma_m = np.asarray(sigma, float)
             w_v = np.asarray(w, float).ravel()
             mean_r = float(w_v @ mu_v)
-            stdev_r = float(np.sqrt(w_v @ sigma_m @ w_v))
+            stdev_r = float(np.sqrt(max(w_v @ sigma_m @ w_v, 0.0)))
             var_r = float(np.asarray(portfolio_var(w_v, R, p, confidence=confidence, demean=demean)).ravel()[0])
             cvar_r = float(np.asarray(portfolio_cvar(w_v, R, p, confidence=confidence, demean=demean)).ravel()[0])
             ens = compute_effective_number_scenarios(p)
diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 173e112..67ee8e1 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -78,7 +78,7 @@ def portfolio_volatility(
         w: Weights vector ``(N,)`` or matrix ``(N, M)``.
         cov: Covariance matrix ``(N, N)``.
     """
-    var = portfolio_variance(w, cov)
+    var = np.maximum(portfolio_variance(w, cov), 0.0)  # rounding
     return float(np.sqrt(var)) if np.isscalar(var) else np.sqrt(var)
 
 def portfolio_cvar(
diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index e412359..eb5c309 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -203,7 +203,7 @@ def performance_report(
     cov_mat = np.asarray(cov, dtype=float)
 
     mean = float(np.dot(w_vec, mu_vec.reshape(-1)))
-    stdev = float(np.sqrt(w_vec @ cov_mat @ w_vec))
+    stdev = float(np.sqrt(max(w_vec @ cov_mat @ w_vec, 0.0)))
     w_matrix = w_vec.reshape(-1, 1)
     var = float(portfolio_var(w_matrix, R_arr, p, confidence=conf, demean=demean))
     cvar = float(portfolio_cvar(w_matrix, R_arr, p, confidence=conf, demean=demean))
-- 
2.43.0

