From 500d652bafaa615da3d9699ebbe445f83c9ea6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 01/52] fix: demean the treatment interaction in
 TwoWayFixedEffects

---
 diff_diff/twfe.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 45b08d6..3587b74 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -96,19 +96,34 @@ class TwoWayFixedEffects(DifferenceInDifferences):
         # Use unit-level clustering if not specified (use local variable to avoid mutation)
         cluster_var = self.cluster if self.cluster is not None else unit
 
-        # Demean data (within transformation for fixed effects)
-        data_demeaned = self._within_transform(data, outcome, unit, time, covariates)
-
         # Create treatment × post interaction
         # For staggered designs, we'd need to identify treatment timing per unit
         # For now, assume standard 2-period design
+        data_demeaned = data.copy()
         data_demeaned["_treatment_post"] = (
             data_demeaned[treatment] * data_demeaned[time]
         )
 
+        # Demean data (within transformation for fixed effects). The interaction is
+        # demeaned together with the outcome (Frisch-Waugh-Lovell).
+        data_demeaned = self._within_transform(
+            data_demeaned, outcome, unit, time, ["_treatment_post"] + list(covariates or [])
+        )
+
         # Extract variables for regression
         y = data_demeaned[f"{outcome}_demeaned"].values
-        X_list = [data_demeaned["_treatment_post"].values]
+        d_raw = data_demeaned["_treatment_post"].values.astype(float)
+        d_within = data_demeaned["_treatment_post_demeaned"].values
+        if np.max(np.abs(d_within)) <= 1e-10 * max(1.0, np.max(np.abs(d_raw))):
+            # No variation left after removing the fixed effects
+            warnings.warn(
+                "The treatment interaction is collinear with the unit and time fixed "
+                "effects; the reported coefficient is not a within estimate.",
+                UserWarning,
+                stacklevel=2,
+            )
+            d_within = d_raw
+        X_list = [d_within]
 
         if covariates:
             for cov in covariates:
-- 
2.43.0


From a87de6cbba84bb269ca42d15e9efc051ad9e4ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 02/52] fix: centre wild bootstrap t-statistics on the
 restricted fit

---
 diff_diff/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 010d011..dd291a6 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -485,7 +485,11 @@ def wild_bootstrap_se(
 
         # Compute bootstrap t-statistic (under null hypothesis)
         if se_star > 0:
-            bootstrap_t_stats[b] = (beta_star[coefficient_index] - null_hypothesis) / se_star
+            # The bootstrap data are generated around the restricted fit, so its
+            # coefficient is the centre of the null distribution
+            bootstrap_t_stats[b] = (
+                beta_star[coefficient_index] - beta_restricted[coefficient_index]
+            ) / se_star
         else:
             bootstrap_t_stats[b] = 0.0
 
-- 
2.43.0


From 94a205c33f3c6288a3bbfd689907356a3890c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 03/52] fix: clear bootstrap results of an earlier fit

---
 diff_diff/estimators.py | 3 +++
 diff_diff/twfe.py       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 83fc72b..102d029 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -203,6 +203,9 @@ class DifferenceInDifferences:
         >>> did.fit(data, outcome='sales', treatment='treated', time='post',
         ...         absorb=['firm_id'])
         """
+        # Forget bootstrap results of an earlier fit
+        self._bootstrap_results = None
+
         # Parse formula if provided
         if formula is not None:
             outcome, treatment, time, covariates = self._parse_formula(formula, data)
diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 3587b74..e29f0b8 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -86,6 +86,9 @@ class TwoWayFixedEffects(DifferenceInDifferences):
         DiDResults
             Estimation results.
         """
+        # Forget bootstrap results of an earlier fit
+        self._bootstrap_results = None
+
         # Validate unit column exists
         if unit not in data.columns:
             raise ValueError(f"Unit column '{unit}' not found in data")
-- 
2.43.0


From 625878c5fb971ae75cb4811c57d6a91db9d452ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 04/52] fix: report NaN t-statistic in SunAbraham when the
 standard error is undefined

---
 diff_diff/sun_abraham.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index cb7313f..9ddcbf6 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -600,7 +600,11 @@ class SunAbraham:
             coef_index_map,
         )
 
-        overall_t = overall_att / overall_se if overall_se > 0 else 0.0
+        overall_t = (
+            overall_att / overall_se
+            if np.isfinite(overall_se) and overall_se > 0
+            else np.nan
+        )
         overall_p = compute_p_value(overall_t)
         overall_ci = compute_confidence_interval(overall_att, overall_se, self.alpha)
 
@@ -623,7 +627,11 @@ class SunAbraham:
 
             # Update results with bootstrap inference
             overall_se = bootstrap_results.overall_att_se
-            overall_t = overall_att / overall_se if overall_se > 0 else 0.0
+            overall_t = (
+                overall_att / overall_se
+                if np.isfinite(overall_se) and overall_se > 0
+                else np.nan
+            )
             overall_p = bootstrap_results.overall_att_p_value
             overall_ci = bootstrap_results.overall_att_ci
 
@@ -640,7 +648,9 @@ class SunAbraham:
                     eff_val = event_study_effects[e]["effect"]
                     se_val = event_study_effects[e]["se"]
                     event_study_effects[e]["t_stat"] = (
-                        eff_val / se_val if se_val > 0 else 0.0
+                        eff_val / se_val
+                        if np.isfinite(se_val) and se_val > 0
+                        else np.nan
                     )
 
         # Convert cohort effects to storage format
@@ -878,7 +888,7 @@ class SunAbraham:
             agg_var = float(weight_vec @ vcov_subset @ weight_vec)
             agg_se = np.sqrt(max(agg_var, 0))
 
-            t_stat = agg_effect / agg_se if agg_se > 0 else 0.0
+            t_stat = agg_effect / agg_se if np.isfinite(agg_se) and agg_se > 0 else np.nan
             p_val = compute_p_value(t_stat)
             ci = compute_confidence_interval(agg_effect, agg_se, self.alpha)
 
-- 
2.43.0


From 699864c6fc63feb01901a36b414a323c23c1063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 05/52] fix: report NaN t-statistic in TripleDifference when
 the standard error is undefined

---
 diff_diff/triple_diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 126d30b..65c1939 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -598,7 +598,7 @@ class TripleDifference:
             )
 
         # Compute inference
-        t_stat = att / se if se > 0 else 0.0
+        t_stat = att / se if np.isfinite(se) and se > 0 else np.nan
         df = n_obs - 8  # Approximate df (8 cell means)
         if covariates:
             df -= len(covariates)
-- 
2.43.0


From 4a07deaa8697fd0510219cc7195cdffb42efab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 06/52] fix: all-zero design matrix in solve_ols

---
 diff_diff/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index f5764d8..2f93750 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -673,7 +673,7 @@ def _solve_ols_numpy(
         # else: "silent" - no warning
 
         # Extract kept columns for the reduced solve
-        kept_cols = np.array([i for i in range(k) if i not in dropped_cols])
+        kept_cols = np.array([i for i in range(k) if i not in dropped_cols], dtype=int)
         X_reduced = X[:, kept_cols]
 
         # Solve the reduced system (now full-rank)
-- 
2.43.0


From 3873698930d0c78448bb753b4a06f6417c049f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 07/52] fix: treat first_treat=inf as never treated in
 CallawaySantAnna and SunAbraham

---
 diff_diff/staggered.py   | 8 ++++++--
 diff_diff/sun_abraham.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index f01400e..5138fc9 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -641,7 +641,9 @@ class CallawaySantAnna(
 
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
-        treatment_groups = sorted([g for g in df[first_treat].unique() if g > 0])
+        treatment_groups = sorted(
+            [g for g in df[first_treat].unique() if g > 0 and g != np.inf]
+        )
 
         # Never-treated indicator (first_treat = 0 or inf)
         df['_never_treated'] = (df[first_treat] == 0) | (df[first_treat] == np.inf)
@@ -652,7 +654,9 @@ class CallawaySantAnna(
             '_never_treated': 'first'
         }).reset_index()
 
-        n_treated_units = (unit_info[first_treat] > 0).sum()
+        n_treated_units = (
+            (unit_info[first_treat] > 0) & ~unit_info['_never_treated']
+        ).sum()
         n_control_units = (unit_info['_never_treated']).sum()
 
         if n_control_units == 0:
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 9ddcbf6..f1962c6 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -488,7 +488,9 @@ class SunAbraham:
 
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
-        treatment_groups = sorted([g for g in df[first_treat].unique() if g > 0])
+        treatment_groups = sorted(
+            [g for g in df[first_treat].unique() if g > 0 and g != np.inf]
+        )
 
         # Never-treated indicator
         df["_never_treated"] = (df[first_treat] == 0) | (df[first_treat] == np.inf)
@@ -500,7 +502,9 @@ class SunAbraham:
             .reset_index()
         )
 
-        n_treated_units = int((unit_info[first_treat] > 0).sum())
+        n_treated_units = int(
+            ((unit_info[first_treat] > 0) & ~unit_info["_never_treated"]).sum()
+        )
         n_control_units = int((unit_info["_never_treated"]).sum())
 
         if n_control_units == 0:
-- 
2.43.0


From 450ad1cf6bd33a294a42a6258bf21c7b6fc75966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 08/52] fix: use only controls untreated at base and target
 period in CallawaySantAnna

---
 diff_diff/staggered.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 5138fc9..7f7073f 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -491,9 +491,13 @@ class CallawaySantAnna(
         if self.control_group == "never_treated":
             control_mask = never_treated_mask
         else:  # not_yet_treated
-            # Not yet treated at time t: never-treated OR (first_treat > t AND not cohort g)
+            # Not yet treated (nor anticipating treatment) at both the base period and
+            # time t: never-treated OR (first_treat later than both AND not cohort g)
             # Must exclude cohort g since they are the treated group for this ATT(g,t)
-            control_mask = never_treated_mask | ((unit_cohorts > t) & (unit_cohorts != g))
+            untreated_until = max(t, base_period_val) + self.anticipation
+            control_mask = never_treated_mask | (
+                (unit_cohorts > untreated_until) & (unit_cohorts != g)
+            )
 
         # Extract outcomes for base and post periods
         y_base = outcome_matrix[:, base_col]
-- 
2.43.0


From 23e5e4bcd6813ce5dfc49a0764d32ee3fadb3f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 09/52] fix: resample rows by position in the SunAbraham
 bootstrap

---
 diff_diff/sun_abraham.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index f1962c6..4482739 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1022,7 +1022,7 @@ class SunAbraham:
             # Create bootstrap sample efficiently
             # Build index array for all selected units
             boot_indices = np.concatenate([
-                df.index[df[unit] == u].values for u in boot_units
+                np.flatnonzero((df[unit] == u).to_numpy()) for u in boot_units
             ])
             df_b = df.iloc[boot_indices].copy()
 
-- 
2.43.0


From d9ee1689651a8744dbb66e558b8ac110fd42f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 10/52] fix: normalize triple-difference DR cell means within
 period

Without covariates the DR estimate differed from the eight-cell contrast (and
moved when the outcome was shifted) unless cell shares were equal before and
after treatment.
---
 diff_diff/triple_diff.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 65c1939..815d18c 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -1050,17 +1050,20 @@ class TripleDifference:
         inf_00[cell_4] += mu_fitted[cell_4] * (p_cell_1[cell_4] / p_cell_4[cell_4]) / p_ref
 
         # Compute cell-time means using DR formula
-        def dr_mean(inf_vals, t_mask):
-            return np.mean(inf_vals[t_mask])
-
-        y_11_pre = dr_mean(inf_11, pre_mask)
-        y_11_post = dr_mean(inf_11, post_mask)
-        y_10_pre = dr_mean(inf_10, pre_mask)
-        y_10_post = dr_mean(inf_10, post_mask)
-        y_01_pre = dr_mean(inf_01, pre_mask)
-        y_01_post = dr_mean(inf_01, post_mask)
-        y_00_pre = dr_mean(inf_00, pre_mask)
-        y_00_post = dr_mean(inf_00, post_mask)
+        # Weights are normalized within period: cell shares may differ between
+        # pre and post, and the mean of a cell must not depend on them.
+        def dr_mean(inf_vals, weights, t_mask):
+            return np.sum(inf_vals[t_mask]) / (np.sum(weights[t_mask]) / p_ref)
+
+        w_11 = cell_1.astype(float)
+        y_11_pre = dr_mean(inf_11, w_11, pre_mask)
+        y_11_post = dr_mean(inf_11, w_11, post_mask)
+        y_10_pre = dr_mean(inf_10, w_10, pre_mask)
+        y_10_post = dr_mean(inf_10, w_10, post_mask)
+        y_01_pre = dr_mean(inf_01, w_01, pre_mask)
+        y_01_post = dr_mean(inf_01, w_01, post_mask)
+        y_00_pre = dr_mean(inf_00, w_00, pre_mask)
+        y_00_post = dr_mean(inf_00, w_00, post_mask)
 
         # DDD estimate
         att = (
-- 
2.43.0


From 5a04aae355288fc7ceabe3488a7ab26f313b615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 11/52] fix: centre the triple-difference IPW influence
 function

The standard error used raw outcomes, so it changed when the outcome was
shifted by a constant; it now uses deviations from the weighted cell means,
normalized by the weight of each cell and period.
---
 diff_diff/triple_diff.py | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 815d18c..dc9df9d 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -1148,29 +1148,25 @@ class TripleDifference:
         n = len(y)
         post_mask = T == 1
 
-        # Influence function for IPW estimator (vectorized)
+        # Influence function for IPW estimator: deviations of the outcome from
+        # the weighted mean of its cell and period, over that cell's weight
         inf_func = np.zeros(n)
 
-        n_ref = np.sum(cell_1)
-        p_ref = n_ref / n
-
-        # Sign: +1 for post, -1 for pre
-        sign = np.where(post_mask, 1.0, -1.0)
-
-        # Cell 1 (G=1, P=1): sign * (y - att) / p_ref
-        inf_func[cell_1] = sign[cell_1] * (y[cell_1] - att) / p_ref
-
-        # Cell 2 (G=1, P=0): -sign * y * (p_cell_1 / p_cell_2) / p_ref
-        w_2 = p_cell_1[cell_2] / p_cell_2[cell_2]
-        inf_func[cell_2] = -sign[cell_2] * y[cell_2] * w_2 / p_ref
-
-        # Cell 3 (G=0, P=1): -sign * y * (p_cell_1 / p_cell_3) / p_ref
-        w_3 = p_cell_1[cell_3] / p_cell_3[cell_3]
-        inf_func[cell_3] = -sign[cell_3] * y[cell_3] * w_3 / p_ref
-
-        # Cell 4 (G=0, P=0): sign * y * (p_cell_1 / p_cell_4) / p_ref
-        w_4 = p_cell_1[cell_4] / p_cell_4[cell_4]
-        inf_func[cell_4] = sign[cell_4] * y[cell_4] * w_4 / p_ref
+        cells = [
+            (cell_1, np.ones(n), 1.0),
+            (cell_2, p_cell_1 / p_cell_2, -1.0),
+            (cell_3, p_cell_1 / p_cell_3, -1.0),
+            (cell_4, p_cell_1 / p_cell_4, 1.0),
+        ]
+        for cell_mask, weights, cell_sign in cells:
+            for t_mask, t_sign in [(post_mask, 1.0), (~post_mask, -1.0)]:
+                mask = cell_mask & t_mask
+                w = weights[mask]
+                w_sum = np.sum(w)
+                if w_sum <= 0:
+                    continue
+                mean = np.sum(w * y[mask]) / w_sum
+                inf_func[mask] = cell_sign * t_sign * w * (y[mask] - mean) / (w_sum / n)
 
         var_inf = np.var(inf_func, ddof=1)
         se = np.sqrt(var_inf / n)
-- 
2.43.0


From 2dfa94b1a038eb0c79fb5be12b37360d972a4b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 12/52] fix: drop the spurious factor two in the panel sample
 size

---
 diff_diff/power.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index b8aa10d..81df028 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -681,10 +681,10 @@ class PowerAnalysis:
             design_effect = 1 + (T - 1) * rho
 
             # Var = sigma^2 * (1/n_t + 1/n_c) * design_effect / T
-            # For balanced: Var = 2 * sigma^2 / N * design_effect / T
+            #     = sigma^2 / N * (1/(p*(1-p))) * design_effect / T
 
             n_total = (
-                2 * sigma**2 * (z_alpha + z_beta)**2 * design_effect
+                sigma**2 * (z_alpha + z_beta)**2 * design_effect
                 / (effect_size**2 * treat_frac * (1 - treat_frac) * T)
             )
 
-- 
2.43.0


From ddee133a0df94fcd99bc46eb267e920fd34506e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:32 +0000
Subject: [PATCH 13/52] fix: round both group sizes up in the sample size
 calculation

---
 diff_diff/power.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index 81df028..a108b61 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -740,7 +740,10 @@ class PowerAnalysis:
         )
 
         n_treated = max(2, int(np.ceil(n_total * treat_frac)))
-        n_control = max(2, n_total - n_treated)
+        n_control = int(np.ceil(n_total * (1 - treat_frac)))
+        if n_total <= MAX_SAMPLE_SIZE:
+            n_control = min(n_control, MAX_SAMPLE_SIZE - n_treated)
+        n_control = max(2, n_control)
         n_total = n_treated + n_control
 
         # Compute actual power achieved
-- 
2.43.0


From d1c911ebdebb7ad1298f37d13a483b198a50e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 14/52] fix: let power simulation read the overall effect of
 Callaway-Sant'Anna results

---
 diff_diff/power.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index a108b61..8cc7a51 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -895,6 +895,14 @@ class PowerAnalysis:
         return pd.DataFrame({"sample_size": sample_sizes, "power": powers})
 
 
+def _effect_field(result: Any, name: str) -> Any:
+    """Field of the headline effect, whatever prefix the result class uses for it."""
+    for prefix in ("", "avg_", "overall_"):
+        if hasattr(result, prefix + name):
+            return getattr(result, prefix + name)
+    raise AttributeError(f"{type(result).__name__} has no headline '{name}'")
+
+
 def simulate_power(
     estimator: Any,
     n_units: int = 100,
@@ -1129,10 +1137,10 @@ def simulate_power(
                     )
 
                 # Extract results
-                att = result.att if hasattr(result, 'att') else result.avg_att
-                se = result.se if hasattr(result, 'se') else result.avg_se
-                p_val = result.p_value if hasattr(result, 'p_value') else result.avg_p_value
-                ci = result.conf_int if hasattr(result, 'conf_int') else result.avg_conf_int
+                att = _effect_field(result, "att")
+                se = _effect_field(result, "se")
+                p_val = _effect_field(result, "p_value")
+                ci = _effect_field(result, "conf_int")
 
                 estimates.append(att)
                 ses.append(se)
-- 
2.43.0


From dec7cab092e3c4716e0e04a7f5436f92c16c3534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 15/52] fix: take the synthetic DiD bootstrap p-value from the
 t-statistic

---
 diff_diff/synthetic_did.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index dca934b..3d0cb4c 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -328,19 +328,20 @@ class SyntheticDiD(DifferenceInDifferences):
         # Compute test statistics
         if se > 0:
             t_stat = att / se
-            # Use placebo distribution for p-value if available
-            if len(placebo_effects) > 0:
+            # Placebo estimates are centred at zero, so their tail shares are p-values.
+            # Bootstrap estimates are centred at the estimate itself and are not.
+            if inference_method == "placebo" and len(placebo_effects) > 0:
                 # Two-sided p-value from placebo distribution
                 p_value = np.mean(np.abs(placebo_effects) >= np.abs(att))
                 p_value = max(p_value, 1.0 / (len(placebo_effects) + 1))
             else:
                 p_value = compute_p_value(t_stat)
+            conf_int = compute_confidence_interval(att, se, self.alpha)
         else:
-            t_stat = 0.0
-            p_value = 1.0
-
-        # Confidence interval
-        conf_int = compute_confidence_interval(att, se, self.alpha)
+            # No usable standard error: inference is undefined
+            t_stat = np.nan
+            p_value = np.nan
+            conf_int = (np.nan, np.nan)
 
         # Create weight dictionaries
         unit_weights_dict = {
-- 
2.43.0


From 2971150aba62fe79962db2fd9862c166974b275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 16/52] fix: use the squared sample share and both group shares
 in exact Bacon weights

The 'exact' weights left out (1 - n_k_share) and one factor of the time
share, so the weighted sum differed from the TWFE estimate even on balanced
panels, where Theorem 1 of Goodman-Bacon (2021) holds exactly.
---
 diff_diff/bacon.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 8f09d9f..294d3e6 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -611,7 +611,6 @@ class BaconDecomposition:
         of the treatment indicator in each 2x2 comparison window.
         """
         n_total_obs = len(df)
-        n_total_units = df[unit].nunique()
 
         for comp in comparisons:
             # Get data for this specific comparison
@@ -682,14 +681,11 @@ class BaconDecomposition:
             # D = 0 for all periods for control units in this window
             D_k = T_post / T_window  # proportion treated for treated group
 
-            # Within-comparison variance of treatment
-            # Var(D) = n_k/(n_k+n_l) * D_k * (1-D_k) for the 2x2
-            var_D_22 = n_k_share * D_k * (1 - D_k)
+            # Variance of the double-demeaned treatment within the 2x2
+            var_D_22 = n_k_share * (1 - n_k_share) * D_k * (1 - D_k)
 
-            # Exact weight: proportional to sample share * variance
-            # Scale by (n_k + n_l) / n_total_units to account for subsample
-            unit_share = (n_k + n_l) / n_total_units
-            comp.weight = sample_share * var_D_22 * unit_share
+            # Exact weight: squared sample share * variance (Theorem 1)
+            comp.weight = sample_share ** 2 * var_D_22
 
     def _compute_treated_vs_never(
         self,
-- 
2.43.0


From baaca5796b4c23a0ea1f54698ba1b1b868430a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 17/52] fix: report a zero TWFE coefficient when the treatment
 has no within variation

Rounding noise in the demeaned treatment passed the d_var > 0 test, so the
decomposition divided noise by noise.
---
 diff_diff/bacon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 294d3e6..bc2ee45 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -586,7 +586,8 @@ class BaconDecomposition:
 
         # OLS on demeaned data: beta = sum(d * y) / sum(d^2)
         d_var = np.sum(d_within ** 2)
-        if d_var > 0:
+        # Treatment without within variation leaves only rounding noise in d_var
+        if d_var > 1e-10:
             beta = np.sum(d_within * y_within) / d_var
         else:
             beta = 0.0
-- 
2.43.0


From 7e6c676b5c01fdcb4c5e617b6d5d4cd06b229a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 18/52] fix: use the post-period block of the covariance in
 HonestDiD

MultiPeriodDiD stores the covariance of the whole regression; its leading
block belongs to the constant, the treatment main effect and the period
dummies, so original_se and every robust interval were wrong. Interaction
names are matched by their period suffix instead of assuming the treatment
column is called 'treated'.
---
 diff_diff/honest_did.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 81c8caf..cd416c1 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -565,6 +565,17 @@ def _extract_event_study_params(
         # Get vcov if available
         if results.vcov is not None:
             sigma = results.vcov
+            if sigma.shape[0] not in (num_post_periods, num_pre_periods + num_post_periods):
+                # Full regression covariance: take the treatment x post-period block
+                names = list(results.coefficients or [])
+                idx = [
+                    i for period in post_periods
+                    for i, name in enumerate(names) if name.endswith(f":period_{period}")
+                ]
+                if len(names) == sigma.shape[0] and len(idx) == num_post_periods:
+                    sigma = sigma[np.ix_(idx, idx)]
+                else:
+                    sigma = np.diag(np.array(ses) ** 2)
         else:
             # Construct diagonal vcov from SEs
             sigma = np.diag(np.array(ses) ** 2)
@@ -1251,9 +1262,10 @@ class HonestDiD:
                 # Look for pre-period coefficients
                 pre_effects = []
                 for period in pre_periods:
-                    key = f"treated:period_{period}"
-                    if key in results.coefficients:
-                        pre_effects.append(abs(results.coefficients[key]))
+                    suffix = f":period_{period}"
+                    for key, coef in results.coefficients.items():
+                        if key.endswith(suffix):
+                            pre_effects.append(abs(coef))
 
                 if pre_effects:
                     return max(pre_effects)
-- 
2.43.0


From 5b85acc87f8b361dcf10c5d10ec2a014a518fa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 19/52] fix: reject a negative bound passed to HonestDiD.fit

---
 diff_diff/honest_did.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index cd416c1..e5c6147 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1075,6 +1075,8 @@ class HonestDiD:
             Results containing bounds and robust confidence intervals.
         """
         M = M if M is not None else self.M
+        if M < 0:
+            raise ValueError(f"M must be non-negative, got M={M}")
 
         # Extract event study parameters
         (beta_hat, sigma, num_pre, num_post,
-- 
2.43.0


From 19e907ef09776e330452467d8162e7530ab7090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 20/52] fix: find the HonestDiD breakdown value outside the
 searched grid

breakdown_value reported 'always significant' whenever the breakdown was
above 10, and a sensitivity grid starting above zero or not sorted gave a
breakdown of 0.
---
 diff_diff/honest_did.py | 61 +++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index e5c6147..c7eb4d9 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1361,36 +1361,35 @@ class HonestDiD:
         Uses binary search for precision.
         """
         # Check if any CI includes zero
-        includes_zero = [ci_lb <= 0 <= ci_ub for ci_lb, ci_ub in ci_list]
+        grid = sorted(
+            (M, ci_lb <= 0 <= ci_ub) for M, (ci_lb, ci_ub) in zip(M_values, ci_list)
+        )
 
-        if not any(includes_zero):
+        if not any(inc for _, inc in grid):
             # Always significant - no breakdown
             return None
 
-        if all(includes_zero):
-            # Never significant - breakdown at 0
-            return 0.0
-
-        # Find first transition point
-        for i, (inc, M) in enumerate(zip(includes_zero, M_values)):
-            if inc and (i == 0 or not includes_zero[i - 1]):
-                # Binary search between M_values[i-1] and M_values[i]
-                if i == 0:
-                    return 0.0
-
-                lo, hi = M_values[i - 1], M_values[i]
-
-                for _ in range(20):  # 20 iterations for precision
-                    mid = (lo + hi) / 2
-                    result = self.fit(results, M=mid)
-                    if result.ci_lb <= 0 <= result.ci_ub:
-                        hi = mid
-                    else:
-                        lo = mid
+        # Bracket the first M whose CI includes zero
+        i = [inc for _, inc in grid].index(True)
+        hi = grid[i][0]
+        if i > 0:
+            lo = grid[i - 1][0]
+        else:
+            lo = 0.0
+            result = self.fit(results, M=0)
+            if result.ci_lb <= 0 <= result.ci_ub:
+                # Never significant - breakdown at 0
+                return 0.0
 
-                return (lo + hi) / 2
+        for _ in range(20):  # 20 iterations for precision
+            mid = (lo + hi) / 2
+            result = self.fit(results, M=mid)
+            if result.ci_lb <= 0 <= result.ci_ub:
+                hi = mid
+            else:
+                lo = mid
 
-        return None
+        return (lo + hi) / 2
 
     def breakdown_value(
         self,
@@ -1420,14 +1419,16 @@ class HonestDiD:
         if result_0.ci_lb <= 0 <= result_0.ci_ub:
             return 0.0
 
-        # Check if significant even for large M
-        result_large = self.fit(results, M=10)
-        if not (result_large.ci_lb <= 0 <= result_large.ci_ub):
-            return None  # Always significant
-
-        # Binary search
+        # Bracket the breakdown value
         lo, hi = 0.0, 10.0
+        result_large = self.fit(results, M=hi)
+        while not (result_large.ci_lb <= 0 <= result_large.ci_ub):
+            if hi > 1e6:
+                return None  # Always significant
+            lo, hi = hi, 2 * hi
+            result_large = self.fit(results, M=hi)
 
+        # Binary search
         while hi - lo > tol:
             mid = (lo + hi) / 2
             result = self.fit(results, M=mid)
-- 
2.43.0


From 6a5a17158119d40f704ef261af7f38fc58b199dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 21/52] fix: do not declare an undefined robust interval
 significant

---
 diff_diff/honest_did.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index c7eb4d9..c316b24 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -197,7 +197,7 @@ class HonestDiDResults:
     )
 
     def __repr__(self) -> str:
-        sig = "" if self.ci_lb <= 0 <= self.ci_ub else "*"
+        sig = self.significance_stars
         return (
             f"HonestDiDResults(bounds=[{self.lb:.4f}, {self.ub:.4f}], "
             f"CI=[{self.ci_lb:.4f}, {self.ci_ub:.4f}]{sig}, "
@@ -207,7 +207,7 @@ class HonestDiDResults:
     @property
     def is_significant(self) -> bool:
         """Check if CI excludes zero (effect is robust to violations)."""
-        return not (self.ci_lb <= 0 <= self.ci_ub)
+        return bool(self.ci_lb > 0 or self.ci_ub < 0)
 
     @property
     def significance_stars(self) -> str:
@@ -443,7 +443,7 @@ class SensitivityResults:
                 "ub": ub,
                 "ci_lb": ci_lb,
                 "ci_ub": ci_ub,
-                "is_significant": not (ci_lb <= 0 <= ci_ub),
+                "is_significant": bool(ci_lb > 0 or ci_ub < 0),
             })
         return pd.DataFrame(rows)
 
-- 
2.43.0


From c3ddf9f78ecade841771e363f3540e246f61e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 22/52] fix: find pre-period coefficients whatever the
 treatment column is called

MultiPeriodDiD names interactions after the treatment column; the pre-trends
power analysis only looked for 'treated:period_...'.
---
 diff_diff/pretrends.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index d9bc1c6..15b0b2d 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -570,10 +570,13 @@ class PreTrendsPower:
             # (excludes the reference period which is omitted from estimation)
             if hasattr(results, 'coefficients') and results.coefficients:
                 # Find which pre-periods have estimated coefficients
-                estimated_pre_periods = [
-                    p for p in all_pre_periods
-                    if f"treated:period_{p}" in results.coefficients
-                ]
+                # (named "<treatment column>:period_<p>")
+                coef_keys = list(results.coefficients.keys())
+                period_keys = {
+                    p: key for p in all_pre_periods for key in coef_keys
+                    if key.endswith(f":period_{p}")
+                }
+                estimated_pre_periods = [p for p in all_pre_periods if p in period_keys]
 
                 if len(estimated_pre_periods) == 0:
                     raise ValueError(
@@ -586,7 +589,7 @@ class PreTrendsPower:
 
                 # Extract effects for estimated periods only
                 effects = np.array([
-                    results.coefficients[f"treated:period_{p}"]
+                    results.coefficients[period_keys[p]]
                     for p in estimated_pre_periods
                 ])
 
@@ -602,12 +605,8 @@ class PreTrendsPower:
                 # Extract vcov for estimated pre-periods
                 # Build mapping from period to vcov index
                 if results.vcov is not None:
-                    # Get ordered list of all coefficient keys
-                    coef_keys = list(results.coefficients.keys())
                     pre_indices = [
-                        coef_keys.index(f"treated:period_{p}")
-                        for p in estimated_pre_periods
-                        if f"treated:period_{p}" in coef_keys
+                        coef_keys.index(period_keys[p]) for p in estimated_pre_periods
                     ]
                     if len(pre_indices) == n_pre and results.vcov.shape[0] > max(pre_indices):
                         vcov = results.vcov[np.ix_(pre_indices, pre_indices)]
-- 
2.43.0


From cec300c32d1efd838714b6500282dcdbcf0ece9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 23/52] fix: use the fitted custom weights in
 PreTrendsPowerResults.power_at

Custom violations were silently replaced by equal weights.
---
 diff_diff/pretrends.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 15b0b2d..10cc1aa 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -89,6 +89,7 @@ class PreTrendsPowerResults:
     pre_period_ses: np.ndarray = field(repr=False)
     vcov: np.ndarray = field(repr=False)
     original_results: Optional[Any] = field(default=None, repr=False)
+    violation_weights: Optional[np.ndarray] = field(default=None, repr=False)
 
     def __repr__(self) -> str:
         return (
@@ -223,9 +224,11 @@ class PreTrendsPowerResults:
 
         n_pre = self.n_pre_periods
 
-        # Reconstruct violation weights based on violation type
+        # Use the fitted violation weights; reconstruct them if not stored
         # Must match PreTrendsPower._get_violation_weights() exactly
-        if self.violation_type == "linear":
+        if self.violation_weights is not None:
+            weights = self.violation_weights
+        elif self.violation_type == "linear":
             # Linear trend: weights decrease toward treatment
             # [n-1, n-2, ..., 1, 0] for n pre-periods
             weights = np.arange(-n_pre + 1, 1, dtype=float)
@@ -906,6 +909,7 @@ class PreTrendsPower:
             pre_period_ses=ses,
             vcov=vcov,
             original_results=results,
+            violation_weights=weights,
         )
 
     def power_at(
-- 
2.43.0


From 81225b7f2c2837c77dec579feab708a4aeb802be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 24/52] fix: give the linear violation unit norm with a single
 pre-period

The only weight was zero, so power stayed at the level for every magnitude
and the minimum detectable violation was infinite.
---
 diff_diff/pretrends.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 10cc1aa..8b224e4 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -233,6 +233,8 @@ class PreTrendsPowerResults:
             # [n-1, n-2, ..., 1, 0] for n pre-periods
             weights = np.arange(-n_pre + 1, 1, dtype=float)
             weights = -weights  # Now [n-1, n-2, ..., 1, 0]
+            if n_pre == 1:
+                weights = np.ones(1)
         elif self.violation_type == "constant":
             weights = np.ones(n_pre)
         elif self.violation_type == "last_period":
@@ -511,6 +513,9 @@ class PreTrendsPower:
             weights = np.arange(-n_pre + 1, 1, dtype=float)
             # Shift so that weights are positive and represent deviation from PT
             weights = -weights  # Now [n-1, n-2, ..., 1, 0]
+            if n_pre == 1:
+                # A single pre-period carries the whole violation
+                weights = np.ones(1)
         elif self.violation_type == "constant":
             # Same violation in all periods
             weights = np.ones(n_pre)
-- 
2.43.0


From bd7212e5a29c41617b4966c7f96b6fab8f80ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 25/52] fix: bracket the minimum detectable violation before
 giving up on it

The search reported an infinite MDV as soon as its upper end passed 1000,
even when the target was reached there, and fell back to a wrong formula when
the target power does not exceed the level.
---
 diff_diff/pretrends.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 8b224e4..2a1379f 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -820,10 +820,13 @@ class PreTrendsPower:
         nc_low, nc_high = 0, 1
 
         # Expand upper bound until power exceeds target
-        while power_minus_target(nc_high) < 0 and nc_high < 1000:
+        if power_minus_target(nc_low) >= 0:
+            # The level already reaches the target
+            return 0.0
+        while power_minus_target(nc_high) < 0 and nc_high < 1e8:
             nc_high *= 2
 
-        if nc_high >= 1000:
+        if power_minus_target(nc_high) < 0:
             # Target power not achievable - return inf
             return np.inf
 
-- 
2.43.0


From a1e5e1516fdb858555d448707c04bc2964f2b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 26/52] fix: build the fallback datasets without reseeding the
 global random state

---
 diff_diff/datasets.py | 58 +++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index d676a5c..b3a23cc 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -160,7 +160,7 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     Uses aggregated data that preserves the key DiD estimates.
     """
     # Representative sample based on published summary statistics
-    np.random.seed(1994)  # Card-Krueger publication year, for reproducibility
+    rng = np.random.RandomState(1994)  # Card-Krueger publication year, for reproducibility
 
     stores = []
     store_id = 1
@@ -171,8 +171,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 85, "kfc": 62, "roys": 48, "wendys": 36}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(20.44, 8.5)
-            emp_post = emp_pre + np.random.normal(0.59, 7.0)  # Change ≈ 0.59
+            emp_pre = rng.normal(20.44, 8.5)
+            emp_post = emp_pre + rng.normal(0.59, 7.0)  # Change ≈ 0.59
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -182,8 +182,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.61, 0.35), 2),
-                "wage_post": round(np.random.normal(5.08, 0.12), 2),
+                "wage_pre": round(rng.normal(4.61, 0.35), 2),
+                "wage_post": round(rng.normal(5.08, 0.12), 2),
             })
             store_id += 1
 
@@ -193,8 +193,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 30, "kfc": 20, "roys": 14, "wendys": 15}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(23.33, 8.2)
-            emp_post = emp_pre + np.random.normal(-2.16, 7.0)  # Change ≈ -2.16
+            emp_pre = rng.normal(23.33, 8.2)
+            emp_post = emp_pre + rng.normal(-2.16, 7.0)  # Change ≈ -2.16
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -204,8 +204,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.63, 0.35), 2),
-                "wage_post": round(np.random.normal(4.62, 0.35), 2),
+                "wage_pre": round(rng.normal(4.63, 0.35), 2),
+                "wage_post": round(rng.normal(4.62, 0.35), 2),
             })
             store_id += 1
 
@@ -305,7 +305,7 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2013)  # Cheng-Hoekstra publication year, for reproducibility
+    rng = np.random.RandomState(2013)  # Cheng-Hoekstra publication year, for reproducibility
 
     # States and their Castle Doctrine adoption years
     # 0 = never adopted during the study period
@@ -328,9 +328,9 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baseline characteristics
-        base_homicide = np.random.uniform(3.0, 8.0)
-        pop = np.random.randint(500000, 20000000)
-        base_income = np.random.uniform(30000, 50000)
+        base_homicide = rng.uniform(3.0, 8.0)
+        pop = rng.randint(500000, 20000000)
+        base_income = rng.uniform(30000, 50000)
 
         for year in range(2000, 2011):
             # Time trend
@@ -342,15 +342,15 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
             else:
                 treatment_effect = 0
 
-            homicide = max(0, base_homicide + time_effect + treatment_effect + np.random.normal(0, 0.5))
+            homicide = max(0, base_homicide + time_effect + treatment_effect + rng.normal(0, 0.5))
 
             data.append({
                 "state": state,
                 "year": year,
                 "first_treat": first_treat,
                 "homicide_rate": round(homicide, 2),
-                "population": pop + year * 10000 + np.random.randint(-5000, 5000),
-                "income": round(base_income * (1 + 0.02 * (year - 2000)) + np.random.normal(0, 1000), 0),
+                "population": pop + year * 10000 + rng.randint(-5000, 5000),
+                "income": round(base_income * (1 + 0.02 * (year - 2000)) + rng.normal(0, 1000), 0),
                 "treated": int(first_treat > 0 and year >= first_treat),
             })
 
@@ -454,7 +454,7 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2006)  # Stevenson-Wolfers publication year, for reproducibility
+    rng = np.random.RandomState(2006)  # Stevenson-Wolfers publication year, for reproducibility
 
     # State adoption years for unilateral divorce (from Wolfers 2006)
     # 0 = never adopted or adopted before 1968
@@ -477,9 +477,9 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baselines
-        base_divorce = np.random.uniform(2.0, 6.0)
-        base_lfp = np.random.uniform(0.35, 0.55)
-        base_suicide = np.random.uniform(4.0, 8.0)
+        base_divorce = rng.uniform(2.0, 6.0)
+        base_lfp = rng.uniform(0.35, 0.55)
+        base_suicide = rng.uniform(4.0, 8.0)
 
         for year in range(1968, 1989):
             # Time trends
@@ -512,11 +512,11 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
                 "year": year,
                 "first_treat": first_treat if first_treat >= 1968 else 0,
                 "divorce_rate": round(max(0, base_divorce + time_trend + divorce_effect +
-                                          np.random.normal(0, 0.3)), 2),
+                                          rng.normal(0, 0.3)), 2),
                 "female_lfp": round(min(1, max(0, base_lfp + 0.01 * (year - 1968) +
-                                               lfp_effect + np.random.normal(0, 0.02))), 3),
+                                               lfp_effect + rng.normal(0, 0.02))), 3),
                 "suicide_rate": round(max(0, base_suicide + suicide_effect +
-                                          np.random.normal(0, 0.5)), 2),
+                                          rng.normal(0, 0.5)), 2),
             })
 
     df = pd.DataFrame(data)
@@ -601,7 +601,7 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     This replicates the simulated dataset used in Callaway-Sant'Anna tutorials.
     """
-    np.random.seed(2021)  # Callaway-Sant'Anna publication year, for reproducibility
+    rng = np.random.RandomState(2021)  # Callaway-Sant'Anna publication year, for reproducibility
 
     n_counties = 500
     years = [2003, 2004, 2005, 2006, 2007]
@@ -612,9 +612,9 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     data = []
     for county in range(1, n_counties + 1):
-        first_treat = np.random.choice(cohorts, p=cohort_probs)
-        base_lpop = np.random.normal(12.0, 1.0)
-        base_lemp = base_lpop - np.random.uniform(1.5, 2.5)
+        first_treat = rng.choice(cohorts, p=cohort_probs)
+        base_lpop = rng.normal(12.0, 1.0)
+        base_lemp = base_lpop - rng.uniform(1.5, 2.5)
 
         for year in years:
             time_effect = (year - 2003) * 0.02
@@ -633,8 +633,8 @@ def _construct_mpdta_data() -> pd.DataFrame:
             data.append({
                 "countyreal": county,
                 "year": year,
-                "lpop": round(base_lpop + np.random.normal(0, 0.05), 4),
-                "lemp": round(base_lemp + time_effect + te + np.random.normal(0, 0.02), 4),
+                "lpop": round(base_lpop + rng.normal(0, 0.05), 4),
+                "lemp": round(base_lemp + time_effect + te + rng.normal(0, 0.02), 4),
                 "first_treat": first_treat,
                 "treat": int(first_treat > 0),
             })
-- 
2.43.0


From 77bee9c246b981ec79c94b6c91501159991a39b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 27/52] fix: make set_params reject unknown or invalid
 parameters without partial changes

---
 diff_diff/bacon.py         |  3 +++
 diff_diff/estimators.py    |  9 +++++----
 diff_diff/honest_did.py    | 12 +++++++-----
 diff_diff/pretrends.py     | 15 +++++++++------
 diff_diff/staggered.py     | 18 ++++++++++++++----
 diff_diff/sun_abraham.py   | 11 +++++++----
 diff_diff/synthetic_did.py | 11 +++++++----
 diff_diff/triple_diff.py   | 11 +++++++----
 diff_diff/trop.py          | 11 +++++++----
 9 files changed, 66 insertions(+), 35 deletions(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index bc2ee45..0419880 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -869,6 +869,9 @@ class BaconDecomposition:
 
     def set_params(self, **params) -> "BaconDecomposition":
         """Set estimator parameters (sklearn-compatible)."""
+        for key in params:
+            if key not in self.get_params():
+                raise ValueError(f"Unknown parameter: {key}")
         if "weights" in params:
             if params["weights"] not in ("approximate", "exact"):
                 raise ValueError(
diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 102d029..a684098 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -623,11 +623,12 @@ class DifferenceInDifferences:
         -------
         self
         """
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        valid = self.get_params()
+        for key in params:
+            if key not in valid:
                 raise ValueError(f"Unknown parameter: {key}")
+        for key, value in params.items():
+            setattr(self, key, value)
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index c316b24..7a07ad6 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1046,12 +1046,14 @@ class HonestDiD:
 
     def set_params(self, **params) -> "HonestDiD":
         """Set parameters for this estimator."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        valid = self.get_params()
+        for key in params:
+            if key not in valid:
                 raise ValueError(f"Invalid parameter: {key}")
-        self._validate_params()
+        # Apply the constructor's validation before changing anything
+        updated = type(self)(**{**valid, **params})
+        for key in valid:
+            setattr(self, key, getattr(updated, key))
         return self
 
     def fit(
diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 2a1379f..8c5406e 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -477,13 +477,16 @@ class PreTrendsPower:
 
     def set_params(self, **params) -> "PreTrendsPower":
         """Set parameters for this estimator."""
-        for key, value in params.items():
-            if key == "power":
-                self.target_power = value
-            elif hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        valid = self.get_params()
+        for key in params:
+            if key not in valid:
                 raise ValueError(f"Invalid parameter: {key}")
+        # Apply the constructor's validation before changing anything
+        updated = type(self)(**{**valid, **params})
+        self.alpha = updated.alpha
+        self.target_power = updated.target_power
+        self.violation_type = updated.violation_type
+        self.violation_weights = updated.violation_weights
         return self
 
     def _get_violation_weights(self, n_pre: int) -> np.ndarray:
diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 7f7073f..7e866ae 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -1106,11 +1106,21 @@ class CallawaySantAnna(
 
     def set_params(self, **params) -> "CallawaySantAnna":
         """Set estimator parameters (sklearn-compatible)."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        valid = self.get_params()
+        for key in params:
+            if key not in valid:
                 raise ValueError(f"Unknown parameter: {key}")
+        # The deprecated name only stands in for bootstrap_weights
+        valid.pop("bootstrap_weight_type")
+        params = dict(params)
+        weight_type = params.pop("bootstrap_weight_type", None)
+        if weight_type is not None:
+            params.setdefault("bootstrap_weights", weight_type)
+        # Apply the constructor's validation before changing anything
+        updated = type(self)(**{**valid, **params})
+        for key in valid:
+            setattr(self, key, getattr(updated, key))
+        self.bootstrap_weight_type = updated.bootstrap_weight_type
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 4482739..df028d4 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1186,11 +1186,14 @@ class SunAbraham:
 
     def set_params(self, **params) -> "SunAbraham":
         """Set estimator parameters (sklearn-compatible)."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        valid = self.get_params()
+        for key in params:
+            if key not in valid:
                 raise ValueError(f"Unknown parameter: {key}")
+        # Apply the constructor's validation before changing anything
+        updated = type(self)(**{**valid, **params})
+        for key in valid:
+            setattr(self, key, getattr(updated, key))
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index 3d0cb4c..79cc816 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -731,9 +731,12 @@ class SyntheticDiD(DifferenceInDifferences):
 
     def set_params(self, **params) -> "SyntheticDiD":
         """Set estimator parameters."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        valid = self.get_params()
+        for key in params:
+            if key not in valid:
                 raise ValueError(f"Unknown parameter: {key}")
+        # Apply the constructor's validation before changing anything
+        updated = type(self)(**{**valid, **params})
+        for key in valid:
+            setattr(self, key, getattr(updated, key))
         return self
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index dc9df9d..aa5bc90 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -1204,11 +1204,14 @@ class TripleDifference:
         -------
         self
         """
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        valid = self.get_params()
+        for key in params:
+            if key not in valid:
                 raise ValueError(f"Unknown parameter: {key}")
+        # Apply the constructor's validation before changing anything
+        updated = type(self)(**{**valid, **params})
+        for key in valid:
+            setattr(self, key, getattr(updated, key))
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index a6e2fdc..a3346c3 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -3095,11 +3095,14 @@ class TROP:
 
     def set_params(self, **params) -> "TROP":
         """Set estimator parameters."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        valid = self.get_params()
+        for key in params:
+            if key not in valid:
                 raise ValueError(f"Unknown parameter: {key}")
+        # Apply the constructor's validation before changing anything
+        updated = type(self)(**{**valid, **params})
+        for key in valid:
+            setattr(self, key, getattr(updated, key))
         return self
 
 
-- 
2.43.0


From 68427d80888532fb36bff5c890b4971516014f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 28/52] fix: rank control units on unbalanced panels instead of
 failing

---
 diff_diff/prep.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 3f80cfe..be35c78 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -1000,13 +1000,29 @@ def rank_control_units(
         raise ValueError("Treated units not found in pre-treatment data.")
     Y_treated_mean = pivot.loc[valid_pre_periods, treated_list].mean(axis=1).values.astype(float)
 
+    # Unbalanced panels: compare over the periods with treated outcomes and leave
+    # out controls without any outcome in those periods
+    observed_periods = ~np.isnan(Y_treated_mean)
+    if not observed_periods.any():
+        raise ValueError("Treated units not found in pre-treatment data.")
+    Y_control = Y_control[observed_periods]
+    Y_treated_mean = Y_treated_mean[observed_periods]
+    has_data = ~np.isnan(Y_control).all(axis=0)
+    control_candidates = [c for c, keep in zip(control_candidates, has_data) if keep]
+    if len(control_candidates) == 0:
+        raise ValueError("No control units found in pre-treatment data.")
+    Y_control = Y_control[:, has_data]
+
     # -------------------------------------------------------------------------
     # Compute outcome trend scores
     # -------------------------------------------------------------------------
-    # Synthetic weights (higher = better match)
-    synthetic_weights = compute_synthetic_weights(
-        Y_control, Y_treated_mean, lambda_reg=lambda_reg
-    )
+    # Synthetic weights (higher = better match); controls with gaps get none
+    complete = ~np.isnan(Y_control).any(axis=0)
+    synthetic_weights = np.zeros(len(control_candidates))
+    if complete.any():
+        synthetic_weights[complete] = compute_synthetic_weights(
+            Y_control[:, complete], Y_treated_mean, lambda_reg=lambda_reg
+        )
 
     # RMSE for each control vs treated mean (use nanmean to handle missing data)
     rmse_scores = []
@@ -1035,7 +1051,7 @@ def rank_control_units(
         cov_data = pre_data.groupby(unit_column)[covariates].mean()
 
         # Treated covariate profile (mean across treated units)
-        treated_cov = cov_data.loc[list(treated_set)].mean()
+        treated_cov = cov_data.loc[treated_list].mean()
 
         # Standardize covariates
         cov_mean = cov_data.mean()
@@ -1050,14 +1066,16 @@ def rank_control_units(
             np.sum((control_cov_matrix - treated_cov_vector) ** 2, axis=1)
         )
 
-        # Convert distance to similarity score (min-max normalization)
-        max_dist = covariate_distances.max() if len(covariate_distances) > 0 else 1.0
-        min_dist = covariate_distances.min() if len(covariate_distances) > 0 else 0.0
+        # Convert distance to similarity score (min-max normalization); a control
+        # without covariate data keeps a NaN score
+        known_distances = covariate_distances[~np.isnan(covariate_distances)]
+        max_dist = known_distances.max() if len(known_distances) > 0 else 1.0
+        min_dist = known_distances.min() if len(known_distances) > 0 else 0.0
         dist_range = max_dist - min_dist
 
         if dist_range < 1e-10:
             # All controls have identical/similar covariate profiles
-            covariate_scores = [1.0] * len(covariate_distances)
+            covariate_scores = [np.nan if np.isnan(d) else 1.0 for d in covariate_distances]
         else:
             # Normalize so best control (closest) gets 1.0, worst gets 0.0
             covariate_scores = (1 - (covariate_distances - min_dist) / dist_range).tolist()
-- 
2.43.0


From b0678d3adb0c81c87d8dda488987292d66af3d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 29/52] fix: compute candidate trends in time order, not row
 order

---
 diff_diff/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index be35c78..32a74e2 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -1183,7 +1183,7 @@ def _suggest_treatment_candidates(
     candidate_info = []
 
     for unit in all_units:
-        unit_data = pre_data[pre_data[unit_column] == unit]
+        unit_data = pre_data[pre_data[unit_column] == unit].sort_values(time_column)
 
         if len(unit_data) == 0:
             continue
-- 
2.43.0


From c45e4047d5f364a50438f610c2155fcb5450e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 30/52] fix: label summary intervals with the level at which
 they were computed

---
 diff_diff/diagnostics.py       |  2 +-
 diff_diff/honest_did.py        |  2 +-
 diff_diff/results.py           | 24 ++++++++++++------------
 diff_diff/staggered_results.py |  7 ++++---
 diff_diff/sun_abraham.py       |  7 ++++---
 diff_diff/triple_diff.py       |  8 ++++----
 diff_diff/trop.py              |  8 ++++----
 diff_diff/utils.py             |  2 +-
 8 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 123a7de..c585c48 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -85,7 +85,7 @@ class PlaceboTestResults:
 
     def summary(self) -> str:
         """Generate formatted summary of placebo test results."""
-        conf_level = int((1 - self.alpha) * 100)
+        conf_level = f"{(1 - self.alpha) * 100:g}"
 
         lines = [
             "=" * 65,
diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 7a07ad6..4b968b1 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -240,7 +240,7 @@ class HonestDiDResults:
         str
             Formatted summary.
         """
-        conf_level = int((1 - self.alpha) * 100)
+        conf_level = f"{(1 - self.alpha) * 100:g}"
 
         method_names = {
             "smoothness": "Smoothness (Delta^SD)",
diff --git a/diff_diff/results.py b/diff_diff/results.py
index 213d09f..7581e14 100644
--- a/diff_diff/results.py
+++ b/diff_diff/results.py
@@ -74,16 +74,16 @@ class DiDResults:
         Parameters
         ----------
         alpha : float, optional
-            Significance level for confidence intervals. Defaults to the
-            alpha used during estimation.
+            Kept for compatibility. The interval shown, and its label, are
+            those of the alpha used during estimation.
 
         Returns
         -------
         str
             Formatted summary table.
         """
-        alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        # The label states the level at which the stored interval was computed
+        conf_level = f"{(1 - self.alpha) * 100:g}"
 
         lines = [
             "=" * 70,
@@ -315,16 +315,16 @@ class MultiPeriodDiDResults:
         Parameters
         ----------
         alpha : float, optional
-            Significance level for confidence intervals. Defaults to the
-            alpha used during estimation.
+            Kept for compatibility. The interval shown, and its label, are
+            those of the alpha used during estimation.
 
         Returns
         -------
         str
             Formatted summary table.
         """
-        alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        # The label states the level at which the stored interval was computed
+        conf_level = f"{(1 - self.alpha) * 100:g}"
 
         lines = [
             "=" * 80,
@@ -553,16 +553,16 @@ class SyntheticDiDResults:
         Parameters
         ----------
         alpha : float, optional
-            Significance level for confidence intervals. Defaults to the
-            alpha used during estimation.
+            Kept for compatibility. The interval shown, and its label, are
+            those of the alpha used during estimation.
 
         Returns
         -------
         str
             Formatted summary table.
         """
-        alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        # The label states the level at which the stored interval was computed
+        conf_level = f"{(1 - self.alpha) * 100:g}"
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/staggered_results.py b/diff_diff/staggered_results.py
index 617a839..f680785 100644
--- a/diff_diff/staggered_results.py
+++ b/diff_diff/staggered_results.py
@@ -129,15 +129,16 @@ class CallawaySantAnnaResults:
         Parameters
         ----------
         alpha : float, optional
-            Significance level. Defaults to alpha used in estimation.
+            Kept for compatibility. The interval shown, and its label, are
+            those of the alpha used during estimation.
 
         Returns
         -------
         str
             Formatted summary.
         """
-        alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        # The label states the level at which the stored interval was computed
+        conf_level = f"{(1 - self.alpha) * 100:g}"
 
         lines = [
             "=" * 85,
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index df028d4..d21400a 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -100,15 +100,16 @@ class SunAbrahamResults:
         Parameters
         ----------
         alpha : float, optional
-            Significance level. Defaults to alpha used in estimation.
+            Kept for compatibility. The interval shown, and its label, are
+            those of the alpha used during estimation.
 
         Returns
         -------
         str
             Formatted summary.
         """
-        alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        # The label states the level at which the stored interval was computed
+        conf_level = f"{(1 - self.alpha) * 100:g}"
 
         lines = [
             "=" * 85,
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index aa5bc90..7a1b23d 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -127,16 +127,16 @@ class TripleDifferenceResults:
         Parameters
         ----------
         alpha : float, optional
-            Significance level for confidence intervals. Defaults to the
-            alpha used during estimation.
+            Kept for compatibility. The interval shown, and its label, are
+            those of the alpha used during estimation.
 
         Returns
         -------
         str
             Formatted summary table.
         """
-        alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        # The label states the level at which the stored interval was computed
+        conf_level = f"{(1 - self.alpha) * 100:g}"
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index a3346c3..b5786aa 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -187,16 +187,16 @@ class TROPResults:
         Parameters
         ----------
         alpha : float, optional
-            Significance level for confidence intervals. Defaults to the
-            alpha used during estimation.
+            Kept for compatibility. The interval shown, and its label, are
+            those of the alpha used during estimation.
 
         Returns
         -------
         str
             Formatted summary table.
         """
-        alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        # The label states the level at which the stored interval was computed
+        conf_level = f"{(1 - self.alpha) * 100:g}"
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index dd291a6..3a35e99 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -202,7 +202,7 @@ class WildBootstrapResults:
             f"Bootstrap SE:        {self.se:.6f}",
             f"Bootstrap p-value:   {self.p_value:.4f}",
             f"Original t-stat:     {self.t_stat_original:.4f}",
-            f"CI ({int((1-self.alpha)*100)}%):           [{self.ci_lower:.6f}, {self.ci_upper:.6f}]",
+            f"CI ({(1-self.alpha)*100:g}%):           [{self.ci_lower:.6f}, {self.ci_upper:.6f}]",
             f"Number of clusters:  {self.n_clusters}",
             f"Bootstrap reps:      {self.n_bootstrap}",
             f"Weight type:         {self.weight_type}",
-- 
2.43.0


From 0ae6ddddcd7cf1c706c072c72e1637d55ec9db91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 31/52] fix: state the placebo test's own level in its
 interpretation

---
 diff_diff/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index c585c48..34999ae 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -143,14 +143,14 @@ class PlaceboTestResults:
 
         if self.is_significant:
             lines.append(
-                "WARNING: Significant placebo effect detected (p < 0.05)."
+                f"WARNING: Significant placebo effect detected (p < {self.alpha:g})."
             )
             lines.append(
                 "This suggests potential violations of the parallel trends assumption."
             )
         else:
             lines.append(
-                "No significant placebo effect detected (p >= 0.05)."
+                f"No significant placebo effect detected (p >= {self.alpha:g})."
             )
             lines.append(
                 "This is consistent with the parallel trends assumption."
-- 
2.43.0


From 21ecab2d71e628749301537152c003802c69d813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 32/52] fix: show a zero breakdown value in the sensitivity
 representation

---
 diff_diff/honest_did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 4b968b1..4fed74e 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -377,7 +377,7 @@ class SensitivityResults:
     alpha: float = 0.05
 
     def __repr__(self) -> str:
-        breakdown_str = f"{self.breakdown_M:.4f}" if self.breakdown_M else "None"
+        breakdown_str = f"{self.breakdown_M:.4f}" if self.breakdown_M is not None else "None"
         return (
             f"SensitivityResults(n_M={len(self.M_values)}, "
             f"breakdown_M={breakdown_str})"
-- 
2.43.0


From 97fe4295c686c82effcd3aea01b915e0c71c4deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 33/52] fix: keep the wild bootstrap draws on the scale of the
 estimate under a non-zero null

---
 diff_diff/utils.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 3a35e99..2ca021e 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -456,6 +456,10 @@ def wild_bootstrap_se(
         X, y_restricted, return_vcov=False
     )
 
+    # Bootstrap outcomes are built on the original scale, with the null value added back
+    fitted_null = X @ beta_restricted + X[:, coefficient_index] * null_hypothesis
+    coef_center = beta_restricted[coefficient_index] + null_hypothesis
+
     # Create cluster-to-observation mapping for efficiency
     cluster_map = {c: np.where(cluster_ids == c)[0] for c in unique_clusters}
     cluster_indices = [cluster_map[c] for c in unique_clusters]
@@ -473,8 +477,8 @@ def wild_bootstrap_se(
         for g, indices in enumerate(cluster_indices):
             obs_weights[indices] = cluster_weights[g]
 
-        # Construct bootstrap sample: y* = X @ beta_restricted + e_restricted * weights
-        y_star = X @ beta_restricted + residuals_restricted * obs_weights
+        # Construct bootstrap sample: y* = fitted values + e_restricted * weights
+        y_star = fitted_null + residuals_restricted * obs_weights
 
         # Estimate bootstrap coefficients with cluster-robust SE
         beta_star, residuals_star, vcov_star = _solve_ols_linalg(
@@ -485,11 +489,9 @@ def wild_bootstrap_se(
 
         # Compute bootstrap t-statistic (under null hypothesis)
         if se_star > 0:
-            # The bootstrap data are generated around the restricted fit, so its
-            # coefficient is the centre of the null distribution
-            bootstrap_t_stats[b] = (
-                beta_star[coefficient_index] - beta_restricted[coefficient_index]
-            ) / se_star
+            # The bootstrap data are generated around the fit, so its coefficient
+            # is the centre of the null distribution
+            bootstrap_t_stats[b] = (beta_star[coefficient_index] - coef_center) / se_star
         else:
             bootstrap_t_stats[b] = 0.0
 
-- 
2.43.0


From 2a84743c4b61c3cbab4e64a1836cdbf87c584a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 34/52] fix: run the wild cluster bootstrap on the identified
 columns of a collinear design

---
 diff_diff/estimators.py |  5 +++--
 diff_diff/utils.py      | 14 ++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index a684098..dd1ff66 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -20,7 +20,6 @@ import pandas as pd
 from diff_diff.linalg import (
     LinearRegression,
     compute_r_squared,
-    compute_robust_vcov,
     solve_ols,
 )
 from diff_diff.results import DiDResults, MultiPeriodDiDResults, PeriodEffect
@@ -436,7 +435,9 @@ class DifferenceInDifferences:
         t_stat = bootstrap_results.t_stat_original
 
         # Also compute vcov for storage (using cluster-robust for consistency)
-        vcov = compute_robust_vcov(X, residuals, cluster_ids)
+        _, _, vcov = solve_ols(
+            X, y, cluster_ids=cluster_ids, return_vcov=True, rank_deficient_action="silent"
+        )
 
         return se, p_value, conf_int, t_stat, vcov, bootstrap_results
 
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 2ca021e..8ae2b01 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -440,6 +440,20 @@ def wild_bootstrap_se(
     beta_hat, _, vcov_original = _solve_ols_linalg(
         X, y, cluster_ids=cluster_ids, return_vcov=True
     )
+
+    # Columns dropped for collinearity (NaN coefficients) take no part in the fit
+    identified = ~np.isnan(beta_hat)
+    if not np.all(identified):
+        if not identified[coefficient_index]:
+            raise ValueError(
+                "The coefficient of interest is not identified (collinear design matrix); "
+                "the wild cluster bootstrap cannot be computed for it."
+            )
+        X = X[:, identified]
+        beta_hat = beta_hat[identified]
+        vcov_original = vcov_original[np.ix_(identified, identified)]
+        coefficient_index = int(np.sum(identified[:coefficient_index]))
+
     original_coef = beta_hat[coefficient_index]
     se_original = np.sqrt(vcov_original[coefficient_index, coefficient_index])
     t_stat_original = (original_coef - null_hypothesis) / se_original
-- 
2.43.0


From 402db53dd65d392b1b6b3663d4d74d6a6972b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 35/52] fix: report no wild bootstrap p-value for an undefined
 test statistic

---
 diff_diff/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 8ae2b01..315ad48 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -516,6 +516,10 @@ def wild_bootstrap_se(
     # Ensure p-value is at least 1/(n_bootstrap+1) to avoid exact zero
     p_value = float(max(float(p_value), 1 / (n_bootstrap + 1)))
 
+    # An undefined test statistic has no p-value
+    if np.isnan(t_stat_original):
+        p_value = float("nan")
+
     # Step 5: Compute bootstrap SE and confidence interval
     # SE from standard deviation of bootstrap coefficient distribution
     se_bootstrap = float(np.std(bootstrap_coefs, ddof=1))
-- 
2.43.0


From 0007fe8376a49dedff64413c107b42964c094691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 36/52] fix: report no trend test when a group has only two
 pre-period observations

---
 diff_diff/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 315ad48..3299aa4 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -592,14 +592,14 @@ def check_parallel_trends(
         time_values = group_data[time].values
         outcome_values = group_data[outcome].values
 
-        # Normalize time to start at 0
-        time_norm = time_values - time_values.min()
-
         # Compute slope using least squares
-        n = len(time_norm)
+        n = len(time_values)
         if n < 2:
             return np.nan, np.nan
 
+        # Normalize time to start at 0
+        time_norm = time_values - time_values.min()
+
         mean_t = np.mean(time_norm)
         mean_y = np.mean(outcome_values)
 
@@ -610,6 +610,10 @@ def check_parallel_trends(
 
         slope = np.sum((time_norm - mean_t) * (outcome_values - mean_y)) / time_var
 
+        # Two observations fit a line exactly: the slope has no standard error
+        if n == 2:
+            return slope, np.nan
+
         # Compute standard error of slope
         y_hat = mean_y + slope * (time_norm - mean_t)
         residuals = outcome_values - y_hat
-- 
2.43.0


From ba138ddbb1b79c6d70e6a21869fa5ad2a3b572d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 37/52] fix: run the fake-group placebo test on never-treated
 units only

---
 diff_diff/diagnostics.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 34999ae..f40f599 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -317,6 +317,7 @@ def run_placebo_test(
             fake_treated_units=fake_treatment_group,
             post_periods=post_periods,
             alpha=alpha,
+            treatment=treatment,
             **estimator_kwargs
         )
 
@@ -459,6 +460,7 @@ def placebo_group_test(
     fake_treated_units: List[Any],
     post_periods: Optional[List[Any]] = None,
     alpha: float = 0.05,
+    treatment: Optional[str] = None,
     **estimator_kwargs
 ) -> PlaceboTestResults:
     """
@@ -484,6 +486,10 @@ def placebo_group_test(
         List of post-treatment period values.
     alpha : float, default=0.05
         Significance level.
+    treatment : str, optional
+        Treatment indicator column (0/1). Units that are ever treated are
+        excluded, so that the comparison is among never-treated units. If
+        None, ``data`` is taken to hold never-treated units only.
     **estimator_kwargs
         Arguments passed to DifferenceInDifferences.
 
@@ -502,6 +508,11 @@ def placebo_group_test(
         mid = len(all_periods) // 2
         post_periods = all_periods[mid:]
 
+    # Keep never-treated units only: actually treated units carry the real effect
+    if treatment is not None:
+        ever_treated = data.loc[data[treatment] == 1, unit].unique()
+        data = data[~data[unit].isin(ever_treated)]
+
     # Create fake treatment indicator
     fake_data = data.copy()
     fake_data["_fake_treated"] = fake_data[unit].isin(fake_treated_units).astype(int)
-- 
2.43.0


From a1ead418d8c3ce16f5f858005688ce5392aac89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 38/52] fix: report no placebo statistic when its standard
 error is undefined

---
 diff_diff/diagnostics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index f40f599..3a2f5eb 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -673,7 +673,7 @@ def permutation_test(
     ci_upper = np.percentile(valid_effects, (1 - alpha / 2) * 100)
 
     # T-stat from original estimate
-    t_stat = original_att / se if se > 0 else 0.0
+    t_stat = original_att / se if se > 0 else np.nan
 
     return PlaceboTestResults(
         test_type="permutation",
@@ -793,8 +793,8 @@ def leave_one_out_test(
 
     # Statistics of LOO distribution
     mean_effect = np.mean(valid_effects)
-    se = np.std(valid_effects, ddof=1) if len(valid_effects) > 1 else 0.0
-    t_stat = mean_effect / se if se > 0 else 0.0
+    se = np.std(valid_effects, ddof=1) if len(valid_effects) > 1 else np.nan
+    t_stat = mean_effect / se if se > 0 else np.nan
 
     # Use t-distribution for p-value
     df = len(valid_effects) - 1 if len(valid_effects) > 1 else 1
-- 
2.43.0


From ea8efe90b4d7976204783b2b263f513ee0a6e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 39/52] fix: generate the requested share of treated units
 despite float rounding

---
 diff_diff/prep_dgp.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/diff_diff/prep_dgp.py b/diff_diff/prep_dgp.py
index d8707aa..8f93856 100644
--- a/diff_diff/prep_dgp.py
+++ b/diff_diff/prep_dgp.py
@@ -12,6 +12,15 @@ import numpy as np
 import pandas as pd
 
 
+def _n_from_share(n_units: int, share: float) -> int:
+    """Number of units making up a share of n_units, rounded down.
+
+    The tolerance keeps shares such as 0.29 of 100 units (28.999999999999996
+    in floating point) from losing a unit.
+    """
+    return int(n_units * share + 1e-9)
+
+
 def generate_did_data(
     n_units: int = 100,
     n_periods: int = 4,
@@ -82,7 +91,7 @@ def generate_did_data(
     rng = np.random.default_rng(seed)
 
     # Determine treated units
-    n_treated = int(n_units * treatment_fraction)
+    n_treated = _n_from_share(n_units, treatment_fraction)
     treated_units = set(range(n_treated))
 
     # Generate unit fixed effects
@@ -216,7 +225,7 @@ def generate_staggered_data(
             )
 
     # Determine number of never-treated and treated units
-    n_never = int(n_units * never_treated_frac)
+    n_never = _n_from_share(n_units, never_treated_frac)
     n_treated = n_units - n_never
 
     # Assign treatment cohorts
@@ -622,7 +631,7 @@ def generate_panel_data(
     if treatment_period >= n_periods:
         raise ValueError(f"treatment_period must be less than n_periods ({n_periods})")
 
-    n_treated = int(n_units * treatment_fraction)
+    n_treated = _n_from_share(n_units, treatment_fraction)
 
     records = []
     for unit in range(n_units):
@@ -739,7 +748,7 @@ def generate_event_study_data(
 
     n_periods = n_pre + n_post
     treatment_period = n_pre
-    n_treated = int(n_units * treatment_fraction)
+    n_treated = _n_from_share(n_units, treatment_fraction)
 
     records = []
     for unit in range(n_units):
-- 
2.43.0


From 2770850ea0f0447f952529929f34bb60c5983d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 40/52] fix: compute TROP weights of bootstrap refits from the
 resampled panel

---
 diff_diff/trop.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index b5786aa..c34bc8c 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2287,8 +2287,13 @@ class TROP:
         np.ndarray
             Weight matrix (n_periods x n_units) for observation (i, t).
         """
-        # Use pre-computed structures when available
-        if self._precomputed is not None:
+        # Use pre-computed structures when they describe this panel (bootstrap
+        # and jackknife refits pass their own matrices)
+        if (
+            self._precomputed is not None
+            and self._precomputed["Y"] is Y
+            and self._precomputed["D"] is D
+        ):
             # Time weights from pre-computed time distance matrix
             # time_dist_matrix[t, s] = |t - s|
             time_weights = np.exp(-lambda_time * self._precomputed["time_dist_matrix"][t, :])
-- 
2.43.0


From 98433d881581676c975f7551b8e5e89e24eefc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 41/52] fix: score infinite TROP tuning values as disabled
 instead of discarding them

---
 diff_diff/trop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index c34bc8c..baac1d7 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2074,10 +2074,13 @@ class TROP:
             )
 
             # Compute final score for the optimized parameters
+            # (infinite values mean "disabled", as in the search above)
             try:
                 best_score = self._loocv_score_obs_specific(
                     Y, D, control_mask, control_unit_idx,
-                    lambda_time, lambda_unit, lambda_nn,
+                    0.0 if np.isinf(lambda_time) else lambda_time,
+                    0.0 if np.isinf(lambda_unit) else lambda_unit,
+                    1e10 if np.isinf(lambda_nn) else lambda_nn,
                     n_units, n_periods
                 )
                 # Only accept finite scores - infinite means all fits failed
-- 
2.43.0


From 88addfcd1d23e4f0776a30ea3d492d6dd152e2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 42/52] fix: use the same reference distribution for TROP
 p-value and interval

---
 diff_diff/trop.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index baac1d7..93987fc 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1512,7 +1512,9 @@ class TROP:
         if se > 0:
             t_stat = att / se
             p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=max(1, n_treated_obs - 1)))
-            conf_int = compute_confidence_interval(att, se, self.alpha)
+            conf_int = compute_confidence_interval(
+                att, se, self.alpha, df=max(1, n_treated_obs - 1)
+            )
         else:
             t_stat = np.nan
             p_value = np.nan
@@ -2192,7 +2194,9 @@ class TROP:
         if se > 0:
             t_stat = att / se
             p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=max(1, n_treated_obs - 1)))
-            conf_int = compute_confidence_interval(att, se, self.alpha)
+            conf_int = compute_confidence_interval(
+                att, se, self.alpha, df=max(1, n_treated_obs - 1)
+            )
         else:
             # When SE is undefined/zero, ALL inference fields should be NaN
             t_stat = np.nan
-- 
2.43.0


From 7f5c57a8b61331e019ab680fa16c978c9c6f68e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 43/52] fix: reject TROP panels whose treated units have no
 observed untreated outcome

---
 diff_diff/trop.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 93987fc..6889144 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1083,6 +1083,8 @@ class TROP:
         sum_w = np.sum(weights)
         if sum_w < 1e-10:
             raise ValueError("All weights are zero - cannot estimate")
+        if np.sum(weights[w == 1]) <= 0:
+            raise ValueError("No weighted treated observations - cannot estimate")
 
         # Build design matrix: [intercept, unit_dummies, time_dummies, treatment]
         # Total columns: 1 + n_units + n_periods + 1
@@ -1970,6 +1972,16 @@ class TROP:
         if n_pre_periods < 2:
             raise ValueError("Need at least 2 pre-treatment periods")
 
+        # A treated unit needs an untreated outcome: its fixed effect (and so its
+        # treatment effects) is not identified otherwise
+        has_untreated = np.any((D == 0) & ~np.isnan(Y), axis=0)
+        unidentified = [all_units[i] for i in treated_unit_idx if not has_untreated[i]]
+        if unidentified:
+            raise ValueError(
+                f"Treated units without an observed untreated outcome: {unidentified}. "
+                "Drop them: their treatment effects are not identified."
+            )
+
         # Step 1: Grid search with LOOCV for tuning parameters
         best_lambda = None
         best_score = np.inf
-- 
2.43.0


From df96a18fab155339e3dfb9f64e3e3ff279aa6160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:46 +0000
Subject: [PATCH 44/52] fix: draw honest intervals that do not contain the
 period effect

plot_honest_event_study passed effect - lower and upper - effect as error
bar lengths; when a period effect lies outside its honest bounds one of
them is negative and matplotlib raises ValueError. Centre the bars at the
interval instead.
---
 diff_diff/visualization.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/diff_diff/visualization.py b/diff_diff/visualization.py
index 3ba3a80..fe6a55e 100644
--- a/diff_diff/visualization.py
+++ b/diff_diff/visualization.py
@@ -843,12 +843,15 @@ def plot_honest_event_study(
     )
 
     # Plot honest CIs (thicker, foreground)
-    yerr_honest = [
-        [e - lower for e, lower in zip(effects, honest_ci_lower)],
-        [u - e for e, u in zip(effects, honest_ci_upper)]
+    # centred at the interval itself: an effect may lie outside its honest bounds
+    honest_centers = [
+        (lower + upper) / 2 for lower, upper in zip(honest_ci_lower, honest_ci_upper)
     ]
+    yerr_honest = [
+        [(upper - lower) / 2 for lower, upper in zip(honest_ci_lower, honest_ci_upper)]
+    ] * 2
     ax.errorbar(
-        x_vals, effects, yerr=yerr_honest,
+        x_vals, honest_centers, yerr=yerr_honest,
         fmt='none', color=honest_color, capsize=capsize,
         linewidth=2, label=f'Honest CI (M={honest_results.M:.2f})'
     )
-- 
2.43.0


From a6fd705f8d7de18b67ea5078fc64f4717ae0d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:15 +0000
Subject: [PATCH 45/52] fix: use the cached or built-in data set when the
 download times out or breaks off

Only URLError and HTTPError were caught; a read that times out, a reset
connection or a truncated response raise other exceptions, so load_*
failed instead of falling back. Also keep the cache write out of the
download's error handling.
---
 diff_diff/datasets.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index b3a23cc..1163509 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -8,10 +8,10 @@ All datasets are downloaded from public sources and cached locally
 for subsequent use.
 """
 
+from http.client import HTTPException
 from io import StringIO
 from pathlib import Path
 from typing import Dict
-from urllib.error import HTTPError, URLError
 from urllib.request import urlopen
 
 import numpy as np
@@ -42,9 +42,7 @@ def _download_with_cache(
     try:
         with urlopen(url, timeout=30) as response:
             content = response.read().decode("utf-8")
-            cache_path.write_text(content)
-            return content
-    except (HTTPError, URLError) as e:
+    except (OSError, HTTPException) as e:  # URLError, HTTPError and timeouts are OSErrors
         if cache_path.exists():
             # Use cached version if download fails
             return cache_path.read_text()
@@ -53,6 +51,9 @@ def _download_with_cache(
             "Check your internet connection or try again later."
         ) from e
 
+    cache_path.write_text(content)
+    return content
+
 
 def clear_cache() -> None:
     """Clear the local dataset cache."""
-- 
2.43.0


From 0cb73293b5fdb1bfc7274eee9e09dd51f893f004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:20 +0000
Subject: [PATCH 46/52] fix: an interrupted cache write no longer leaves a
 partial data set

write_text truncates the entry first, so a full disk or an interruption
left a partial file that every later load used silently. Write to a
temporary file and rename it into place.
---
 diff_diff/datasets.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index 1163509..0373b27 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -8,6 +8,7 @@ All datasets are downloaded from public sources and cached locally
 for subsequent use.
 """
 
+import os
 from http.client import HTTPException
 from io import StringIO
 from pathlib import Path
@@ -51,7 +52,14 @@ def _download_with_cache(
             "Check your internet connection or try again later."
         ) from e
 
-    cache_path.write_text(content)
+    # Write aside and rename: an interrupted write must not leave a partial
+    # entry that later loads would use
+    tmp_path = cache_path.with_name(f"{cache_path.name}.{os.getpid()}.tmp")
+    try:
+        tmp_path.write_text(content)
+        os.replace(tmp_path, cache_path)
+    finally:
+        tmp_path.unlink(missing_ok=True)
     return content
 
 
-- 
2.43.0


From 9baa41f22ed882bc911f9e5ae8aa60f437a791ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:51 +0000
Subject: [PATCH 47/52] fix: doubly robust triple difference uses its outcome
 models

With covariates the outcome-model terms cancelled, so the estimate was the
weighting estimate and was not consistent under a correct outcome model.
The models are now averaged over the effectively treated rows, the weights
apply to the residuals only, and the variance uses the same terms.
---
 diff_diff/triple_diff.py | 154 +++++++++++++++------------------------
 1 file changed, 60 insertions(+), 94 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 7a1b23d..8a02ea4 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -942,30 +942,29 @@ class TripleDifference:
         cell_3 = (G == 0) & (P == 1)
         cell_4 = (G == 0) & (P == 0)
 
+        cells = [cell_1, cell_2, cell_3, cell_4]
+
         # Step 1: Outcome regression for each cell-time combination
-        # Predict E[Y|X,T] for each cell
+        # mu[c, t] predicts E[Y|X] in cell c and period t for every row
+        mu = {}
         if X is not None and X.shape[1] > 0:
-            # Fit outcome models for each cell
-            mu_fitted = np.zeros(n)
+            # Fit outcome models for each cell and period
+            X_with_intercept = np.column_stack([np.ones(n), X])
 
-            for cell_mask, cell_name in [
-                (cell_1, "cell_1"), (cell_2, "cell_2"),
-                (cell_3, "cell_3"), (cell_4, "cell_4")
-            ]:
+            for c, cell_mask in enumerate(cells):
                 for t_val in [0, 1]:
                     mask = cell_mask & (T == t_val)
+                    mu[c, t_val] = np.full(n, np.mean(y[mask]) if np.sum(mask) > 0 else 0.0)
                     if np.sum(mask) > 1:
-                        X_cell = np.column_stack([X[mask], T[mask]])
                         try:
-                            _, fitted, _ = _linear_regression(
-                                X_cell, y[mask],
+                            beta, _, _ = _linear_regression(
+                                X[mask], y[mask],
                                 rank_deficient_action=self.rank_deficient_action,
                             )
-                            mu_fitted[mask] = fitted
+                            # Dropped (collinear) covariates have NaN coefficients
+                            mu[c, t_val] = X_with_intercept @ np.nan_to_num(beta)
                         except Exception:
-                            mu_fitted[mask] = np.mean(y[mask])
-                    elif np.sum(mask) == 1:
-                        mu_fitted[mask] = y[mask]
+                            pass  # keep the mean of the cell
 
             # Propensity scores
             try:
@@ -986,6 +985,13 @@ class TripleDifference:
             p_cell_3 = (1 - p_G) * p_P
             p_cell_4 = (1 - p_G) * (1 - p_P)
 
+            # Clip cell probabilities
+            p_cell_1 = np.clip(p_cell_1, self.pscore_trim, 1 - self.pscore_trim)
+            p_cell_2 = np.clip(p_cell_2, self.pscore_trim, 1 - self.pscore_trim)
+            p_cell_3 = np.clip(p_cell_3, self.pscore_trim, 1 - self.pscore_trim)
+            p_cell_4 = np.clip(p_cell_4, self.pscore_trim, 1 - self.pscore_trim)
+            odds = [None, p_cell_1 / p_cell_2, p_cell_1 / p_cell_3, p_cell_1 / p_cell_4]
+
             pscore_stats = {
                 "P(G=1) mean": float(np.mean(p_G)),
                 "P(G=1) std": float(np.std(p_G)),
@@ -994,76 +1000,38 @@ class TripleDifference:
             }
         else:
             # No covariates: use cell means as predictions
-            mu_fitted = np.zeros(n)
-            for cell_mask in [cell_1, cell_2, cell_3, cell_4]:
+            for c, cell_mask in enumerate(cells):
                 for t_val in [0, 1]:
                     mask = cell_mask & (T == t_val)
-                    if np.sum(mask) > 0:
-                        mu_fitted[mask] = np.mean(y[mask])
+                    mu[c, t_val] = np.full(n, np.mean(y[mask]) if np.sum(mask) > 0 else 0.0)
 
-            # Unconditional probabilities
-            p_cell_1 = np.full(n, np.mean(cell_1))
-            p_cell_2 = np.full(n, np.mean(cell_2))
-            p_cell_3 = np.full(n, np.mean(cell_3))
-            p_cell_4 = np.full(n, np.mean(cell_4))
+            # Unconditional odds are constant within a cell and drop out
+            odds = [None, np.ones(n), np.ones(n), np.ones(n)]
             pscore_stats = None
 
-        # Clip cell probabilities
-        p_cell_1 = np.clip(p_cell_1, self.pscore_trim, 1 - self.pscore_trim)
-        p_cell_2 = np.clip(p_cell_2, self.pscore_trim, 1 - self.pscore_trim)
-        p_cell_3 = np.clip(p_cell_3, self.pscore_trim, 1 - self.pscore_trim)
-        p_cell_4 = np.clip(p_cell_4, self.pscore_trim, 1 - self.pscore_trim)
-
         # Step 2: Doubly robust estimator
-        # For each cell, compute the augmented IPW term:
-        # (Y - mu(X)) * weight + mu(X)
+        # The mean outcome of each comparison cell, for the covariates of the
+        # effectively treated rows of the same period, is the average of the
+        # outcome model over those rows plus the reweighted mean residual of
+        # the comparison cell: mean(mu(X) | cell 1) + mean(w * (Y - mu(X)) | cell)
 
         pre_mask = T == 0
         post_mask = T == 1
 
-        # Influence function components for each observation
-        n_1 = np.sum(cell_1)
-        p_ref = n_1 / n
-
-        # Cell 1 (G=1, P=1) - effectively treated
-        inf_11 = np.zeros(n)
-        inf_11[cell_1] = (y[cell_1] - mu_fitted[cell_1]) / p_ref
-        # Add outcome model contribution
-        inf_11 += mu_fitted * cell_1.astype(float) / p_ref
-
-        # Cell 2 (G=1, P=0)
-        w_10 = cell_2.astype(float) * (p_cell_1 / p_cell_2)
-        inf_10 = w_10 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 2 (vectorized)
-        inf_10[cell_2] += mu_fitted[cell_2] * (p_cell_1[cell_2] / p_cell_2[cell_2]) / p_ref
-
-        # Cell 3 (G=0, P=1)
-        w_01 = cell_3.astype(float) * (p_cell_1 / p_cell_3)
-        inf_01 = w_01 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 3 (vectorized)
-        inf_01[cell_3] += mu_fitted[cell_3] * (p_cell_1[cell_3] / p_cell_3[cell_3]) / p_ref
-
-        # Cell 4 (G=0, P=0)
-        w_00 = cell_4.astype(float) * (p_cell_1 / p_cell_4)
-        inf_00 = w_00 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 4 (vectorized)
-        inf_00[cell_4] += mu_fitted[cell_4] * (p_cell_1[cell_4] / p_cell_4[cell_4]) / p_ref
-
-        # Compute cell-time means using DR formula
-        # Weights are normalized within period: cell shares may differ between
-        # pre and post, and the mean of a cell must not depend on them.
-        def dr_mean(inf_vals, weights, t_mask):
-            return np.sum(inf_vals[t_mask]) / (np.sum(weights[t_mask]) / p_ref)
-
-        w_11 = cell_1.astype(float)
-        y_11_pre = dr_mean(inf_11, w_11, pre_mask)
-        y_11_post = dr_mean(inf_11, w_11, post_mask)
-        y_10_pre = dr_mean(inf_10, w_10, pre_mask)
-        y_10_post = dr_mean(inf_10, w_10, post_mask)
-        y_01_pre = dr_mean(inf_01, w_01, pre_mask)
-        y_01_post = dr_mean(inf_01, w_01, post_mask)
-        y_00_pre = dr_mean(inf_00, w_00, pre_mask)
-        y_00_post = dr_mean(inf_00, w_00, post_mask)
+        def dr_mean(c, t_val):
+            mask = cells[c] & (T == t_val)
+            w = odds[c][mask]
+            residual = np.sum(w * (y[mask] - mu[c, t_val][mask])) / np.sum(w)
+            return np.mean(mu[c, t_val][cell_1 & (T == t_val)]) + residual
+
+        y_11_pre = np.mean(y[cell_1 & pre_mask])
+        y_11_post = np.mean(y[cell_1 & post_mask])
+        y_10_pre = dr_mean(1, 0)
+        y_10_post = dr_mean(1, 1)
+        y_01_pre = dr_mean(2, 0)
+        y_01_post = dr_mean(2, 1)
+        y_00_pre = dr_mean(3, 0)
+        y_00_post = dr_mean(3, 1)
 
         # DDD estimate
         att = (
@@ -1074,26 +1042,24 @@ class TripleDifference:
         )
 
         # Standard error computation
-        # Use the simpler variance formula for the DDD estimator
-        # Var(DDD) ≈ sum of variances of cell means / cell_sizes
-
-        # Compute variances within each cell-time combination
-        def cell_var(cell_mask, t_mask, y_vals):
-            mask = cell_mask & t_mask
-            if np.sum(mask) > 1:
-                return np.var(y_vals[mask], ddof=1), np.sum(mask)
-            return 0.0, max(1, np.sum(mask))
-
-        # Variance components for each of the 8 cells
-        var_components = []
-        for cell_mask in [cell_1, cell_2, cell_3, cell_4]:
-            for t_mask in [pre_mask, post_mask]:
-                v, n_cell = cell_var(cell_mask, t_mask, y)
-                if n_cell > 0:
-                    var_components.append(v / n_cell)
-
-        # Total variance is sum of components (assuming independence)
-        total_var = sum(var_components)
+        # Influence function: the treated rows contribute their outcome net of
+        # the outcome models, the comparison rows their reweighted residual.
+        # Var(DDD) ≈ sum over the eight cells of variance / cell size
+        mu_fitted = np.zeros(n)
+        total_var = 0.0
+        for t_val in [0, 1]:
+            for c, cell_mask in enumerate(cells):
+                mask = cell_mask & (T == t_val)
+                n_cell = np.sum(mask)
+                mu_fitted[mask] = mu[c, t_val][mask]
+                if c == 0:
+                    inf = y - mu[1, t_val] - mu[2, t_val] + mu[3, t_val]
+                    inf = inf[mask]
+                else:
+                    w = odds[c][mask]
+                    inf = w / np.mean(w) * (y[mask] - mu[c, t_val][mask])
+                if n_cell > 1:
+                    total_var = total_var + np.var(inf, ddof=1) / n_cell
         se = np.sqrt(total_var)
 
         # R-squared from outcome regression
-- 
2.43.0


From 2fbbff365570e032a32bf5730c512b96f302502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:30 +0000
Subject: [PATCH 48/52] fix: Sun-Abraham inference uses only effects and draws
 that exist

An overall effect without any post-treatment event time was reported as
0 with standard error 0, and bootstrap draws that could not estimate an
effect were replaced by the point estimate (or, without never-treated
units, by unidentified numbers), which understated the standard error.
---
 diff_diff/sun_abraham.py | 46 +++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index d21400a..8d9db2f 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -930,7 +930,8 @@ class SunAbraham:
         ]
 
         if not post_effects:
-            return 0.0, 0.0
+            # Nothing to average: undefined rather than zero
+            return np.nan, np.nan
 
         # Weight by number of treated observations at each relative time
         post_weights = []
@@ -1049,6 +1050,10 @@ class SunAbraham:
             )
 
             try:
+                # Without a comparison cohort the effects are not identified
+                if not df_b["_never_treated"].any():
+                    raise ValueError("no never-treated units in the resample")
+
                 # Re-estimate saturated regression
                 (
                     cohort_effects_b,
@@ -1085,7 +1090,8 @@ class SunAbraham:
                     if e in event_study_b:
                         bootstrap_effects[e][b] = event_study_b[e]["effect"]
                     else:
-                        bootstrap_effects[e][b] = original_event_study[e]["effect"]
+                        # Not estimable in this resample
+                        bootstrap_effects[e][b] = np.nan
 
                 # Compute overall ATT for this bootstrap sample
                 overall_b, _ = self._compute_overall_att(
@@ -1100,15 +1106,15 @@ class SunAbraham:
                 bootstrap_overall[b] = overall_b
 
             except (ValueError, np.linalg.LinAlgError) as exc:
-                # If bootstrap iteration fails, use original
+                # A failed iteration gives no draw
                 warnings.warn(
-                    f"Bootstrap iteration {b} failed: {exc}. Using original estimate.",
+                    f"Bootstrap iteration {b} failed: {exc}. Dropping it.",
                     UserWarning,
                     stacklevel=2,
                 )
                 for e in rel_periods:
-                    bootstrap_effects[e][b] = original_event_study[e]["effect"]
-                bootstrap_overall[b] = original_overall_att
+                    bootstrap_effects[e][b] = np.nan
+                bootstrap_overall[b] = np.nan
 
         # Compute bootstrap statistics
         event_study_ses = {}
@@ -1119,18 +1125,14 @@ class SunAbraham:
             boot_dist = bootstrap_effects[e]
             original_effect = original_event_study[e]["effect"]
 
-            se = float(np.std(boot_dist, ddof=1))
-            ci = self._compute_percentile_ci(boot_dist, self.alpha)
-            p_value = self._compute_bootstrap_pvalue(original_effect, boot_dist)
+            se, ci, p_value = self._compute_bootstrap_stats(original_effect, boot_dist)
 
             event_study_ses[e] = se
             event_study_cis[e] = ci
             event_study_p_values[e] = p_value
 
         # Overall ATT statistics
-        overall_se = float(np.std(bootstrap_overall, ddof=1))
-        overall_ci = self._compute_percentile_ci(bootstrap_overall, self.alpha)
-        overall_p = self._compute_bootstrap_pvalue(
+        overall_se, overall_ci, overall_p = self._compute_bootstrap_stats(
             original_overall_att, bootstrap_overall
         )
 
@@ -1147,6 +1149,26 @@ class SunAbraham:
             bootstrap_distribution=bootstrap_overall,
         )
 
+    def _compute_bootstrap_stats(
+        self,
+        original_effect: float,
+        boot_dist: np.ndarray,
+    ) -> Tuple[float, Tuple[float, float], float]:
+        """
+        Compute standard error, interval and p-value from the finite draws.
+
+        Returns NaN for all of them if the effect is undefined or fewer than
+        half of the draws are finite.
+        """
+        valid = boot_dist[np.isfinite(boot_dist)]
+        too_few = len(valid) < 2 or len(valid) < 0.5 * len(boot_dist)
+        if too_few or not np.isfinite(original_effect):
+            return np.nan, (np.nan, np.nan), np.nan
+        se = float(np.std(valid, ddof=1))
+        ci = self._compute_percentile_ci(valid, self.alpha)
+        p_value = self._compute_bootstrap_pvalue(original_effect, valid)
+        return se, ci, p_value
+
     def _compute_percentile_ci(
         self,
         boot_dist: np.ndarray,
-- 
2.43.0


From a636b64a7b66c8d31de4a954ab0d55a08c8a73cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:58 +0000
Subject: [PATCH 49/52] fix: redundant covariates no longer make
 Callaway-Sant'Anna effects NaN

The outcome regression drops collinear covariates and marks their
coefficients NaN; predicting with them turned every effect into NaN.
---
 diff_diff/staggered.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 7e866ae..b07b58e 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -865,7 +865,8 @@ class CallawaySantAnna(
 
             # Predict counterfactual for treated units
             X_treated_with_intercept = np.column_stack([np.ones(n_t), X_treated])
-            predicted_control = X_treated_with_intercept @ beta
+            # Dropped (collinear) covariates have NaN coefficients
+            predicted_control = X_treated_with_intercept @ np.nan_to_num(beta)
 
             # ATT = mean(observed treated change - predicted counterfactual)
             att = np.mean(treated_change - predicted_control)
@@ -1029,6 +1030,8 @@ class CallawaySantAnna(
             # Predict counterfactual for both treated and control
             X_treated_with_intercept = np.column_stack([np.ones(n_t), X_treated])
             X_control_with_intercept = np.column_stack([np.ones(n_c), X_control])
+            # Dropped (collinear) covariates have NaN coefficients
+            beta = np.nan_to_num(beta)
             m_treated = X_treated_with_intercept @ beta
             m_control = X_control_with_intercept @ beta
 
-- 
2.43.0


From 93451ae2140804c0e954ef9e9e0f347f497c80db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:17 +0000
Subject: [PATCH 50/52] fix: Sun-Abraham keeps interactions beyond 20 relative
 periods

Event times past +/-20 got no interaction, so those treated observations
served as untreated reference and biased every reported effect.
---
 diff_diff/sun_abraham.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 8d9db2f..82842b1 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -538,18 +538,16 @@ class SunAbraham:
 
         all_rel_times_sorted = sorted(all_rel_times)
 
-        # Filter to reasonable range
-        min_rel = max(min(all_rel_times_sorted), -20)  # cap at -20
-        max_rel = min(max(all_rel_times_sorted), 20)   # cap at +20
-
         # Reference period: last pre-treatment period (typically -1)
         self._reference_period = -1 - self.anticipation
 
-        # Get relative periods to estimate (excluding reference)
+        # Get relative periods to estimate (excluding reference). Every one of
+        # them needs its interaction: an omitted treated period would count as
+        # untreated and bias all other effects.
         rel_periods_to_estimate = [
             e
             for e in all_rel_times_sorted
-            if min_rel <= e <= max_rel and e != self._reference_period
+            if e != self._reference_period
         ]
 
         # Determine cluster variable
-- 
2.43.0


From c08f0defca73cfd83ade7d635ded46ae06494901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:40 +0000
Subject: [PATCH 51/52] fix: inverse-probability standard errors of
 Callaway-Sant'Anna cells

The variance of the weighted comparison mean used the weights instead of
their squares (so it did not shrink with the sample), and without
covariates the comparison part was divided by the treated count. Both now
agree with the influence function and the bootstrap.
---
 diff_diff/staggered.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index b07b58e..f224985 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -924,7 +924,6 @@ class CallawaySantAnna(
         """
         n_t = len(treated_change)
         n_c = len(control_change)
-        n_total = n_treated + n_control
 
         if X_treated is not None and X_control is not None and X_treated.shape[1] > 0:
             # Covariate-adjusted IPW estimation
@@ -966,7 +965,7 @@ class CallawaySantAnna(
             var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
 
             # Variance of weighted control mean
-            weighted_var_c = np.sum(weights_control * (control_change - np.sum(weights_control * control_change)) ** 2)
+            weighted_var_c = np.sum((weights_control * (control_change - np.sum(weights_control * control_change))) ** 2)
 
             se = np.sqrt(var_t / n_t + weighted_var_c) if (n_t > 0 and n_c > 0) else 0.0
 
@@ -976,15 +975,12 @@ class CallawaySantAnna(
             inf_func = np.concatenate([inf_treated, inf_control])
         else:
             # Unconditional IPW (reduces to difference in means)
-            p_treat = n_treated / n_total  # unconditional propensity score
-
             att = np.mean(treated_change) - np.mean(control_change)
 
             var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
             var_c = np.var(control_change, ddof=1) if n_c > 1 else 0.0
 
-            # Adjusted variance for IPW
-            se = np.sqrt(var_t / n_t + var_c * (1 - p_treat) / (n_c * p_treat)) if (n_t > 0 and n_c > 0 and p_treat > 0) else 0.0
+            se = np.sqrt(var_t / n_t + var_c / n_c) if (n_t > 0 and n_c > 0) else 0.0
 
             # Influence function (for aggregation)
             inf_treated = (treated_change - np.mean(treated_change)) / n_t
-- 
2.43.0


From 053658838d7e2abd1e0ca5fca281c769f4bce26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:35 +0000
Subject: [PATCH 52/52] fix: two-way within transformation of unbalanced panels

The one-pass formula is the projection off unit and time dummies only if
every unit is observed in every period; TwoWayFixedEffects and SunAbraham
estimates were silently wrong otherwise.
---
 diff_diff/utils.py | 47 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 3299aa4..4f36d3e 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1431,6 +1431,30 @@ def demean_by_group(
     return data, n_effects
 
 
+def _alternating_demean(
+    data: pd.DataFrame, var: str, unit: str, time: str, max_iter: int = 10_000
+) -> np.ndarray:
+    """Remove unit and time effects of an unbalanced panel by alternating projections."""
+    result = np.full(len(data), np.nan)
+    used = data[[var, unit, time]].notna().all(axis=1).values
+    values = data[var].values[used].astype(float)
+    groups = []
+    for key in (unit, time):
+        codes = pd.factorize(data[key].values[used])[0]
+        groups.append((codes, np.bincount(codes)))
+    tol = 1e-12 * np.max(np.abs(values), initial=0.0)
+    for _ in range(max_iter):
+        change = 0.0
+        for codes, counts in groups:
+            means = np.bincount(codes, weights=values) / counts
+            values = values - means[codes]
+            change = np.max(np.abs(means), initial=0.0)
+        if change <= tol:
+            break
+    result[used] = values
+    return result
+
+
 def within_transform(
     data: pd.DataFrame,
     variables: List[str],
@@ -1442,7 +1466,9 @@ def within_transform(
     """
     Apply two-way within transformation to remove unit and time fixed effects.
 
-    Computes: y_it - y_i. - y_.t + y_.. for each variable.
+    Computes: y_it - y_i. - y_.t + y_.. for each variable; on unbalanced
+    panels, where that formula leaves part of the effects in, by alternating
+    projections.
 
     This is the standard fixed effects transformation for panel data that
     removes both unit-specific and time-specific effects.
@@ -1487,7 +1513,24 @@ def within_transform(
     unit_grouper = data.groupby(unit, sort=False)
     time_grouper = data.groupby(time, sort=False)
 
-    if inplace:
+    # One pass is exact only if every unit is observed in every period
+    balanced = (
+        data[unit].nunique() * data[time].nunique() == len(data)
+        and not data.duplicated([unit, time]).any()
+    )
+
+    if not balanced:
+        if inplace:
+            for var in variables:
+                data[var] = _alternating_demean(data, var, unit, time)
+        else:
+            demeaned_data = {
+                f"{var}{suffix}": _alternating_demean(data, var, unit, time)
+                for var in variables
+            }
+            demeaned_df = pd.DataFrame(demeaned_data, index=data.index)
+            data = pd.concat([data, demeaned_df], axis=1)
+    elif inplace:
         # Modify columns in place
         for var in variables:
             unit_means = unit_grouper[var].transform("mean")
-- 
2.43.0

