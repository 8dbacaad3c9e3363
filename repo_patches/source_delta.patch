From f644e181df373863223c6e3024947797b1827d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:14 +0000
Subject: [PATCH 001/102] fix: count the MODE object classes that each ratio is
 named after

Several object ratios filtered on the wrong flags.  The fraction of
forecast simple objects that are unmatched counted the matched ones, the
forecast and observed shares of matched objects counted unmatched ones,
one area ratio divided observations by themselves, the object CSI and
POD used the wrong object class and the area FAR doubled the matched area
where it should be halved.
---
 metcalcpy/util/mode_arearat_statistics.py |  8 ++++----
 metcalcpy/util/mode_ratio_statistics.py   | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index 2ca56f8..347bbd5 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -266,8 +266,8 @@ def calculate_arearat_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
-    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    denominator_filter = {'simple_flag': 1, 'matched_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -613,7 +613,7 @@ def calculate_arearat_osa_fsa(input_data, columns_names):
     """
     warnings.filterwarnings('error')
     nominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
-    denominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
+    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -983,7 +983,7 @@ def calculate_objafar(input_data, columns_names):
         denominator_2_data = \
             column_data_by_name_value(input_data, columns_names, denominator_filter_2)
         denominator_2 = sum_column_data_by_name(denominator_2_data, columns_names, 'area')
-        result = round_half_up(nominator / (denominator_1 + 2 * denominator_2), PRECISION)
+        result = round_half_up(nominator / (denominator_1 + denominator_2 / 2), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index 39b7571..37373ea 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -136,7 +136,7 @@ def calculate_ratio_fsm_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -162,7 +162,7 @@ def calculate_ratio_fsu_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -240,7 +240,7 @@ def calculate_ratio_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -266,7 +266,7 @@ def calculate_ratio_osm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -838,7 +838,7 @@ def calculate_objcsi(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_2 = {'simple_flag': 1, 'matched_flag': 0}
 
@@ -871,7 +871,7 @@ def calculate_objpody(input_data, columns_names):
     warnings.filterwarnings('error')
     nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
-    denominator_filter_2 = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    denominator_filter_2 = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
 
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 18bd6794d668352bafa5a6c829bcdb9155573244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:38 +0000
Subject: [PATCH 002/102] fix: report a missing value when a count or flag
 column is absent

Sums of absent columns are None and were passed to the rounding helper,
which raised TypeError.  Filtering on an absent flag column raised
AttributeError.  Both now give the missing value that the callers
document.
---
 metcalcpy/util/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index c8b9961..f8143be 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -253,8 +253,11 @@ def round_half_up(num, decimals=0):
             decimals: decimal place
         Returns:
             rounded number
+            or None if the number is missing
 
     """
+    if num is None:
+        return None
     multiplier = 10 ** decimals
     return math.floor(num * multiplier + 0.5) / multiplier
 
@@ -369,10 +372,14 @@ def nrow_column_data_by_name_value(input_data, columns, filters):
 
         Returns:
             calculated number of rows
+            or None if one of the columns is missing
     """
 
     input_data_filtered = column_data_by_name_value(input_data, columns, filters)
-    return input_data_filtered.shape[0]
+    try:
+        return input_data_filtered.shape[0]
+    except (AttributeError, IndexError):
+        return None
 
 
 def perfect_score_adjustment(mean_stats_1, mean_stats_2, statistic, pval):
-- 
2.43.0


From 84ca09731b52e58abc49c2dec04dd822baa438ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:01 +0000
Subject: [PATCH 003/102] fix: give missing contingency totals and base rate
 when a column is absent

The marginal totals added None values and raised TypeError.  The base
rate indexed an absent column and raised IndexError, and it did not skip
missing counts as the other scores do.
---
 metcalcpy/util/ctc_statistics.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 007cec4..e678327 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -41,9 +41,9 @@ def calculate_baser(input_data, columns_names):
     warnings.filterwarnings('error')
 
     try:
-        result = (sum(input_data[:, np.where(columns_names == 'fy_oy')[0][0]])
-                  + sum(input_data[:, np.where(columns_names == 'fn_oy')[0][0]])) \
-                 / sum(input_data[:, np.where(columns_names == 'total')[0][0]])
+        result = (sum_column_data_by_name(input_data, columns_names, 'fy_oy')
+                  + sum_column_data_by_name(input_data, columns_names, 'fn_oy')) \
+                 / sum_column_data_by_name(input_data, columns_names, 'total')
         result = round_half_up(result, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -708,6 +708,8 @@ def calculate_ctc_oy(input_data, columns_names):
     """
     fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
     fn_oy = sum_column_data_by_name(input_data, columns_names, 'fn_oy')
+    if fy_oy is None or fn_oy is None:
+        return None
     return round_half_up(fy_oy + fn_oy, PRECISION)
 
 
@@ -727,6 +729,8 @@ def calculate_ctc_on(input_data, columns_names):
     """
     fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
     fn_on = sum_column_data_by_name(input_data, columns_names, 'fn_on')
+    if fy_on is None or fn_on is None:
+        return None
     return round_half_up(fy_on + fn_on, PRECISION)
 
 
@@ -746,6 +750,8 @@ def calculate_ctc_fy(input_data, columns_names):
     """
     fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
     fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
+    if fy_on is None or fy_oy is None:
+        return None
     return round_half_up(fy_on + fy_oy, PRECISION)
 
 
@@ -765,6 +771,8 @@ def calculate_ctc_fn(input_data, columns_names):
     """
     fn_on = sum_column_data_by_name(input_data, columns_names, 'fn_on')
     fn_oy = sum_column_data_by_name(input_data, columns_names, 'fn_oy')
+    if fn_on is None or fn_oy is None:
+        return None
     return round_half_up(fn_on + fn_oy, PRECISION)
 
 
-- 
2.43.0


From 10c63ff3348434542290876d692383a21877486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:37 +0000
Subject: [PATCH 004/102] fix: give missing values for degenerate error scores
 of scalar partial sums

The root mean squared error, scatter index, error standard deviation and
bias-corrected root mean squared error let arithmetic errors escape when
the input was degenerate.  The error standard deviation also ignored the
aggregation flag when it asked for the mean error and squared error.
---
 metcalcpy/util/sl1l2_statistics.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index 9324a0d..03f5947 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -449,7 +449,7 @@ def calculate_rmse(input_data, columns_names, aggregation=False):
     try:
         result = np.sqrt(calculate_mse(input_data, columns_names, aggregation))
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -475,7 +475,7 @@ def calculate_si(input_data, columns_names, aggregation=False):
         obar = calculate_obar(input_data, columns_names, aggregation)
         result = rmse / obar
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -498,11 +498,11 @@ def calculate_estdev(input_data, columns_names, aggregation=False):
     warnings.filterwarnings('error')
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
-        me = calculate_me(input_data, columns_names)
-        mse = calculate_mse(input_data, columns_names)
+        me = calculate_me(input_data, columns_names, aggregation)
+        mse = calculate_mse(input_data, columns_names, aggregation)
         result = calculate_stddev(me * total, mse * total, total)
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -552,7 +552,7 @@ def calculate_bcrmse(input_data, columns_names, aggregation=False):
     try:
         result = np.sqrt(calculate_bcmse(input_data, columns_names, aggregation))
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
-- 
2.43.0


From 4d1e9632726e98e46cca29fb6aa0a3f97d4d0cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:51 +0000
Subject: [PATCH 005/102] fix: report wind directions and direction errors in
 degrees

Directions were left in radians although they are documented, and
normalised, as degrees.  The direction error is a signed angle but
negative angles were wrapped to the top of the circle, and it ignored the
aggregation flag for the observed wind speed.
---
 metcalcpy/util/met_stats.py       | 2 +-
 metcalcpy/util/vcnt_statistics.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/util/met_stats.py b/metcalcpy/util/met_stats.py
index 33770dc..bc28f38 100644
--- a/metcalcpy/util/met_stats.py
+++ b/metcalcpy/util/met_stats.py
@@ -48,7 +48,7 @@ def calc_direction(u_comp, v_comp):
     if abs(u_comp) < tolerance and abs(v_comp) < tolerance:
         return None
 
-    direction = np.arctan2(u_comp, v_comp)
+    direction = np.degrees(np.arctan2(u_comp, v_comp))
     # convert to [0,360]
     direction = direction - 360 * math.floor(direction / 360)
     return direction
diff --git a/metcalcpy/util/vcnt_statistics.py b/metcalcpy/util/vcnt_statistics.py
index c24cc02..957f1af 100644
--- a/metcalcpy/util/vcnt_statistics.py
+++ b/metcalcpy/util/vcnt_statistics.py
@@ -468,7 +468,7 @@ def calculate_vcnt_dir_err(input_data, columns_names, aggregation=False):
         uf = ufbar / f_len
         vf = vfbar / f_len
 
-        o_len = calculate_vcnt_obar_speed(input_data, columns_names)
+        o_len = calculate_vcnt_obar_speed(input_data, columns_names, aggregation)
         uobar = sum_column_data_by_name(input_data, columns_names, 'uobar') / total
         vobar = sum_column_data_by_name(input_data, columns_names, 'vobar') / total
         uo = uobar / o_len
@@ -477,7 +477,7 @@ def calculate_vcnt_dir_err(input_data, columns_names, aggregation=False):
         a = vf * uo - uf * vo
         b = uf * uo + vf * vo
 
-        dir_err = calc_direction(a, b)
+        dir_err = np.degrees(np.arctan2(a, b))
 
         result = round_half_up(dir_err, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
-- 
2.43.0


From 547b968d273b282c034a009a68cec061fe3204fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:24 +0000
Subject: [PATCH 006/102] fix: compute the Brier score, Brier skill score and
 resolution

The sum of the bin counts is a number, so resetting its index raised
AttributeError and none of these three scores could be calculated.
---
 metcalcpy/util/pstd_statistics.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 8d9f96d..2ee7a01 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -42,8 +42,6 @@ def calculate_pstd_brier(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
-
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         uncertainty = calc_uncertainty(o_bar_table)
@@ -76,7 +74,6 @@ def calculate_pstd_bss_smpl(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         uncertainty = calc_uncertainty(o_bar_table)
@@ -161,7 +158,6 @@ def calculate_pstd_resolution(input_data, columns_names):
         df_pct_perm = _calc_common_stats(columns_names, input_data)
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
         t_table = df_pct_perm['n_i'].sum()
-        t_table.reset_index(inplace=True, drop=True)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         result = round_half_up(resolution, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
-- 
2.43.0


From f408083f10e6cdd281bb16cd1b1d65602a74b5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:42 +0000
Subject: [PATCH 007/102] fix: give a missing ROC area when there are no events
 or no non-events

The area divided by zero and the exception escaped.  The function also
left warnings turned into errors for everything that ran after it.
---
 metcalcpy/util/pstd_statistics.py | 46 ++++++++++++++++---------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 2ee7a01..3ae93de 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -260,28 +260,30 @@ def calculate_pstd_roc_auc(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-
-    df_pct_perm = _calc_common_stats(columns_names, input_data)
-    roc = _calc_pct_roc(df_pct_perm)
-    # add 1st and last rows
-    final_roc = pd.DataFrame(
-        {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 1, 'pofd': 1},
-        index=[0])
-    final_roc = pd.concat([final_roc, roc])
-    final_roc = pd.concat([final_roc,
-        pd.DataFrame(
-            {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 0, 'pofd': 0},
-            index=[0]) ])
-
-    final_roc.reset_index(inplace=True, drop=True)
-    roc_auc = 0
-    for index, row in final_roc.iterrows():
-        if index != 0:
-            roc_auc = roc_auc + 0.5 * (final_roc.iloc[index - 1]['pody'] + row.pody) \
-                      * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
-
-    result = round_half_up(roc_auc, PRECISION)
-
+    try:
+        df_pct_perm = _calc_common_stats(columns_names, input_data)
+        roc = _calc_pct_roc(df_pct_perm)
+        # add 1st and last rows
+        final_roc = pd.DataFrame(
+            {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 1, 'pofd': 1},
+            index=[0])
+        final_roc = pd.concat([final_roc, roc])
+        final_roc = pd.concat([final_roc,
+            pd.DataFrame(
+                {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 0, 'pofd': 0},
+                index=[0]) ])
+
+        final_roc.reset_index(inplace=True, drop=True)
+        roc_auc = 0
+        for index, row in final_roc.iterrows():
+            if index != 0:
+                roc_auc = roc_auc + 0.5 * (final_roc.iloc[index - 1]['pody'] + row.pody) \
+                          * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
+
+        result = round_half_up(roc_auc, PRECISION)
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
+        result = None
+    warnings.filterwarnings('ignore')
     return result
 
 
-- 
2.43.0


From 1cea75ecb161564fa8c6aa9061c6f131bb78ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:43 +0000
Subject: [PATCH 008/102] fix: give a missing error standard deviation for a
 single pair

With one pair the variance is divided by zero.  The nested score calls
have switched numpy warnings off by then, so the infinite value reached
the rounding helper, which raised OverflowError.
---
 metcalcpy/util/sl1l2_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index 03f5947..3e2fd02 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -502,7 +502,7 @@ def calculate_estdev(input_data, columns_names, aggregation=False):
         mse = calculate_mse(input_data, columns_names, aggregation)
         result = calculate_stddev(me * total, mse * total, total)
         result = round_half_up(result, PRECISION)
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ArithmeticError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
-- 
2.43.0


From a9fb27c93180f4786a2586c8e41267792ebdaa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:32 +0000
Subject: [PATCH 009/102] fix: find the volume column of 3d objects

The renamed column names were returned as a list.  Comparing a list with
a column name never matches, so every volume ratio was missing.
---
 metcalcpy/util/mode_3d_volrat_statistics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_3d_volrat_statistics.py b/metcalcpy/util/mode_3d_volrat_statistics.py
index 1f66035..ff8dbdb 100644
--- a/metcalcpy/util/mode_3d_volrat_statistics.py
+++ b/metcalcpy/util/mode_3d_volrat_statistics.py
@@ -11,6 +11,8 @@
 """
 Program Name: mode_3d_volrat_statistics.py
 """
+import numpy as np
+
 from metcalcpy.util.mode_arearat_statistics import *
 from metcalcpy.util.utils import column_data_by_name_value, THREE_D_DATA_FILTER
 
@@ -639,4 +641,4 @@ def rename_column(columns_names):
             columns_names_new.insert(index, 'area')
         else:
             columns_names_new.insert(index, name)
-    return columns_names_new
+    return np.array(columns_names_new)
-- 
2.43.0


From 93f43f7f8920326891585d8de816e3332974443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:51 +0000
Subject: [PATCH 010/102] fix: keep full column names in the SSVAR anomaly
 correlation

With a column array of short fixed-width strings the renamed columns were
truncated, so the score was always missing.
---
 metcalcpy/util/ssvar_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/ssvar_statistics.py b/metcalcpy/util/ssvar_statistics.py
index 56cc068..08878b2 100644
--- a/metcalcpy/util/ssvar_statistics.py
+++ b/metcalcpy/util/ssvar_statistics.py
@@ -227,7 +227,7 @@ def calculate_ssvar_anom_corr(input_data, columns_names, aggregation=False):
             or None if some of the data values are missing or invalid
     """
     # change the names to comply with sal1l2 names
-    sal1l2_columns_names = np.copy(columns_names)
+    sal1l2_columns_names = np.array(columns_names, dtype=object)
     sal1l2_columns_names[sal1l2_columns_names  == 'ffbar'] = 'ffabar'
     sal1l2_columns_names[sal1l2_columns_names  == 'fbar'] = 'fabar'
     sal1l2_columns_names[sal1l2_columns_names  == 'oobar'] = 'ooabar'
-- 
2.43.0


From 83e9a41e9ac462dee4d9c63d42b8238d7254c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:51 +0000
Subject: [PATCH 011/102] fix: give a missing multi-category Heidke score when
 a column is absent

---
 metcalcpy/util/mcts_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mcts_statistics.py b/metcalcpy/util/mcts_statistics.py
index 1919b1c..6dce159 100644
--- a/metcalcpy/util/mcts_statistics.py
+++ b/metcalcpy/util/mcts_statistics.py
@@ -60,7 +60,7 @@ def calculate_mcts_hss_ec(input_data, columns_names):
         sum_all = sum(sum(cont_table, []))
         result = (diag_count - (ec_value * sum_all)) / (sum_all - (ec_value * sum_all))
         result = round_half_up(result, PRECISION)
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
-- 
2.43.0


From a13c7a60b74dcf308ba5ab73bd90d2f118203576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:51 +0000
Subject: [PATCH 012/102] fix: order ROC points by threshold value and leave
 the input table unchanged

Thresholds were sorted as text, so >=10 came before >=2, and the caller's
data frame gained two helper columns.
---
 metcalcpy/util/ctc_statistics.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index e678327..f1ee786 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -207,13 +207,8 @@ def calculate_ctc_roc(data, ascending):
     """
     # create a data frame to hold the aggregated contingency table and ROC data
     sorted_data = sort_by_thresh(data, ascending=ascending)
-    list_thresh = np.sort(np.unique(sorted_data['fcst_thresh'].to_numpy()))
-
-    # If descending order was requested for sorting the input dataframe,
-    # reverse the order of the list_thresh to
-    # maintain results in descending order.
-    if not ascending:
-        list_thresh = list_thresh[::-1]
+    # unique thresholds in the requested order of the threshold values
+    list_thresh = sorted_data['fcst_thresh'].unique()
 
     df_roc = pd.DataFrame(
         {'thresh': list_thresh, 'pody': None, 'pofd': None})
@@ -1054,6 +1049,7 @@ def sort_by_thresh(input_dataframe: pd.DataFrame, sort_column_name: str = 'fcst_
 
     # Columns to use in pandas dataframe sorting
     sort_by_cols = ['thresh_values', 'op_wts']
+    input_dataframe = input_dataframe.copy()
     input_dataframe['op_wts'] = operator_wts
 
     # assign new column based on the format of the threshold values
-- 
2.43.0


From fb9a1afd959f01a44d8d4be5cf201cc73aeb2deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:36 +0000
Subject: [PATCH 013/102] fix: give missing probability scores when bin counts
 are missing or all zero

A bin whose counts are missing was left out of some sums only, which gave
base rates above one; a table without pairs had a ROC area of 0.5 and an
empty table raised IndexError.
---
 metcalcpy/util/pstd_statistics.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 3ae93de..310cb78 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -48,7 +48,7 @@ def calculate_pstd_brier(input_data, columns_names):
 
         brier = reliability - resolution + uncertainty
         result = round_half_up(brier, PRECISION)
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -81,7 +81,7 @@ def calculate_pstd_bss_smpl(input_data, columns_names):
         bss_smpl = (resolution - reliability) / uncertainty
         result = round_half_up(bss_smpl, PRECISION)
 
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -107,7 +107,7 @@ def calculate_pstd_baser(input_data, columns_names):
         baser = df_pct_perm['oy_i'].sum() / t_table
         result = round_half_up(baser, PRECISION)
 
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -134,7 +134,7 @@ def calculate_pstd_reliability(input_data, columns_names):
         reliability = calc_reliability(t_table, df_pct_perm)
         result = round_half_up(reliability, PRECISION)
 
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -160,7 +160,7 @@ def calculate_pstd_resolution(input_data, columns_names):
         t_table = df_pct_perm['n_i'].sum()
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         result = round_half_up(resolution, PRECISION)
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -188,7 +188,7 @@ def calculate_pstd_uncertainty(input_data, columns_names):
         uncertainty = calc_uncertainty(o_bar_table)
         result = round_half_up(uncertainty, PRECISION)
 
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -214,7 +214,7 @@ def calculate_pstd_calibration(input_data, columns_names):
         calibration = oy_i / n_i
         result = round_half_up(calibration, PRECISION)
 
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -240,7 +240,7 @@ def calculate_pstd_ni(input_data, columns_names):
         n_i = oy_i + on_i
         result = round_half_up(n_i, PRECISION)
 
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -281,7 +281,7 @@ def calculate_pstd_roc_auc(input_data, columns_names):
                           * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
 
         result = round_half_up(roc_auc, PRECISION)
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -353,6 +353,9 @@ def _calc_common_stats(columns_names, input_data):
         elif 'thresh_i' in column:
             pct_perm['thresh_i'].append(input_data[0, index])
     # calculate vectors and constants to use below
+    # the counts of a bin can't be left out
+    if None in pct_perm['oy_i'] or None in pct_perm['on_i']:
+        raise ValueError('missing bin counts')
     df_pct_perm = pd.DataFrame(pct_perm)
     df_pct_perm.reset_index(inplace=True, drop=True)
 
@@ -361,6 +364,8 @@ def _calc_common_stats(columns_names, input_data):
 
     # use only records with n_i != 0
     df_pct_perm = df_pct_perm[df_pct_perm['n_i'] != 0]
+    if df_pct_perm.empty:
+        raise ValueError('no pairs in any bin')
     o_bar_i = [row.oy_i / row.n_i for index, row in df_pct_perm.iterrows()]
     calibration_i = [row.oy_i / row.n_i for index, row in df_pct_perm.iterrows()]
     df_pct_perm['o_bar_i'] = o_bar_i
-- 
2.43.0


From 0ffebd972da653872473ff7dea9a6162dbdf3899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:14 +0000
Subject: [PATCH 014/102] fix: compute bin totals and calibration from the
 named columns only

An absent column selected the whole table and tiny totals raised
OverflowError.
---
 metcalcpy/util/pstd_statistics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 310cb78..aa88d40 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -209,12 +209,12 @@ def calculate_pstd_calibration(input_data, columns_names):
     """
     warnings.filterwarnings('error')
     try:
-        oy_i = sum(input_data[:, get_column_index_by_name(columns_names, 'oy_i')])
+        oy_i = sum_column_data_by_name(input_data, columns_names, 'oy_i')
         n_i = calculate_pstd_ni(input_data, columns_names)
         calibration = oy_i / n_i
         result = round_half_up(calibration, PRECISION)
 
-    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
+    except (TypeError, ArithmeticError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -235,8 +235,8 @@ def calculate_pstd_ni(input_data, columns_names):
     """
     warnings.filterwarnings('error')
     try:
-        oy_i = sum(input_data[:, get_column_index_by_name(columns_names, 'oy_i')])
-        on_i = sum(input_data[:, get_column_index_by_name(columns_names, 'on_i')])
+        oy_i = sum_column_data_by_name(input_data, columns_names, 'oy_i')
+        on_i = sum_column_data_by_name(input_data, columns_names, 'on_i')
         n_i = oy_i + on_i
         result = round_half_up(n_i, PRECISION)
 
-- 
2.43.0


From 6733c79f104b7619624daad5efb6b8274315285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:33 +0000
Subject: [PATCH 015/102] fix: use the builtin float when summing probability
 rows for the economic value

---
 metcalcpy/util/eclv_statistics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/util/eclv_statistics.py b/metcalcpy/util/eclv_statistics.py
index bd113e7..e74eccf 100644
--- a/metcalcpy/util/eclv_statistics.py
+++ b/metcalcpy/util/eclv_statistics.py
@@ -68,10 +68,10 @@ def calculate_eclv(input_data: np.array, columns_names: np.array,
             thresh_i_more = input_data[:, index_thresh_i] > thresh
             thresh_i_less = input_data[:, index_thresh_i] <= thresh
 
-            n11 = np.nansum(input_data[:, index_oy_i][thresh_i_more].astype(np.float))
-            n10 = np.nansum(input_data[:, index_on_i][thresh_i_more].astype(np.float))
-            n01 = np.nansum(input_data[:, index_oy_i][thresh_i_less].astype(np.float))
-            n00 = np.nansum(input_data[:, index_on_i][thresh_i_less].astype(np.float))
+            n11 = np.nansum(input_data[:, index_oy_i][thresh_i_more].astype(float))
+            n10 = np.nansum(input_data[:, index_on_i][thresh_i_more].astype(float))
+            n01 = np.nansum(input_data[:, index_oy_i][thresh_i_less].astype(float))
+            n00 = np.nansum(input_data[:, index_on_i][thresh_i_less].astype(float))
         else:
             n11 = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
             n10 = sum_column_data_by_name(input_data, columns_names, 'fy_on')
-- 
2.43.0


From 5c2c09a5c041ce19607d6eefa0958e35e755714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:48 +0000
Subject: [PATCH 016/102] fix: honour the request to add the base rate to
 economic value curves

---
 metcalcpy/agg_eclv.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index eed39eb..c3fbe1b 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -79,13 +79,14 @@ class AggEclv:
         self.current_thresh = None
         self.params = in_params
         self.steps = np.arange(self.params['cl_step'], 1, self.params['cl_step'])
+        self.boot_steps = self.steps
         self.column_names = np.array(self.LINE_TYPE_COLUMNS[self.params['line_type']])
 
         if 'add_base_rate' in self.params.keys():
             self.add_base_rate = self.params['add_base_rate']
         else:
             self.add_base_rate = 0
-        if self.add_base_rate != 0 or self.add_base_rate != 1:
+        if self.add_base_rate != 0 and self.add_base_rate != 1:
             self.add_base_rate = 0
 
         try:
@@ -119,13 +120,16 @@ class AggEclv:
             stat_values = [
                 calculate_eclv(values, self.column_names, self.current_thresh, self.params['line_type'], self.steps,
                                self.add_base_rate)]
+            # bootstrap resamples are evaluated at the ratios of the original sample
+            self.boot_steps = self.steps if stat_values[0] is None else stat_values[0]['cl']
 
         elif values is not None and values.ndim == 3:
             # bootstrapped case
             stat_values = []
             for row in values:
                 stat_value = [
-                    calculate_eclv(row, self.column_names, self.current_thresh, self.params['line_type'], self.steps)]
+                    calculate_eclv(row, self.column_names, self.current_thresh, self.params['line_type'],
+                                   self.boot_steps)]
                 stat_values.append(stat_value)
 
         else:
@@ -235,7 +239,7 @@ class AggEclv:
             for field_ind, field in enumerate(series_val.keys()):
                 filter_value = point[field_ind]
                 filter_list = [filter_value]
-                out_frame_local[field] = [filter_value] * (len(self.steps))
+                out_frame_local[field] = [filter_value] * (len(self.steps) + self.add_base_rate)
                 for i, filter_val in enumerate(filter_list):
                     if is_string_integer(filter_val):
                         filter_list[i] = int(filter_val)
-- 
2.43.0


From 4e094f210ed3e65cba0d9fb13cc049e29f1df59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:09 +0000
Subject: [PATCH 017/102] fix: report the equivalence test outcome for zero and
 tied p-values

---
 metcalcpy/util/tost_paired.py | 2 +-
 metcalcpy/util/utils.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/util/tost_paired.py b/metcalcpy/util/tost_paired.py
index 5de53e2..707afb0 100644
--- a/metcalcpy/util/tost_paired.py
+++ b/metcalcpy/util/tost_paired.py
@@ -146,7 +146,7 @@ def tost_paired(n, m1, m2, sd1, sd2, r12, low_eqbound_dz, high_eqbound_dz, alpha
     if pttest <= alpha and ptost <= alpha:
         combined_outcome = 'diff_eqv'
 
-    if pttest < alpha and ptost > alpha:
+    if pttest <= alpha and ptost > alpha:
         combined_outcome = 'diff_no_eqv'
 
     if pttest > alpha and ptost <= alpha:
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index f8143be..8dde77e 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1230,11 +1230,11 @@ def tost_paired(n: int, m1: float, m2: float, sd1: float, sd2: float, r12: float
     xlim_l = min(ll90, low_eqbound) - max(ul90 - ll90, high_eqbound - low_eqbound) / 10
     xlim_u = max(ul90, high_eqbound) + max(ul90 - ll90, high_eqbound - low_eqbound) / 10
 
-    if pttest and ptost:
+    if pttest is not None and ptost is not None:
         if pttest <= alpha and ptost <= alpha:
             combined_outcome = 'diff_eqv'
 
-        if pttest < alpha and ptost > alpha:
+        if pttest <= alpha and ptost > alpha:
             combined_outcome = 'diff_no_eqv'
 
         if pttest > alpha and ptost <= alpha:
-- 
2.43.0


From 9f86f63a4f02ce4ede8e4825e09d3445ad35b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:55 +0000
Subject: [PATCH 018/102] fix: give a significance level to scorecard
 differences at the lower limit

---
 metcalcpy/scorecard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index f128f55..b9b9de7 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -413,7 +413,7 @@ class Scorecard:
                 derived_stat = -0.99
             elif ds999 <= -1 and ds999 > -100.0:
                 derived_stat = -1
-            elif ds999 < -100.0:
+            elif ds999 <= -100.0:
                 derived_stat = -1
         return derived_stat
 
-- 
2.43.0


From a8a99e9fb945cb5d4e30150aee216477e1b3531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:31 +0000
Subject: [PATCH 019/102] fix: do not truncate the means of integer valued
 scorecard series

---
 metcalcpy/scorecard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index b9b9de7..8da8cc4 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -355,8 +355,8 @@ class Scorecard:
 
         """
         derived_stat = None
-        values_1 = np.array(ds_1_values)
-        values_2 = np.array(ds_2_values)
+        values_1 = np.array(ds_1_values, dtype=float)
+        values_2 = np.array(ds_2_values, dtype=float)
         val2_minus_val1 = np.subtract(values_2, values_1)
         acdm = sum(val2_minus_val1) / self.params['ndays']
         acdm_list = [acdm] * len(values_1)
-- 
2.43.0


From d82f6ae71dca401c1a5ad02a14d0c7ebf92f4c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:34 +0000
Subject: [PATCH 020/102] fix: correct the lag-1 autocorrelation coefficient
 formula

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 8dde77e..96a4ce6 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1389,4 +1389,4 @@ def autocor_coef(data: list) -> Union[None, float]:
     sxy = sum(xy)
 
     n = len(data_valid)
-    return sx * sy / (sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
+    return sx * sy / (sx * sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
-- 
2.43.0


From b391d470e155f38254d9ce518fb5c3dac28cfd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:01 +0000
Subject: [PATCH 021/102] fix: leave missing values out of the standard errors
 of mean, sum and median

---
 metcalcpy/util/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 96a4ce6..4794089 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -869,10 +869,11 @@ def compute_std_err_from_mean(data):
     Returns: Standard Error, variance inflation factor flag, AR1 coefficient, the length of data
     """
     ratio_flag = 0
-    variance = st.variance(data)
+    # remove None and nan
+    data = [float(x) for x in data if x is not None and not np.isnan(x)]
+    variance = st.variance(data) if len(data) > 1 else 0.0
 
-    number_of_none = sum(x is None for x in data)
-    if variance > 0.0 and (len(data) - number_of_none) > 2:
+    if variance > 0.0 and len(data) > 2:
         # Compute the first order auto-correlation coefficient.
         ar_1 = autocor_coef(data)
 
@@ -940,10 +941,10 @@ def compute_std_err_from_median_variance_inflation_factor(data):
         if val is not None and not np.isnan(val):
             data_without_non.append(val)
     ratio_flag = 0
-    iqr = stats.iqr(data_without_non, interpolation='linear')
-    number_of_none = sum(x is None or np.isnan(x) for x in data)
+    data = data_without_non
+    iqr = stats.iqr(data, interpolation='linear')
 
-    if iqr > 0.0 and (len(data) - number_of_none) > 2:
+    if iqr > 0.0 and len(data) > 2:
         # Compute the first order auto-correlation coefficient
         # using a vector that is the same size as "data", but represents
         # represents excusions from the median of the data.
@@ -966,7 +967,6 @@ def compute_std_err_from_median_variance_inflation_factor(data):
             variance_inflation_factor = 1.0
 
         # Compute the Standard Error using the variance inflation factor.
-        iqr = stats.iqr(data, interpolation='linear')
         std_err = variance_inflation_factor * (iqr * math.sqrt(math.pi / 2.)) / (1.349 * math.sqrt(len(data)))
 
     else:
@@ -987,7 +987,7 @@ def compute_std_err_from_sum(data):
     std_err = compute_std_err_from_mean(data)
 
     # multiply Standard Error by data size
-    return std_err[0] * len(data), std_err[1], std_err[2], std_err[3]
+    return std_err[0] * std_err[3], std_err[1], std_err[2], std_err[3]
 
 
 def convert_lon_360_to_180(longitude):
@@ -1366,7 +1366,7 @@ def autocor_coef(data: list) -> Union[None, float]:
     """
 
     # remove None and nan
-    data_valid = [i for i in data if i is not None and not np.isnan(i)]
+    data_valid = [float(i) for i in data if i is not None and not np.isnan(i)]
     # if the list is too short - return None
     if len(data_valid) < 2:
         return None
-- 
2.43.0


From 9a3e2f8603be14ad1c2ee06ced947225f5e781db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:06 +0000
Subject: [PATCH 022/102] fix: report standard errors of linear series and of
 series constant up to the last value

---
 metcalcpy/util/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 4794089..46d1a8e 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -876,10 +876,12 @@ def compute_std_err_from_mean(data):
     if variance > 0.0 and len(data) > 2:
         # Compute the first order auto-correlation coefficient.
         ar_1 = autocor_coef(data)
+        if ar_1 is None:
+            ar_1 = 0.0
 
         # Compute a variance inflation factor
         # (having removed that portion of the time series that was correlated).
-        ratio = (1 + ar_1) / (1 - ar_1)
+        ratio = (1 + ar_1) / (1 - ar_1) if ar_1 != 1 else 1.0
 
         # Check for a zero RATIO, that will then be operated on by SQRT.
         # If necessary, try a different arima method, or just set RATIO to one.
@@ -950,10 +952,12 @@ def compute_std_err_from_median_variance_inflation_factor(data):
         # represents excusions from the median of the data.
 
         ar_1 = autocor_coef(data)
+        if ar_1 is None:
+            ar_1 = 0.0
 
         # Compute an variance inflation factor
         # (having removed that portion of the time series that was correlated).
-        ratio = (1 + ar_1) / (1 - ar_1)
+        ratio = (1 + ar_1) / (1 - ar_1) if ar_1 != 1 else 1.0
 
         # Check for a zero RATIO, that will then be operated on by SQRT.
         if ratio < 0.0:
@@ -1373,6 +1377,9 @@ def autocor_coef(data: list) -> Union[None, float]:
 
     x_i = data_valid[0: len(data_valid) - 1]
     y_i = data_valid[1: len(data_valid)]
+    # the regression on a constant is undefined
+    if all(i == x_i[0] for i in x_i):
+        return None
     data_mean = st.mean(data_valid)
 
     x = [x - data_mean for x in x_i]
-- 
2.43.0


From 3e5698af8353838a24e35fef3cf46d014e746850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:24 +0000
Subject: [PATCH 023/102] fix: use the exact mean of whole-number series in
 autocorrelation

---
 metcalcpy/util/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/correlation.py b/metcalcpy/util/correlation.py
index 5f002b7..396de6d 100644
--- a/metcalcpy/util/correlation.py
+++ b/metcalcpy/util/correlation.py
@@ -311,7 +311,7 @@ def acf(x: Union[list, np.array], acf_type: str = 'correlation', lag_max: Union[
     size = np.size(x)
 
     # calculate mean of the array excluding None
-    mean_val = mean(remove_none(x))
+    mean_val = mean([float(elem) for elem in remove_none(x)])
 
     # calculate lag if not provided
     if lag_max is None:
-- 
2.43.0


From ce5171c9aec16f1f36a6e8611e337a70f696fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:10 +0000
Subject: [PATCH 024/102] fix: weight the fractional error by pair counts when
 rows are aggregated

---
 metcalcpy/agg_stat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 1bcfd7f..2ce48c8 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -136,6 +136,7 @@ class AggStat:
         'anom_corr_raw': ['ffabar', 'ooabar', 'foabar'],
         'rmsfa': ['ffabar'],
         'rmsoa': ['ooabar'],
+        'fe': ['fbar', 'obar'],
         'me': ['fbar', 'obar'],
         'me2': ['fbar', 'obar'],
         'mse': ['ffbar', 'oobar', 'fobar'],
-- 
2.43.0


From 7a80eb7151096d15e923c2b7e428429f661b3cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:10 +0000
Subject: [PATCH 025/102] fix: weight mean wind components by pair counts for
 the aggregated mean speeds

---
 metcalcpy/agg_stat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 2ce48c8..e897c11 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -180,6 +180,8 @@ class AggStat:
         'vl1l2_bias': ['uvffbar', 'uvoobar'],
         'vl1l2_fvar': ['uvffbar', 'f_speed_bar'],
         'vl1l2_ovar': ['uvoobar', 'o_speed_bar'],
+        'vl1l2_fspd': ['ufbar', 'vfbar'],
+        'vl1l2_ospd': ['uobar', 'vobar'],
         'vl1l2_speed_err': ['ufbar', 'vfbar', 'uobar', 'vobar'],
         'vl1l2_rmsve': ['uvffbar', 'uvfobar', 'uvoobar'],
         'vl1l2_msve': ['uvffbar', 'uvfobar', 'uvoobar'],
-- 
2.43.0


From 6022c592420b39f66e26f6ede7ed777804f58990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:10 +0000
Subject: [PATCH 026/102] fix: weight the observation rate of neighbourhood
 rows by pair counts

---
 metcalcpy/agg_stat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index e897c11..a4a689b 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -555,6 +555,7 @@ class AggStat:
         data_for_prepare['fbs'] = fbs
         data_for_prepare['fss'] = fss_den
         data_for_prepare['f_rate'] = f_rate
+        data_for_prepare['o_rate'] = total * data_for_prepare['o_rate'].values
 
     def _prepare_pct_data(self, data_for_prepare):
         """Prepares pct data.
-- 
2.43.0


From de38bacde3a8e630cd712945688888ecb8b6947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:10 +0000
Subject: [PATCH 027/102] fix: aggregate the spread plus observation error from
 its own column

---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index a4a689b..3dd5027 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -491,7 +491,7 @@ class AggStat:
 
         variance = data_for_prepare['spread'].values * data_for_prepare['spread'].values
         variance_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
-        variance_plus_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
+        variance_plus_oerr = data_for_prepare['spread_plus_oerr'].values * data_for_prepare['spread_plus_oerr'].values
 
         data_for_prepare['mse'] = mse * data_for_prepare['total'].values
         data_for_prepare['mse_oerr'] = mse_oerr * data_for_prepare['total'].values
-- 
2.43.0


From 820cbcda937c1d45218473f126214190671e2106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:10 +0000
Subject: [PATCH 028/102] fix: the total of ssvar rows needs no weighted column

---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 3dd5027..62f2f6d 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -535,7 +535,7 @@ class AggStat:
         data_for_prepare.rename(columns={"total": "total_orig", "bin_n": "total"}, inplace=True)
         self.column_names = data_for_prepare.columns.values
 
-        for column in self.STATISTIC_TO_FIELDS[self.statistic]:
+        for column in self.STATISTIC_TO_FIELDS.get(self.statistic, []):
             data_for_prepare[column] \
                 = data_for_prepare[column].values * data_for_prepare['total'].values
 
-- 
2.43.0


From 18654ac2c157882ec90097df446da0f0ffa3c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:35 +0000
Subject: [PATCH 029/102] fix: add up the contingency counts of grouped rows

The counts were looked up by the whole list of column names, which raises
or gives nothing.  The neighbourhood line type is also accepted under the
name the aggregation program uses.
---
 metcalcpy/util/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 46d1a8e..37d69c9 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -590,11 +590,11 @@ def calc_series_sums(input_df, line_type):
     sums_data_frame['total'] = [total]
 
     # proceed for the line type
-    if line_type in ('ctc', 'nbrctc'):
+    if line_type in ('ctc', 'nbrctc', 'nbr_ctc'):
         column_names = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']
         for column in column_names:
             sums_data_frame[column] = [sum_column_data_by_name(input_df.to_numpy(),
-                                                               column_names, column_names)]
+                                                               input_df.columns, column)]
 
     elif line_type == 'sl1l2':
         column_names = ['fbar', 'obar', 'fobar', 'ffbar', 'oobar']
-- 
2.43.0


From 9e3b2371b1ba37c17f1c6e074284196fa8b5bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:35 +0000
Subject: [PATCH 030/102] fix: keep pooled anomaly sums of grouped rows under
 their own names

The pooled values were stored under the names of another line type, so
the grouped row kept the values of its first member.
---
 metcalcpy/util/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 37d69c9..44a5216 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -603,15 +603,15 @@ def calc_series_sums(input_df, line_type):
                                        / total]
 
     elif line_type == 'sal1l2':
-        sums_data_frame['fbar'] = [np.nansum(input_df['fabar'] * input_df.total.astype(float))
+        sums_data_frame['fabar'] = [np.nansum(input_df['fabar'] * input_df.total.astype(float))
                                    / total]
-        sums_data_frame['obar'] = [np.nansum(input_df['oabar'] * input_df.total.astype(float))
+        sums_data_frame['oabar'] = [np.nansum(input_df['oabar'] * input_df.total.astype(float))
                                    / total]
-        sums_data_frame['fobar'] = [np.nansum(input_df['foabar'] * input_df.total.astype(float))
+        sums_data_frame['foabar'] = [np.nansum(input_df['foabar'] * input_df.total.astype(float))
                                     / total]
-        sums_data_frame['ffbar'] = [np.nansum(input_df['ffabar'] * input_df.total.astype(float))
+        sums_data_frame['ffabar'] = [np.nansum(input_df['ffabar'] * input_df.total.astype(float))
                                     / total]
-        sums_data_frame['oobar'] = [np.nansum(input_df['ooabar'] * input_df.total.astype(float))
+        sums_data_frame['ooabar'] = [np.nansum(input_df['ooabar'] * input_df.total.astype(float))
                                     / total]
 
     elif line_type == 'vl1l2':
-- 
2.43.0


From 2e28db16e16f727c4201cb61f11ee782c1a705ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:35 +0000
Subject: [PATCH 031/102] fix: pool neighbourhood continuous rows of grouped
 values

The aggregation program names this line type nbr_cnt.
---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 44a5216..0dc131c 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -633,7 +633,7 @@ def calc_series_sums(input_df, line_type):
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
 
-    elif line_type == 'nbrcnt':
+    elif line_type in ('nbrcnt', 'nbr_cnt'):
         dbl_fbs = np.nansum(input_df['fbs'] * input_df.total.astype(float)) / total
         dbl_fss_den = np.nansum(
             (input_df['fbs'] / (1.0 - input_df['fss'])) * input_df.total.astype(float)) \
-- 
2.43.0


From a4f21a30952fcd8259976f64d13d98d378c463d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:35 +0000
Subject: [PATCH 032/102] fix: pool spreads, root mean squares and skill scores
 of grouped ensemble rows

Spreads were averaged linearly, and root mean squares and skill scores kept
the values of the first row.
---
 metcalcpy/util/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 0dc131c..8b173b7 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -660,10 +660,17 @@ def calc_series_sums(input_df, line_type):
         sums_data_frame['mse'] = [np.nansum(input_df['total'] * mse) / total]
         sums_data_frame['mse_oerr'] = [np.nansum(input_df['total'] * mse_oerr) / total]
         sums_data_frame['crps_climo'] = [np.nansum(input_df['total'] * crps_climo) / total]
-        column_names = ['me', 'crps', 'ign', 'spread', 'me_oerr', 'spread_oerr', 'spread_plus_oerr']
+        column_names = ['me', 'crps', 'ign', 'me_oerr']
         for column in column_names:
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
+        # root mean squares and spreads are pooled through their squares
+        column_names = ['rmse', 'rmse_oerr', 'spread', 'spread_oerr', 'spread_plus_oerr']
+        for column in column_names:
+            sums_data_frame[column] = [np.sqrt(np.nansum(input_df[column] * input_df[column]
+                                                         * input_df.total.astype(float))
+                                               / total)]
+        sums_data_frame['crpss'] = 1 - sums_data_frame['crps'] / sums_data_frame['crps_climo']
     elif line_type == 'rps':
         d_rps_climo = input_df['rps'] / (1 - input_df['rpss'])
         sums_data_frame['rps'] = [np.nansum(input_df["rps"] * input_df.total.astype(float))
@@ -672,6 +679,7 @@ def calc_series_sums(input_df, line_type):
                                        / total]
         sums_data_frame['rps_climo'] = [np.nansum(d_rps_climo * input_df.total.astype(float))
                                         / total]
+        sums_data_frame['rpss'] = 1 - sums_data_frame['rps'] / sums_data_frame['rps_climo']
 
     return sums_data_frame
 
-- 
2.43.0


From 0acba956ee78aeadaf96e5d1355737f4aece7154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:51 +0000
Subject: [PATCH 033/102] fix: skip valid and lead time pairs without rows when
 pooling grouped values

Pooling no rows raised, or added a row without values.
---
 metcalcpy/util/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 8b173b7..b12e5aa 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -499,6 +499,8 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                                 & (input_data_frame.fcst_lead == lead)
                                 & (input_data_frame[series_var].isin(single_values))
                                 ]
+                            if rows_for_agg.empty:
+                                continue
                             rows_indexes = rows_for_agg.index.values
                             # reset indexes
                             rows_for_agg.reset_index(inplace=True, drop=True)
@@ -536,6 +538,8 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                             & (input_data_frame[series_var].isin(single_values_int))
                             ]
 
+                        if rows_for_agg.empty:
+                            continue
                         rows_indexes = rows_for_agg.index.values
 
                         # reset indexes
-- 
2.43.0


From 3cb9299658f924dfcbb55437908d2da8a6dfe87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:51 +0000
Subject: [PATCH 034/102] fix: pool grouped lead times without failing on the
 numeric column

A text was written into the numeric lead time column while every warning
was turned into an error, so pooling by lead time always raised.
---
 metcalcpy/util/utils.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index b12e5aa..f86c3cc 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -477,8 +477,6 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                 Pandas DataFrame with aggregates statistics
             """
 
-    warnings.filterwarnings('error')
-
     # get unique values for valid date/time and lead time
     unique_valid = input_data_frame.fcst_valid_beg.unique()
     unique_lead = input_data_frame.fcst_lead.unique()
@@ -557,17 +555,8 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
 
                         # replace the aggregated field name
 
-                        # some versions of pandas will generate an error when assigning a numerical value with a ';'
-                        # strip off the ';' to make this "version-independent"
-                        if ';' in series_val:
-                            sep_val = series_val.split(';')
-
-                        # different versions of pandas may generate a SettingWithCopy Warning
-                        # For pandas 1.2, 1.3, and 1.5, use the df.at, but for pandas 1.4, use the df.loc.
-                        try:
-                            rows_for_agg.at[0, series_var] = sep_val[0]
-                        except:
-                            rows_for_agg.loc[0, series_var] = sep_val[0]
+                        # the lead time column is numeric, so the first lead stands for the group
+                        rows_for_agg.at[0, series_var] = single_values_int[0]
 
                         # add it to the result
                         input_data_frame = pd.concat([input_data_frame,(rows_for_agg.iloc[:1])])
-- 
2.43.0


From 5d1fd47aa91842548bd1d671da1d407acdc77f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:51 +0000
Subject: [PATCH 035/102] fix: leave the series parameters alone when the
 independent value is grouped

---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 62f2f6d..e4249a2 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1086,7 +1086,7 @@ class AggStat:
                         point_data = aggregate_field_values(series_var_val, point_data, self.params['line_type'])
                     elif indy_val and ';' in indy_val:
                         # if aggregated value in indy val - add it to series values add aggregate
-                        series_indy_var_val = series_var_val
+                        series_indy_var_val = series_var_val.copy()
                         series_indy_var_val[self.params['indy_var']] = [indy_val]
                         point_data = aggregate_field_values(series_indy_var_val, point_data,
                                                             self.params['line_type'])
-- 
2.43.0


From d1ba3de4900e438df4912b477da9cd5d01f5fe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:15 +0000
Subject: [PATCH 036/102] fix: keep every pooled row when several grouped
 values are aggregated

All pooled rows had the same row label, so removing the members of a later
group by label could remove them again.
---
 metcalcpy/util/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index f86c3cc..ab5ca8b 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -517,7 +517,8 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                             rows_for_agg.at[0, series_var] = series_val
 
                             # add it to the result
-                            input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]])
+                            input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]],
+                                                         ignore_index=True)
 
                     else:
                         # if the aggregated field is 'fcst_lead'
@@ -559,7 +560,8 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                         rows_for_agg.at[0, series_var] = single_values_int[0]
 
                         # add it to the result
-                        input_data_frame = pd.concat([input_data_frame,(rows_for_agg.iloc[:1])])
+                        input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]],
+                                                     ignore_index=True)
 
     return input_data_frame
 
-- 
2.43.0


From 8143e27fade491a867f69aa8af08d3979af737ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:15 +0000
Subject: [PATCH 037/102] fix: calculate anomaly statistics in the summary
 program

The anomaly statistics were not available to it, and the columns they read
were renamed beforehand, so none of them could be calculated.
---
 metcalcpy/sum_stat.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 1b7030d..6778d55 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -44,6 +44,7 @@ from inspect import signature
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.util.ctc_statistics import *
 from metcalcpy.util.grad_statistics import *
+from metcalcpy.util.sal1l2_statistics import *
 from metcalcpy.util.sl1l2_statistics import *
 from metcalcpy.util.val1l2_statistics import *
 from metcalcpy.util.vcnt_statistics import *
@@ -107,7 +108,7 @@ class SumStat:
     STATISTIC_TO_FIELDS = {'ctc': {"total", "fy_oy", "fy_on", "fn_oy", "fn_on"},
                            'sl1l2': {"total", "fbar", "obar", "fobar", "ffbar", "oobar"},
                            'grad': {"total", "fgbar", "ogbar", "mgbar", "egbar"},
-                           'sal1l2': {"total", "fbar", "obar", "fobar", "ffbar", "oobar"},
+                           'sal1l2': {"total", "fabar", "oabar", "foabar", "ffabar", "ooabar"},
                            'vl1l2': {"total", "ufbar", "vfbar", "uobar", "vobar", "uvfobar",
                                      "uvffbar", "uvoobar", "f_speed_bar", "o_speed_bar"},
                            'val1l2': {"total", "ufabar", "vfabar", "uoabar", "voabar",
@@ -127,16 +128,6 @@ class SumStat:
         try:
             fields = self.STATISTIC_TO_FIELDS[self.params['line_type']]
 
-            # change names for sal1l2 so we can reuse sl1l2 statistics
-            if self.params['line_type'] == 'sal1l2':
-                self.input_data = self.input_data.rename(columns={'fabar': 'fbar',
-                                                                  'oabar': 'obar',
-                                                                  'foabar': 'fobar',
-                                                                  'ffabar': 'ffbar',
-                                                                  'ooabar': 'oobar'
-                                                                  })
-                self.column_names = self.input_data.columns.values
-
             # perform EE if needed
             is_event_equal = parse_bool(self.params['event_equal'])
             if is_event_equal:
-- 
2.43.0


From f0663f5761878cf3fdb0c4a92a5f795d68eeabd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:56 +0000
Subject: [PATCH 038/102] fix: use the requested alpha for bootstrap confidence
 intervals

Plain series always got 95% intervals whatever alpha was configured; only
derived series honoured it.
---
 metcalcpy/agg_eclv.py           | 1 +
 metcalcpy/agg_stat.py           | 1 +
 metcalcpy/agg_stat_bootstrap.py | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index c3fbe1b..704e6a5 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -181,6 +181,7 @@ class AggEclv:
                         num_iterations=self.params['num_iterations'],
                         num_threads=self.params['num_threads'],
                         ci_method=self.params['method'],
+                        alpha=self.params['alpha'],
                         save_data=False,
                         block_length=block_length,
                         eclv=True
diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index e4249a2..3a6d8dc 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -833,6 +833,7 @@ class AggStat:
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
                     ci_method=self.params['method'],
+                    alpha=self.params['alpha'],
                     save_data=has_derived_series,
                     block_length=block_length)
 
diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 7514461..a138f8f 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -234,7 +234,8 @@ class AggStatBootstrap:
                     stat_func=self._calc_stats,
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
-                    ci_method=self.params['method'])
+                    ci_method=self.params['method'],
+                    alpha=self.params['alpha'])
 
             except KeyError as err:
                 results = BootstrapResults(None, None, None)
-- 
2.43.0


From 206cd90f6a1a32b990e9670eca5f12235135f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:56 +0000
Subject: [PATCH 039/102] fix: no confidence interval when every bootstrap
 replicate is missing

The percentile of no values raised IndexError.
---
 metcalcpy/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index f105165..2845f8f 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -519,7 +519,7 @@ def _all_the_same(elements):
     if elements.size == 0:
         return True
     try:
-        result = len(_np.unique(elements[elements != _np.array([None])])) == 1
+        result = len(_np.unique(elements[elements != _np.array([None])])) <= 1
     except TypeError:
         result = False
     return result
-- 
2.43.0


From 4c21b6e8a11cbff4cad0a8c61ba956283b865c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:42 +0000
Subject: [PATCH 040/102] fix: a date is not a group of values when a derived
 curve is validated

A date as independent value was split at its colons and counted as three
values, so derived curves over dates always raised NameError.
---
 metcalcpy/agg_stat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 3a6d8dc..bd0fd5b 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -677,11 +677,11 @@ class AggStat:
         num_diff_vals_first = 0
         num_diff_vals_second = 0
         for val in permute_for_first_series:
-            size = len(val.split(GROUP_SEPARATOR))
+            size = len(re.findall(DATE_TIME_REGEX, val)) or len(val.split(GROUP_SEPARATOR))
             if size > 1:
                 num_diff_vals_first = num_diff_vals_first + size
         for val in permute_for_second_series:
-            size = len(val.split(GROUP_SEPARATOR))
+            size = len(re.findall(DATE_TIME_REGEX, val)) or len(val.split(GROUP_SEPARATOR))
             if size > 1:
                 num_diff_vals_second = num_diff_vals_second + size
         if num_diff_vals_first == 0:
-- 
2.43.0


From 7f4e4da2d5d44368ec5dfb51cdb3575256a123ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:32 +0000
Subject: [PATCH 041/102] fix: equalize fields with fractional values

A fractional series or fixed value was compared as text, so no row of a
numeric column matched and every case was discarded.
---
 metcalcpy/event_equalize.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/event_equalize.py b/metcalcpy/event_equalize.py
index dfb172b..1d9fd40 100644
--- a/metcalcpy/event_equalize.py
+++ b/metcalcpy/event_equalize.py
@@ -107,6 +107,9 @@ def event_equalize(series_data, indy_var, series_var_vals, fix_vars,
             if is_string_integer(permutation[var_for_ee_ind]):
                 permutation_data = permutation_data[permutation_data[var_for_ee]
                                                     == int(permutation[var_for_ee_ind])]
+            elif is_string_fraction(permutation[var_for_ee_ind]):
+                permutation_data = permutation_data[permutation_data[var_for_ee]
+                                                    == float(permutation[var_for_ee_ind])]
             else:
                 if permutation[var_for_ee_ind] == 'NA':
                     permutation_data = permutation_data[permutation_data[var_for_ee].isnull()]
@@ -172,7 +175,19 @@ def is_string_integer(str_int):
             False - if the input value is not an integer
     """
     try:
-        int(str_int)
-        return True
+        return int(str_int) == str_int or isinstance(str_int, str)
     except (ValueError, TypeError):
         return False
+
+
+def is_string_fraction(value):
+    """Checks if the input is a decimal fraction.
+
+         Args:
+             value: string or number to check
+
+        Returns:
+            True - if the input value is a decimal fraction
+            False - if the input value is not a decimal fraction
+    """
+    return re.fullmatch(r'[+-]?(\d+\.\d*|\.\d+)', str(value)) is not None
-- 
2.43.0


From dc97a414cd645cb71254afe2209b44d7bd4c6dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:32 +0000
Subject: [PATCH 042/102] fix: equalize series with numeric values

The rows of an axis were selected by the text of the series values.  No
row of a numeric column matches a text, so nothing was left.
---
 metcalcpy/util/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index ab5ca8b..766864d 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -714,6 +714,10 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
                         if len(split_val) == 0:
                             split_val = val.split(GROUP_SEPARATOR)
                         series_var_vals_no_group.extend(split_val)
+                    # numeric columns hold numbers
+                    series_var_vals_no_group.extend(
+                        [float(val) for val in series_var_vals_no_group
+                         if is_string_integer(val) or is_string_strictly_float(val)])
 
                     # filter input data based on fcst_var, statistic
                     # and all series variables values
-- 
2.43.0


From 576d0f26cde79a8803600e1ee338110ae15143e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:32 +0000
Subject: [PATCH 043/102] fix: equalize both axes against the series of both

When a series variable was used on both axes only its values on the
second axis were considered, so cases missing from a series of the first
axis were kept.
---
 metcalcpy/util/utils.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 766864d..acd1a82 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -803,17 +803,14 @@ def perform_event_equalization(params, input_data):
         # append and reindex output from both axis
         all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
 
-        # create a single unique dictionary from series for Y1 and Y2 to us in EE
-        all_series = {**params['series_val_1'], **params['series_val_2']}
-        for key in all_series:
-            all_series[key] = list(set(all_series[key]))
-
-        # run EE on run event equalizer on Y1 and Y2
-        output_ee_data = event_equalize(all_ee_records, params['indy_var'],
-                                        all_series,
-                                        fix_vals_keys,
-                                        fix_vals_permuted_list, True,
-                                        params['line_type'] == "ssvar")
+        # run event equalizer on Y1 and Y2: keep the cases common to the series of both
+        output_ee_data = all_ee_records
+        for axis in ('1', '2'):
+            output_ee_data = event_equalize(output_ee_data, params['indy_var'],
+                                            params['series_val_' + axis],
+                                            fix_vals_keys,
+                                            fix_vals_permuted_list, True,
+                                            params['line_type'] == "ssvar")
 
         output_ee_data = output_ee_data.drop('equalize', axis=1)
 
-- 
2.43.0


From 9d67e4cae95937a6f19cf73c64ae25486d326a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:32 +0000
Subject: [PATCH 044/102] fix: keep the values of each fixed variable together
 when equalizing objects

The values of all fixed variables were put into one list that is indexed
by variable, so with several values a variable got those of another one.
---
 metcalcpy/agg_stat_event_equalize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 9a5d49f..197f091 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -77,9 +77,9 @@ class AggStatEventEqualize:
                 fix_vals_permuted_list = []
                 for key in self.params['fixed_vars_vals_input']:
                     vals_permuted = list(itertools.product(*self.params['fixed_vars_vals_input'][key].values()))
-                    fix_vals_permuted_list.append(vals_permuted)
+                    fix_vals_permuted_list.append([item for sublist in vals_permuted for item in sublist])
 
-                fix_vals_permuted = [item for sublist in fix_vals_permuted_list for item in sublist]
+                fix_vals_permuted = fix_vals_permuted_list
 
             else:
                 fix_vals_permuted = []
-- 
2.43.0


From 70c686c6200fd6871936b5e5a10be9fec1657d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:32 +0000
Subject: [PATCH 045/102] fix: equalize objects of both axes against the series
 of both

The values of the second axis were listed twice and those of the first
not at all.
---
 metcalcpy/agg_stat_event_equalize.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 197f091..dbfa538 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -96,16 +96,14 @@ class AggStatEventEqualize:
                 output_ee_data_2 = output_ee_data_2.drop('equalize', axis=1)
                 warnings.simplefilter(action='error', category=FutureWarning)
                 all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
-                all_series_vars = {}
-                for key in self.params['series_val_2']:
-                    all_series_vars[key] = np.unique(self.params['series_val_2'][key]
-                                                     + self.params['series_val_2'][key])
-
-                output_ee_data = event_equalize(all_ee_records, self.params['indy_var'],
-                                                all_series_vars,
-                                                list(self.params['fixed_vars_vals_input'].keys()),
-                                                fix_vals_permuted, True,
-                                                False)
+                # keep the cases common to the series of both axes
+                output_ee_data = all_ee_records
+                for axis in ('1', '2'):
+                    output_ee_data = event_equalize(output_ee_data, self.params['indy_var'],
+                                                    self.params['series_val_' + axis],
+                                                    list(self.params['fixed_vars_vals_input'].keys()),
+                                                    fix_vals_permuted, True,
+                                                    False)
 
         else:
             output_ee_data = pd.DataFrame()
-- 
2.43.0


From 0e3e9fc864a61207c1f12459b15126ee33eebcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:32 +0000
Subject: [PATCH 046/102] fix: equalize objects once for all series variables

The equalized rows were appended once per series variable, so two
variables gave every row twice.
---
 metcalcpy/agg_stat_event_equalize.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index dbfa538..b73ac21 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -120,7 +120,7 @@ class AggStatEventEqualize:
                A data frame that contains equalized records
        """
 
-        output_ee_data = pd.DataFrame()
+        series_data_for_ee = self.input_data
         for series_var, series_var_vals in self.params['series_val_' + axis].items():
             # ungroup series value
             series_var_vals_no_group = []
@@ -129,24 +129,14 @@ class AggStatEventEqualize:
                 series_var_vals_no_group.extend(split_val)
 
             # filter input data based on fcst_var, statistic and all series variables values
-            series_data_for_ee = self.input_data[
-                self.input_data[series_var].isin(series_var_vals_no_group)
+            series_data_for_ee = series_data_for_ee[
+                series_data_for_ee[series_var].isin(series_var_vals_no_group)
             ]
-            # perform EE on filtered data
-            series_data_after_ee = \
-                event_equalize(series_data_for_ee, self.params['indy_var'],
-                               self.params['series_val_' + axis],
-                               list(self.params['fixed_vars_vals_input'].keys()),
-                               fix_vals_permuted, True, False)
-
-            # append EE data to result
-            if output_ee_data.empty:
-                output_ee_data = series_data_after_ee
-            else:
-                warnings.simplefilter(action="error", category=FutureWarning)
-                output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
-
-        return output_ee_data
+        # perform EE on filtered data
+        return event_equalize(series_data_for_ee, self.params['indy_var'],
+                              self.params['series_val_' + axis],
+                              list(self.params['fixed_vars_vals_input'].keys()),
+                              fix_vals_permuted, True, False)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 21bd035a93dcc6f20f7cb36cf9b6300a0900eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:32 +0000
Subject: [PATCH 047/102] fix: equalize against previous cases once for all
 series variables

The equalized rows were appended once per series variable, so two
variables gave every row twice.
---
 metcalcpy/agg_stat_eqz.py | 47 ++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 0102389..39f28a5 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -109,6 +109,10 @@ class AggStatEventEqz:
 
         output_ee_data = pd.DataFrame()
         for fcst_var, fcst_var_stats in self.params['fcst_var_val_' + axis].items():
+            # filter input data and previous cases based on fcst_var
+            # and all series variables values
+            series_data_for_ee = self.input_data[self.input_data['fcst_var'] == fcst_var]
+            series_data_for_prev_cases = prev_cases[prev_cases['fcst_var'] == fcst_var]
             for series_var, series_var_vals in self.params['series_val_' + axis].items():
 
                 series_var_vals_no_group = []
@@ -116,31 +120,24 @@ class AggStatEventEqz:
                     split_val = val.split(GROUP_SEPARATOR)
                     series_var_vals_no_group.extend(split_val)
 
-                # filter input data based on fcst_var, statistic and all series variables values
-                series_data_for_ee = self.input_data[
-                    (self.input_data['fcst_var'] == fcst_var)
-                    & (self.input_data[series_var].isin(series_var_vals_no_group))
-                    ]
-                # filter previous cases on the same  fcst_var,
-                # statistic and all series variables values
-                series_data_for_prev_cases = prev_cases[
-                    (prev_cases['fcst_var'] == fcst_var)
-                    & (prev_cases[series_var].isin(series_var_vals_no_group))
-                    ]
-                # get unique cases from filtered previous cases
-
-                series_data_for_prev_cases_unique = series_data_for_prev_cases['equalize'].unique()
-
-                # perform ee
-                series_data_after_ee = event_equalize_against_values(
-                    series_data_for_ee,
-                    series_data_for_prev_cases_unique)
-
-                # append EE data to result
-                if output_ee_data.empty:
-                    output_ee_data = series_data_after_ee
-                else:
-                    output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
+                series_data_for_ee = series_data_for_ee[
+                    series_data_for_ee[series_var].isin(series_var_vals_no_group)]
+                series_data_for_prev_cases = series_data_for_prev_cases[
+                    series_data_for_prev_cases[series_var].isin(series_var_vals_no_group)]
+
+            # get unique cases from filtered previous cases
+            series_data_for_prev_cases_unique = series_data_for_prev_cases['equalize'].unique()
+
+            # perform ee
+            series_data_after_ee = event_equalize_against_values(
+                series_data_for_ee,
+                series_data_for_prev_cases_unique)
+
+            # append EE data to result
+            if output_ee_data.empty:
+                output_ee_data = series_data_after_ee
+            else:
+                output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
         return output_ee_data
 
 
-- 
2.43.0


From c97fd256d1c8bac8d0d3c92861e0245859b2c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:32 +0000
Subject: [PATCH 048/102] fix: do not add a column to the data that is
 equalized against cases

The caller's frame got an extra column, and a second call with the same
frame raised.
---
 metcalcpy/event_equalize_against_values.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/event_equalize_against_values.py b/metcalcpy/event_equalize_against_values.py
index 6681ffa..39cf4c9 100644
--- a/metcalcpy/event_equalize_against_values.py
+++ b/metcalcpy/event_equalize_against_values.py
@@ -43,16 +43,15 @@ def event_equalize_against_values(series_data, input_unique_cases):
     if 'fcst_valid' in column_names:
         # always use fcst_valid for equalization
         # create a unique member to use for equalization
-        series_data.insert(len(series_data.columns), 'equalize',
-                           series_data['fcst_valid'].astype(str)
-                           + ' '
-                           + series_data['fcst_lead'].astype(str))
+        cases = series_data['fcst_valid'].astype(str) \
+                + ' ' \
+                + series_data['fcst_lead'].astype(str)
     else:
         print("WARNING: eventEqualize() did not run due to lack of valid time field")
         return pd.DataFrame()
 
     # create an equalized set of data for the minimal list of dates based on the input cases
-    data_for_unique_cases = series_data[(series_data['equalize'].isin(input_unique_cases))]
+    data_for_unique_cases = series_data[cases.isin(input_unique_cases)]
     n_row_cases = len(data_for_unique_cases)
     if n_row_cases == 0:
         print(" WARNING: discarding all members")
@@ -62,6 +61,4 @@ def event_equalize_against_values(series_data, input_unique_cases):
     if n_row_cases != n_row_:
         print(warning_remove.format(n_row_ - n_row_cases))
 
-    # remove 'equalize' column
-    data_for_unique_cases = data_for_unique_cases.drop(['equalize'], axis=1)
     return data_for_unique_cases
-- 
2.43.0


From ca7cce610583c173a00e43f965c3ee9e7cd8fbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:51 +0000
Subject: [PATCH 049/102] fix: equalize objects of series with numeric values

The rows were selected by the text of the series values, which no row of
a numeric column matches.
---
 metcalcpy/agg_stat_eqz.py            | 6 +++++-
 metcalcpy/agg_stat_event_equalize.py | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 39f28a5..d9d3c57 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -40,7 +40,7 @@ import warnings
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize_against_values import event_equalize_against_values
-from metcalcpy.util.utils import parse_bool
+from metcalcpy.util.utils import parse_bool, is_string_integer, is_string_strictly_float
 
 
 class AggStatEventEqz:
@@ -119,6 +119,10 @@ class AggStatEventEqz:
                 for val in series_var_vals:
                     split_val = val.split(GROUP_SEPARATOR)
                     series_var_vals_no_group.extend(split_val)
+                # numeric columns hold numbers
+                series_var_vals_no_group.extend(
+                    [float(val) for val in series_var_vals_no_group
+                     if is_string_integer(val) or is_string_strictly_float(val)])
 
                 series_data_for_ee = series_data_for_ee[
                     series_data_for_ee[series_var].isin(series_var_vals_no_group)]
diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index b73ac21..3a6d4c7 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -41,6 +41,7 @@ import warnings
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize import event_equalize
+from metcalcpy.util.utils import is_string_integer, is_string_strictly_float
 
 class AggStatEventEqualize:
     """A class that performs event equalisation logic on input data
@@ -127,6 +128,10 @@ class AggStatEventEqualize:
             for val in series_var_vals:
                 split_val = val.split(GROUP_SEPARATOR)
                 series_var_vals_no_group.extend(split_val)
+            # numeric columns hold numbers
+            series_var_vals_no_group.extend(
+                [float(val) for val in series_var_vals_no_group
+                 if is_string_integer(val) or is_string_strictly_float(val)])
 
             # filter input data based on fcst_var, statistic and all series variables values
             series_data_for_ee = series_data_for_ee[
-- 
2.43.0


From eaec91e0ee0e902dd39c277b2031cac9e03a2f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:51 +0000
Subject: [PATCH 050/102] fix: return the equalized data to the program that
 asked for it

The bootstrap program uses the return value, which was missing, so it
could not run with event equalization.
---
 metcalcpy/agg_stat_eqz.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index d9d3c57..fe3960a 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -99,6 +99,7 @@ class AggStatEventEqz:
         output_ee_data.to_csv(self.params['agg_stat_output'],
                               index=None, header=True, mode='w',
                               sep="\t", na_rep="NA")
+        return output_ee_data
 
     def perform_ee_on_axis(self, prev_cases, axis='1'):
         """Performs event equalisation against previously calculated cases for the selected axis
-- 
2.43.0


From 9a719b6fd4ee390396f1c828e0c4ece9a781b02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:43 +0000
Subject: [PATCH 051/102] fix: equalize only the rows of the configured series

Each series variable replaced the selection made for the one before, so
rows of other series were kept and counted as cases of the second axis.
---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index acd1a82..463e083 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -706,6 +706,7 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
             if len(params['series_val_' + axis]) == 0:
                 series_data_for_ee = input_data
             else:
+                series_data_for_ee = input_data
                 for series_var, series_var_vals in params['series_val_' + axis].items():
                     # ungroup series value if needed
                     series_var_vals_no_group = []
@@ -721,7 +722,6 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
 
                     # filter input data based on fcst_var, statistic
                     # and all series variables values
-                    series_data_for_ee = input_data
                     if series_var in input_data.keys():
                         series_data_for_ee = series_data_for_ee[
                             series_data_for_ee[series_var].isin(series_var_vals_no_group)]
-- 
2.43.0


From de080e93b086b9d1cdbaf2de5b8b533feb2269e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:07 +0000
Subject: [PATCH 052/102] fix: find the output row of a grouped or numeric
 series value

The output rows hold the configured text, but were searched for the
members of the group or for the number, so the program raised.
---
 metcalcpy/agg_stat_bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index a138f8f..a570cda 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -192,7 +192,7 @@ class AggStatBootstrap:
                                     filter_list[i] = float(filter_val)
 
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
-                            out_frame_filter.append((out_frame[field].isin(filter_list)))
+                            out_frame_filter.append(out_frame[field] == filter_value)
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
                         mask_out_frame = np.array(out_frame_filter).all(axis=0)
-- 
2.43.0


From 640964e9ffc9a56e640bdb5154c5c0d812c2482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:07 +0000
Subject: [PATCH 053/102] fix: write each object statistic to its own output
 row

The row was looked up without the statistic, so every statistic
overwrote the row of the first one and the other rows stayed empty.
---
 metcalcpy/agg_stat_bootstrap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index a570cda..112b328 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -193,6 +193,7 @@ class AggStatBootstrap:
 
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
                             out_frame_filter.append(out_frame[field] == filter_value)
+                        out_frame_filter.append(out_frame['stat_name'] == stat_upper)
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
                         mask_out_frame = np.array(out_frame_filter).all(axis=0)
-- 
2.43.0


From 08729717daa86fdcb837a46aa46be7270252f54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:07 +0000
Subject: [PATCH 054/102] fix: calculate object statistics from the rows of the
 forecast variable

Only the list of cases was restricted to the forecast variable, so rows
of another variable with the same case were counted too.
---
 metcalcpy/agg_stat_bootstrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 112b328..f773cae 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -193,6 +193,9 @@ class AggStatBootstrap:
 
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
                             out_frame_filter.append(out_frame[field] == filter_value)
+                        # add fcst var
+                        if fcst_var is not None:
+                            all_filters.append((filtered_by_indy_data['fcst_var'].isin([fcst_var])))
                         out_frame_filter.append(out_frame['stat_name'] == stat_upper)
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
-- 
2.43.0


From 3c194353ed5022cf9ea20d74aa7a130cdf0f0249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:07 +0000
Subject: [PATCH 055/102] fix: resample object cases of one independent value
 at a time

The list of cases was carried over from one independent value to the
next, so later values were resampled from cases they have no rows for.
---
 metcalcpy/agg_stat_bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index f773cae..788e12f 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -118,7 +118,6 @@ class AggStatBootstrap:
             if len(self.params['fcst_var_val_' + axis]) > 0 and 'fcst_var' in self.input_data.columns:
                 fcst_var = list(self.params['fcst_var_val_' + axis].keys())[0]
 
-            cases = []
             out_frame = self._init_out_frame(all_fields_values.keys(), all_points)
             point_to_distrib = {}
 
@@ -139,6 +138,7 @@ class AggStatBootstrap:
 
                 all_points = list(itertools.product(*all_fields_values.values()))
 
+                cases = []
                 for point in all_points:
                     all_filters = []
                     for field_ind, field in enumerate(all_fields_values.keys()):
-- 
2.43.0


From 13456c9302e4071b787e83e491ba4728b6bf30dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:43 +0000
Subject: [PATCH 056/102] fix: reject unsorted knots of a piecewise linear
 function

The comparison was applied to the outcome of any(), which is never
negative, so unsorted knots were accepted and gave wrong values.
---
 metcalcpy/piecewise_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/piecewise_linear.py b/metcalcpy/piecewise_linear.py
index 5fd31be..c068533 100644
--- a/metcalcpy/piecewise_linear.py
+++ b/metcalcpy/piecewise_linear.py
@@ -40,7 +40,7 @@ class PiecewiseLinear():
         len_x = len(x_domain)
         if len_x < 2:
             raise IncompatibleLengths('Length of xdomain must be at least 2.')
-        if np.any(np.diff(x_domain)) < 0:
+        if np.any(np.diff(x_domain) < 0):
             print("X_domain (in {}) is {}".format(xunits, x_domain))
             raise UnsortedArray('Xdomain must be sorted in ascending order.')
         len_y = len(y_range)
-- 
2.43.0


From 689c4c755209ec45d097bb12c68433f2a23b0614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:43 +0000
Subject: [PATCH 057/102] fix: reject spreads that are not positive in the
 difficulty index

The comparison was applied to the outcome of all(), so negative spreads
were accepted.
---
 metcalcpy/calc_difficulty_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/calc_difficulty_index.py b/metcalcpy/calc_difficulty_index.py
index 5e6de79..b903a64 100644
--- a/metcalcpy/calc_difficulty_index.py
+++ b/metcalcpy/calc_difficulty_index.py
@@ -57,7 +57,7 @@ def _input_check(sigmaij, muij, threshold, fieldijn, sigma_over_mu_ref, under_fa
     """
     assert isinstance(threshold, (int, float, np.int32, np.float32))
     assert np.ndim(sigmaij) == FIELD_DIM
-    assert np.all(sigmaij) >= EPS
+    assert not np.any(sigmaij < EPS)
     fieldshape = np.shape(fieldijn)
     # muij is a scalar or 2D array
     if isinstance(muij, np.ndarray):
-- 
2.43.0


From 0ae79b5455d8cc9ba825b0a78f733fe5f7fde6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:57:10 +0000
Subject: [PATCH 058/102] fix: convert coordinate surfaces to the units of the
 vertical levels

---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 8cbba86..dd98cdd 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -146,8 +146,8 @@ def vertical_interp(fieldname, config,
     try:
         logging.debug(coordinate_surfaces.attrs['units'])
         logging.debug(config['vertical_level_units'])
-        length_convert = float((ureg.Quantity(1, config['vertical_level_units'])
-                       / ureg.Quantity(1, coordinate_surfaces.attrs['units'])).to_base_units())
+        length_convert = float((ureg.Quantity(1, coordinate_surfaces.attrs['units'])
+                       / ureg.Quantity(1, config['vertical_level_units'])).to_base_units())
     except pint.errors.UndefinedUnitError:
         logging.warning('Unknown unit:' + coordinate_surfaces.attrs['units'])
         length_convert = 1
-- 
2.43.0


From 7408044fcdb78806249eca3352d62a7c34bfc3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:57:10 +0000
Subject: [PATCH 059/102] fix: interpolate to a level that lies exactly on a
 coordinate surface

---
 metcalcpy/vertical_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index dd98cdd..56ffc63 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -167,7 +167,7 @@ def vertical_interp(fieldname, config,
 
         distances = eta - length_convert * coordinate_surfaces
         above = distances < 0
-        below = distances > 0
+        below = distances >= 0
 
         """
         Compute weights for linear interpolation
-- 
2.43.0


From db2444a919ce1b390abb25e5840d4fc7b4d8d2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:57:10 +0000
Subject: [PATCH 060/102] fix: keep the weight of the topmost level between the
 two top levels

---
 metcalcpy/vertical_interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 56ffc63..fa17fc2 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -201,7 +201,8 @@ def vertical_interp(fieldname, config,
         # where top most layer is below eta
         layer_below = below.loc[{lev_dim: vertical_coord[nlev - 1]}]
         weights.loc[{lev_dim: vertical_coord[nlev - 1]}] \
-            = xr.where(layer_below, 1, 0)
+            = xr.where(layer_below, 1,
+                       weights.loc[{lev_dim: vertical_coord[nlev - 1]}])
 
         """
         Compute weighted sum
-- 
2.43.0


From 41b1a1fd9bef25c1c9b476d4c49e78fc803ce3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:13 +0000
Subject: [PATCH 061/102] fix: average over the requested latitude band

---
 metcalcpy/pre_processing/directional_means.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/pre_processing/directional_means.py b/metcalcpy/pre_processing/directional_means.py
index 1db3c88..579e03e 100644
--- a/metcalcpy/pre_processing/directional_means.py
+++ b/metcalcpy/pre_processing/directional_means.py
@@ -57,6 +57,6 @@ def meridional_mean(dat, lat1, lat2, dimvar='latitude'):
     elif lat1 == lat2:
         raise ValueError('lat1 is equal to lat2, but it must be less than lat2')
 
-    wgts = np.cos(np.deg2rad(dat[dimvar].where((dat[dimvar] >= 60) & (dat[dimvar] <= 90),drop=True)))
+    wgts = np.cos(np.deg2rad(dat[dimvar].where((dat[dimvar] >= lat1) & (dat[dimvar] <= lat2),drop=True)))
 
-    return dat.where((dat[dimvar] >= 60) & (dat[dimvar] <= 90),drop=True).weighted(wgts).mean(dimvar)
+    return dat.where((dat[dimvar] >= lat1) & (dat[dimvar] <= lat2),drop=True).weighted(wgts).mean(dimvar)
-- 
2.43.0


From 1b845044238cb549ce8643270281763b3e26c20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:13 +0000
Subject: [PATCH 062/102] fix: use the longitude dimension of the first field
 in the wave covariance

---
 metcalcpy/pre_processing/waves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index d75cc3f..346a59a 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -251,7 +251,7 @@ def zonal_wave_covariance(dat1, dat2, dimvar1='longitude', dimvar2='longitude',
     * Check for consistency between dat1 and dat2 and throw errors
     """
 
-    nlons = dat1[dimvar].size
+    nlons = dat1[dimvar1].size
 
     fc1 = zonal_wave_coeffs(dat1, dimvar1, waves=waves, fftpkg=fftpkg)
     fc2 = zonal_wave_coeffs(dat2, dimvar2, waves=waves, fftpkg=fftpkg)
-- 
2.43.0


From 41fcf5fc36447b051ce03bc2cd7a062336d95358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:13 +0000
Subject: [PATCH 063/102] fix: accept any name of the longitude dimension with
 xrft

---
 metcalcpy/pre_processing/waves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index 346a59a..3b3cfbd 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -108,7 +108,7 @@ def _zonal_wave_coeffs_xrft(dat, dimvar):
     fc = xrft.fft(dat, dim=dimvar, real_dim=dimvar,
                   true_phase=False, true_amplitude=False)
 
-    fc = fc.rename({'freq_longitude': 'lon_wavenum'})
+    fc = fc.rename({'freq_' + dimvar: 'lon_wavenum'})
     fc = fc.assign_coords({'lon_wavenum': np.arange(fc.lon_wavenum.size)})
 
     return fc
-- 
2.43.0


From 84ad6d866d12dfdc07606cc73c199d39d0ca2e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:13 +0000
Subject: [PATCH 064/102] fix: reconstruct wave contributions on an odd number
 of longitudes

---
 metcalcpy/pre_processing/waves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index 3b3cfbd..eeae073 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -198,7 +198,7 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
         for k in waves:
             mask = np.isnan(fc.where(fc.lon_wavenum != k))
 
-            kcont = scipy.fft.irfft((fc*mask).values, axis=fc.get_axis_num('lon_wavenum'))
+            kcont = scipy.fft.irfft((fc*mask).values, n=fc.nlons, axis=fc.get_axis_num('lon_wavenum'))
             recons.append(kcont[..., np.newaxis])
 
         recons = np.concatenate(recons, axis=-1)
-- 
2.43.0


From cde6e6c1751c7f1b36dc020cba4daafad14b405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:13 +0000
Subject: [PATCH 065/102] fix: reconstruct the contributions of selected
 wavenumbers

The inverse transform took the selected coefficients for the first ones.
---
 metcalcpy/pre_processing/waves.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index eeae073..acbc4a9 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -183,7 +183,8 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
     --------
     zonal_wave_coeffs
     """
-    fc = zonal_wave_coeffs(dat, dimvar, waves=waves, fftpkg=fftpkg)
+    # all wavenumbers are needed for the inverse transform
+    fc = zonal_wave_coeffs(dat, dimvar, fftpkg=fftpkg)
 
     if (waves is None):
         waves = fc.lon_wavenum.values
-- 
2.43.0


From aa509eba222c964c55d8f879ad493b7e7e45a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:13 +0000
Subject: [PATCH 066/102] fix: reconstruct wave contributions from xrft
 coefficients

The branch for them was never taken, so the function failed.
---
 metcalcpy/pre_processing/waves.py | 33 ++++++++++---------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index acbc4a9..9643f67 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -190,32 +190,19 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
         waves = fc.lon_wavenum.values
 
     recons = []
-    if (fftpkg == 'scipy'):
-        new_dims = list(dat.dims)
-        new_dims += ['lon_wavenum']
-        new_coords = dict(dat.coords)
-        new_coords['lon_wavenum'] = waves
-
-        for k in waves:
-            mask = np.isnan(fc.where(fc.lon_wavenum != k))
-
-            kcont = scipy.fft.irfft((fc*mask).values, n=fc.nlons, axis=fc.get_axis_num('lon_wavenum'))
-            recons.append(kcont[..., np.newaxis])
-
-        recons = np.concatenate(recons, axis=-1)
-        recons = xr.DataArray(recons, dims=new_dims, coords=new_coords)
-
-    elif (fftpkg == 'xarray'):
-        fc = fc.rename({'lon_wavenum': 'freq_longitude'})
+    new_dims = list(dat.dims)
+    new_dims += ['lon_wavenum']
+    new_coords = dict(dat.coords)
+    new_coords['lon_wavenum'] = waves
 
-        for k in waves:
-            mask = np.isnan(fc.where(fc.lon_wavenum != k))
+    for k in waves:
+        mask = np.isnan(fc.where(fc.lon_wavenum != k))
 
-            kcont = xrft.ifft((fc*mask).values, dim='lon_wavenum', real_dim='lon_wavenum')
-            recons.append(kcont)
+        kcont = scipy.fft.irfft((fc*mask).values, n=fc.nlons, axis=fc.get_axis_num('lon_wavenum'))
+        recons.append(kcont[..., np.newaxis])
 
-        recons = xr.concat(recons, dim='lon_wavenum')
-        recons = recons.assign_coords({'lon_wavenum': waves, dimvar: dat[dimvar]})
+    recons = np.concatenate(recons, axis=-1)
+    recons = xr.DataArray(recons, dims=new_dims, coords=new_coords)
 
     return recons.astype(dat.dtype)
 
-- 
2.43.0


From d10972256b65c275e1fd24c8f8e9c1ae2e3b37a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:13 +0000
Subject: [PATCH 067/102] fix: count the shortest wave of an even number of
 longitudes once

---
 metcalcpy/pre_processing/waves.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index 9643f67..6f7348a 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -151,8 +151,10 @@ def zonal_wave_ampl_phase(dat, dimvar='longitude', waves=None, phase_deg=False,
     #
     # this is necessary because of the symmetric spectrum,
     # so all other wavenumbers except the 0th need to
-    # be multipled by 2 to get the right amplitude
-    mult_mask = np.isfinite(fc.where(fc.lon_wavenum != 0)) + 1
+    # be multipled by 2 to get the right amplitude. The
+    # shortest wave of an even number of longitudes also
+    # has a single coefficient.
+    mult_mask = np.isfinite(fc.where((fc.lon_wavenum != 0) & (2*fc.lon_wavenum != fc.nlons))) + 1
 
     ampl = mult_mask*np.abs(fc) / fc.nlons
     phas = np.angle(fc, deg=phase_deg)
@@ -244,7 +246,7 @@ def zonal_wave_covariance(dat1, dat2, dimvar1='longitude', dimvar2='longitude',
     fc1 = zonal_wave_coeffs(dat1, dimvar1, waves=waves, fftpkg=fftpkg)
     fc2 = zonal_wave_coeffs(dat2, dimvar2, waves=waves, fftpkg=fftpkg)
 
-    mult_mask = np.isfinite(fc1.where(fc1.lon_wavenum != 0)) + 1
+    mult_mask = np.isfinite(fc1.where((fc1.lon_wavenum != 0) & (2*fc1.lon_wavenum != nlons))) + 1
     cov = mult_mask*np.real(fc1 * fc2.conj())/(nlons**2)
 
     return cov
-- 
2.43.0


From 390da245f8b51fc685c5f9edb8999ca193088013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:13 +0000
Subject: [PATCH 068/102] fix: accept a list of longitudes to convert

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 463e083..fa6b5a1 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1042,7 +1042,7 @@ def convert_lons_indices(lons_in, minlon_in, range_in):
 
     # Use formula to convert longitude values based on the starting lon value and
     # the target number of longitudes
-    newlons = np.mod((lons_in + minlon), range_in) - minlon
+    newlons = np.mod((np.asarray(lons_in) + minlon), range_in) - minlon
 
     # get the sorted array indices
     lonsortlocs = np.argsort(newlons)
-- 
2.43.0


From 5e1b33059d9e9b64ac30b413856a88783ad2ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:41 +0000
Subject: [PATCH 069/102] fix: keep symmetric and antisymmetric parts at their
 latitudes

With latitudes from south to north the parts came out in reversed order,
and the antisymmetric part with the opposite sign.
---
 metcalcpy/contributed/spacetime/spacetime.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 8e82c25..129c7ec 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -230,21 +230,13 @@ def get_symmasymm(X, lat, opt=False):
         NT, NM, NL = X.shape
         if opt == 'symm':
             x = X[:, lat[:] >= 0, :]
-            if len(lat) % 2 == 1:
-                for ll in range(NM // 2 + 1):
-                    x[:, ll, :] = 0.5 * (X[:, ll, :] + X[:, NM - ll - 1, :])
-            else:
-                for ll in range(NM // 2):
-                    x[:, ll, :] = 0.5 * (X[:, ll, :] + X[:, NM - ll - 1, :])
+            for i, ll in enumerate(np.where(lat[:] >= 0)[0]):
+                x[:, i, :] = 0.5 * (X[:, ll, :] + X[:, NM - ll - 1, :])
         else:
             if opt == 'asymm' or opt == 'anti-symm':
                 x = X[:, lat[:] > 0, :]
-                if len(lat) % 2 == 1:
-                    for ll in range(NM // 2):
-                        x[:, ll, :] = 0.5 * (X[:, ll, :] - X[:, NM - ll - 1, :])
-                else:
-                    for ll in range(NM // 2):
-                        x[:, ll, :] = 0.5 * (X[:, ll, :] - X[:, NM - ll - 1, :])
+                for i, ll in enumerate(np.where(lat[:] > 0)[0]):
+                    x[:, i, :] = 0.5 * (X[:, ll, :] - X[:, NM - ll - 1, :])
     else:
         print("Please provide a valid option: symm or asymm.")
 
-- 
2.43.0


From 573428f72b7b4c2ecb429635f024d95e40efde36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:41 +0000
Subject: [PATCH 070/102] fix: smooth series with missing values and single
 points

A missing value was written to the first element, and a point without a
valid left neighbour at the end of the series failed.
---
 metcalcpy/contributed/spacetime/spacetime.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 129c7ec..037864c 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -321,13 +321,12 @@ def smooth121_1D(array_in):
 
     for i in np.arange(0, len(temp), 1):
         if np.isnan(temp[i]):
-            array_out[0] = np.nan
-        elif i == 0 or np.isnan(temp[i-1]):
-            array_out[i] = (3*temp[i]+temp[i+1])/4
-        elif i == (len(temp)-1) or np.isnan(temp[i+1]):
-            array_out[i] = (3 * temp[i] + temp[i-1]) / 4
+            array_out[i] = np.nan
         else:
-            array_out[i] = (temp[i+1] + 2 * temp[i] + temp[i-1]) / 4
+            # a neighbour that does not exist or is missing is replaced by the point itself
+            left = temp[i-1] if i > 0 and not np.isnan(temp[i-1]) else temp[i]
+            right = temp[i+1] if i < len(temp)-1 and not np.isnan(temp[i+1]) else temp[i]
+            array_out[i] = (right + 2 * temp[i] + left) / 4
 
     return array_out
 
-- 
2.43.0


From dac1e8dee2734cd385af36ea993363d291c1ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:41 +0000
Subject: [PATCH 071/102] fix: copy the highest frequency of all spectra

For even numbers of times and longitudes only the first power spectrum had
a value at the positive Nyquist frequency.
---
 metcalcpy/contributed/spacetime/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 037864c..8bf17bc 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -121,7 +121,7 @@ def mjo_cross_segment(XX, YY, opt=False):
             STC[1, :NT, 1:NL + 1] = PY
             STC[2, :NT, 1:NL + 1] = CXY
             STC[3, :NT, 1:NL + 1] = QXY
-            STC[0, NT, :] = STC[0, 0, :]
+            STC[:, NT, :] = STC[:, 0, :]
             STC[:, :, 0] = STC[:, :, NL]
 
     return STC
-- 
2.43.0


From 298a520693efd0a7e0810fc6072b16a1288bee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:41 +0000
Subject: [PATCH 072/102] fix: give every spectrum row its own frequency

When half the segment length is odd, a copy of the zero frequency was added
above the Nyquist frequency and all rows were labelled with wrong
frequencies. Odd segment lengths failed.
---
 metcalcpy/contributed/spacetime/spacetime.py | 69 +++++++-------------
 1 file changed, 23 insertions(+), 46 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 8bf17bc..1c85507 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -172,46 +172,26 @@ def mjo_cross_segment_realfft(XX, YY, opt=False):
     CXY = CXY[:, ::-1]
     QXY = QXY[:, ::-1]
 
-    # test if time and longitude are odd or even, fft algorithm
-    # returns the Nyquist frequency once for even NT or NL and twice
-    # if they are odd
+    # the real fft returns the frequencies from zero up to the Nyquist frequency;
+    # test if longitude is odd or even, fft algorithm returns the shortest
+    # wave once for even NL
     NT = int(NT / 2) + 1
-    if NT % 2 == 1:
-        nfreq = NT
-        if NL % 2 == 1:
-            nwave = NL
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, :NL] = PX
-            STC[1, :NT, :NL] = PY
-            STC[2, :NT, :NL] = CXY
-            STC[3, :NT, :NL] = QXY
-        else:
-            nwave = NL + 1
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, 1:NL + 1] = PX
-            STC[1, :NT, 1:NL + 1] = PY
-            STC[2, :NT, 1:NL + 1] = CXY
-            STC[3, :NT, 1:NL + 1] = QXY
-            STC[:, :, 0] = STC[:, :, NL]
+    nfreq = NT
+    if NL % 2 == 1:
+        nwave = NL
+        STC = np.zeros([8, nfreq, nwave], dtype='double')
+        STC[0, :NT, :NL] = PX
+        STC[1, :NT, :NL] = PY
+        STC[2, :NT, :NL] = CXY
+        STC[3, :NT, :NL] = QXY
     else:
-        nfreq = NT + 1
-        if NL % 2 == 1:
-            nwave = NL
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, :NL] = PX
-            STC[1, :NT, :NL] = PY
-            STC[2, :NT, :NL] = CXY
-            STC[3, :NT, :NL] = QXY
-            STC[:, NT, :] = STC[:, 0, :]
-        else:
-            nwave = NL + 1
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, 1:NL + 1] = PX
-            STC[1, :NT, 1:NL + 1] = PY
-            STC[2, :NT, 1:NL + 1] = CXY
-            STC[3, :NT, 1:NL + 1] = QXY
-            STC[:, NT, :] = STC[:, 0, :]
-            STC[:, :, 0] = STC[:, :, NL]
+        nwave = NL + 1
+        STC = np.zeros([8, nfreq, nwave], dtype='double')
+        STC[0, :NT, 1:NL + 1] = PX
+        STC[1, :NT, 1:NL + 1] = PY
+        STC[2, :NT, 1:NL + 1] = CXY
+        STC[3, :NT, 1:NL + 1] = QXY
+        STC[:, :, 0] = STC[:, :, NL]
 
     return STC
 
@@ -391,13 +371,10 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     window = np.transpose(window)
     window = np.tile(window, [1, nlat, mlon])
 
-    # test if time and longitude are odd or even, fft algorithm
-    # returns the Nyquist frequency once for even NT or NL and twice
-    # if they are odd
-    if (segLen/2+1) % 2 == 1:
-        nfreq = int(segLen/2) + 1
-    else:
-        nfreq = int(segLen/2) + 2
+    # the real fft returns the frequencies from zero up to the Nyquist frequency;
+    # test if longitude is odd or even, fft algorithm returns the shortest
+    # wave once for even NL
+    nfreq = int(segLen/2) + 1
     if mlon % 2 == 1:
         nwave = mlon
     else:
@@ -406,7 +383,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     # initialize spectrum array
     STC = np.zeros([8, nfreq, nwave], dtype='double')
     wave = np.arange(-int(nwave / 2), int(nwave / 2) + 1, 1.)
-    freq = np.linspace(0, 0.5, num=nfreq)
+    freq = np.arange(nfreq) / segLen
 
     # find time-mean index
     indfreq0 = np.where(freq == 0.)[0]
-- 
2.43.0


From 5b3b4c2b12c5e9d2b291f6fb711c14afcff0e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:41 +0000
Subject: [PATCH 073/102] fix: keep the data at their longitudes when flipping

The longitudes of the caller were overwritten while they were still being
read, and the data were shifted by the wrong number of columns unless the
two halves have equal size.
---
 metcalcpy/contributed/spacetime/spacetime_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime_utils.py b/metcalcpy/contributed/spacetime/spacetime_utils.py
index accce20..9c7276f 100755
--- a/metcalcpy/contributed/spacetime/spacetime_utils.py
+++ b/metcalcpy/contributed/spacetime/spacetime_utils.py
@@ -69,7 +69,7 @@ def lonFlip(data,lon):
     :return: dataflip
     """
 
-    lonnew = lon.values
+    lonnew = lon.values.copy()
 
     if lonnew.min() < 0:
         # change longitude to 0:360
@@ -81,7 +81,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonpos] = lon[ilonpos[0]].values
         lonnew[nlonpos:] = lon[ilonneg[0]].values + 360
 
-        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2),
+        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2),
              dims=data.dims,
              coords={'time': data['time'], 'lat': data['lat'],
                      'lon': lonnew})
@@ -96,7 +96,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonneg] = lon[ilonneg[0]].values - 360
         lonnew[nlonneg:] = lon[ilonpos[0]].values
 
-        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2),
+        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2),
             dims=data.dims,
             coords={'time': data['time'],
             'lat': data['lat'], 'lon': lonnew})
-- 
2.43.0


From 570380b2ffe905177b5f5d784476efbdcaca978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:14 +0000
Subject: [PATCH 074/102] fix: do not substitute inside the values of
 environment variables

The value of one variable was searched for references to the variables
that follow it in the same line, so the result depended on their order.
---
 metcalcpy/util/read_env_vars_in_config.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/metcalcpy/util/read_env_vars_in_config.py b/metcalcpy/util/read_env_vars_in_config.py
index dd458a5..16b8cca 100644
--- a/metcalcpy/util/read_env_vars_in_config.py
+++ b/metcalcpy/util/read_env_vars_in_config.py
@@ -48,15 +48,8 @@ def parse_config(path=None, data=None, tag='!ENV'):
         variable
         """
         value = loader.construct_scalar(node)
-        match = pattern.findall(value)  # to find all env variables in line
-        if match:
-            full_value = value
-            for g in match:
-                full_value = full_value.replace(
-                    f'${{{g}}}', os.environ.get(g, g)
-                )
-            return full_value
-        return value
+        # replace all env variables in line, each exactly once
+        return re.sub(r'\${(\w+)}', lambda match: os.environ.get(match.group(1), match.group(1)), value)
 
     loader.add_constructor(tag, constructor_env_variables)
 
-- 
2.43.0


From 855f791a11dfc0a6e929966e8a3736879636df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:16:15 +0000
Subject: [PATCH 075/102] fix: keep the whole plot name when renaming and
 deleting its files

Only the part before the first dot was kept, so that files of other plots
were deleted, and wildcards in a name matched other names.
---
 metcalcpy/validate_mv_python.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index 7e7eeaf..eca502b 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -51,7 +51,8 @@ def replace_name(old_name, postfix):
        Returns:
            file name with postfix
     """
-    return old_name.replace(".", "_" + postfix + ".")
+    root, extension = os.path.splitext(old_name)
+    return root + "_" + postfix + extension
 
 
 def clean(params):
@@ -173,8 +174,7 @@ def delete_similar_files(directory, file_name):
             file_name - name of the file to delete
 
     """
-    for filename in glob.glob(directory
-                              + file_name.split('.')[0]
+    for filename in glob.glob(glob.escape(os.path.join(directory, os.path.splitext(file_name)[0]))
                               + '*'):
         os.remove(filename)
 
-- 
2.43.0


From 76e8b54e1c0f475e2790f85b627bf6f5c5d7806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:16:15 +0000
Subject: [PATCH 076/102] fix: accept directories without a trailing separator

The documented parameters have none; file names were appended to the
name of the directory.
---
 metcalcpy/validate_mv_python.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index eca502b..0ec2805 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -105,8 +105,8 @@ def main(params):
             = replace_name(doc.getElementsByTagName('data_file')[0].firstChild.nodeValue, 'py')
         doc.getElementsByTagName('r_file')[0].firstChild.nodeValue \
             = replace_name(doc.getElementsByTagName('r_file')[0].firstChild.nodeValue, 'py')
-        doc.getElementsByTagName('r_tmpl')[0].firstChild.nodeValue = params['mv_home'] + 'R_tmpl'
-        doc.getElementsByTagName('r_work')[0].firstChild.nodeValue = params['mv_home'] + 'R_work'
+        doc.getElementsByTagName('r_tmpl')[0].firstChild.nodeValue = os.path.join(params['mv_home'], 'R_tmpl')
+        doc.getElementsByTagName('r_work')[0].firstChild.nodeValue = os.path.join(params['mv_home'], 'R_work')
         doc.getElementsByTagName('plots')[0].firstChild.nodeValue = params['output_plots_dir']
         doc.getElementsByTagName('user')[0].firstChild.nodeValue = params['db_user']
         doc.getElementsByTagName('password')[0].firstChild.nodeValue = params['db_pass']
@@ -114,19 +114,19 @@ def main(params):
         doc.getElementsByTagName('scripts')[0].firstChild.nodeValue = params['output_scripts_dir']
 
         # save new XML
-        new_xml_file = params['output_xml_dir'] + os.path.basename(replace_name(file, 'py'))
+        new_xml_file = os.path.join(params['output_xml_dir'], os.path.basename(replace_name(file, 'py')))
         with open(new_xml_file, "w") as xml_file:
             doc.writexml(xml_file)
 
         # run METviewer with the new XML and wait till it is done
-        process = subprocess.Popen([params['mv_home'] + '/bin/mv_batch.sh', new_xml_file],
+        process = subprocess.Popen([os.path.join(params['mv_home'], 'bin/mv_batch.sh'), new_xml_file],
                                    stdout=subprocess.PIPE,
                                    universal_newlines=True)
 
         (output, err) = process.communicate()
         p_status = process.wait()
 
-        new_image_path = params['output_plots_dir'] + replace_name(plot_name, 'py')
+        new_image_path = os.path.join(params['output_plots_dir'], replace_name(plot_name, 'py'))
 
         # check if both images are present or not
         if not os.path.exists(original_plot_path) \
@@ -159,8 +159,8 @@ def main(params):
                 else:
                     print(f'ERROR: For {plot_name} images are different')
                     # add more diagnostic images
-                    compare.save_thresh_image(params['output_plots_dir']
-                                              + replace_name(plot_name, 'thresh'))
+                    compare.save_thresh_image(os.path.join(params['output_plots_dir'],
+                                                           replace_name(plot_name, 'thresh')))
 
             except KeyError as err:
                 print(f'ERROR: For {plot_name} : {err}')
@@ -196,7 +196,7 @@ def get_test_xml(params):
     # for each fie in the directory check the date and extension
     # and include it to the output list if it fits the criteria
     for file in os.listdir(params['input_xml_dir']):
-        file_name = params['input_xml_dir'] + file
+        file_name = os.path.join(params['input_xml_dir'], file)
         filetime = dt.datetime.fromtimestamp(os.path.getmtime(file_name))
         extension = os.path.splitext(file)[1]
         if start <= filetime.date() <= end and extension == '.xml':
-- 
2.43.0


From eccd38fe2524ac446e5658ff6c35d8f6a7369cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:16:15 +0000
Subject: [PATCH 077/102] fix: report plots of different sizes and go on

The comparison of images of different sizes raised and the remaining
files were not tested.
---
 metcalcpy/validate_mv_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index 0ec2805..a776499 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -162,7 +162,7 @@ def main(params):
                     compare.save_thresh_image(os.path.join(params['output_plots_dir'],
                                                            replace_name(plot_name, 'thresh')))
 
-            except KeyError as err:
+            except (KeyError, ValueError) as err:
                 print(f'ERROR: For {plot_name} : {err}')
 
 
-- 
2.43.0


From bc9a7c8d8b6899bbfeca5f225e1ec8c40e83dd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:16:15 +0000
Subject: [PATCH 078/102] fix: allow saving the same comparison image more than
 once

The truth value of an image is ambiguous, so the second call raised.
---
 metcalcpy/compare_images.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/compare_images.py b/metcalcpy/compare_images.py
index 2316630..acb200f 100644
--- a/metcalcpy/compare_images.py
+++ b/metcalcpy/compare_images.py
@@ -117,7 +117,7 @@ class CompareImages:
             Args:
                 path_to_file - Name of the file
         """
-        if not self.thresh:
+        if self.thresh is None:
             self._init_thresh()
         cv2.imwrite(path_to_file, self.thresh)
 
@@ -126,7 +126,7 @@ class CompareImages:
             Args:
                 wait_for_key_event : If True, The function waitKey waits for a key event infinitely
         """
-        if not self.thresh:
+        if self.thresh is None:
             self._init_thresh()
         cv2.imshow("Threshold", self.thresh)
         if wait_for_key_event:
@@ -195,7 +195,7 @@ class CompareImages:
             Args:
                 path_to_file - Name of the file
         """
-        if not self.diff_in_image_2:
+        if self.diff_in_image_2 is None:
             self._init_diff_in_image_2()
         cv2.imwrite(path_to_file, self.diff_in_image_2)
 
@@ -204,7 +204,7 @@ class CompareImages:
             Args:
                 wait_for_key_event : If True, The function waitKey waits for a key event infinitely
         """
-        if not self.diff_in_image_2:
+        if self.diff_in_image_2 is None:
             self._init_diff_in_image_2()
         cv2.imshow('Difference in image 2', self.diff_in_image_2)
         if wait_for_key_event:
-- 
2.43.0


From d12861a268506a869941649e3f4ae96e68c8a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:52:45 +0000
Subject: [PATCH 079/102] fix: calculate equivalence curves in the aggregation
 program

---
 metcalcpy/agg_stat.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index bd0fd5b..44b7dc3 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -699,17 +699,9 @@ class AggStat:
             # calculate the derived statistic and exit
 
             if derived_curve_component.derived_operation == 'ETB':
-                index_array = np.where(self.column_names == 'stat_value')[0]
-                func_name = f'calculate_{self.statistic}'
-                for row in ds_1.values:
-                    stat = [globals()[func_name](row[np.newaxis, ...], self.column_names)]
-                    row[index_array] = stat
-                for row in ds_2.values:
-                    stat = [globals()[func_name](row[np.newaxis, ...], self.column_names)]
-                    row[index_array] = stat
-
-                ds_1_value = ds_1.values[:, index_array].flatten().tolist()
-                ds_2_value = ds_2.values[:, index_array].flatten().tolist()
+                # the paired values are the statistics of the single rows
+                ds_1_value = [self._calc_stats(row[np.newaxis, ...])[0] for row in ds_1.values]
+                ds_2_value = [self._calc_stats(row[np.newaxis, ...])[0] for row in ds_2.values]
             else:
                 ds_1_value = [ds_1.value]
                 ds_2_value = [ds_2.value]
@@ -718,7 +710,12 @@ class AggStat:
                 ds_1_value,
                 ds_2_value,
                 derived_curve_component.derived_operation)
-            if stat_val is not None:
+            if stat_val is not None and derived_curve_component.derived_operation == 'ETB':
+                # the mean difference and its equivalence test interval
+                results = BootstrapResults(lower_bound=round_half_up(stat_val['ci_tost'][0], 5),
+                                           value=round_half_up(stat_val['dif'], 5),
+                                           upper_bound=round_half_up(stat_val['ci_tost'][1], 5))
+            elif stat_val is not None:
                 results = BootstrapResults(lower_bound=None,
                                        value=round_half_up(stat_val[0], 5),
                                        upper_bound=None)
-- 
2.43.0


From 484eb2e455a27358943af5f0f1dc75fe1fcda5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:49 +0000
Subject: [PATCH 080/102] fix: reject MJO input on another grid than the EOFs

Comparing labelled arrays only looks at the labels both have in common, so the
check never failed. Compare the coordinate values themselves.
---
 .../contributed/rmm_omi/compute_mjo_indices.py     | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index 83a337a..3f76b18 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -37,13 +37,13 @@ def rmm(olr, u850, u200, time, spd, EOF1, EOF2, rmm_norm, pc_norm):
     # test that the input data has the same longitude values as the EOFs
     eoflon = EOF1['lon']
     lon = olr['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and OLR is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
     lon = u850['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and U850 is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
     lon = u200['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and U200 is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
 
     # remove previous 120 day mean from data
@@ -111,9 +111,9 @@ def omi(olr, time, spd, EOF1, EOF2):
     lon = olr['lon']
     eoflat = EOF1['lat']
     lat = olr['lat']
-    if not np.all(lat == eoflat):
+    if not np.array_equal(lat, eoflat):
         raise ValueError("Latitude grid of EOFs and OLR is not equal. Latitudes should be -20 to 20 by 2.5 degrees.")
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and OLR is not equal. Longitudes should be 0 to 375.5 by 2.5 degrees.")
 
     # filter OLR for 20-96 days
@@ -147,9 +147,9 @@ def regress_3dim_data_onto_eofs(data, time, EOF1, EOF2):
     :param EOF2: the day of year dependent EOF2
     :return: PCs
     """
-    if not np.all(data.lat == EOF1.lat):
+    if not np.array_equal(data.lat, EOF1.lat):
         raise ValueError("Latitude grid of EOFs and OLR is not equal.")
-    if not np.all(data.lon == EOF1.lon):
+    if not np.array_equal(data.lon, EOF1.lon):
         raise ValueError("Longitude grid of EOFs and OLR is not equal.")
     pc1 = np.empty(data.time.size)
     pc2 = np.empty(data.time.size)
-- 
2.43.0


From 5cedeaa6a643ef72efb562024b731c8c3f3a23f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:49 +0000
Subject: [PATCH 081/102] fix: band-pass filter keeps the requested periods

The frequencies did not belong to the order of the real transform, so that
periods twice as long as requested were kept.
---
 metcalcpy/contributed/rmm_omi/compute_mjo_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index 3f76b18..947b598 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -13,7 +13,7 @@ import numpy as np
 import xarray as xr
 import datetime
 import pandas as pd
-from scipy.fftpack import rfft, irfft, fftfreq
+from scipy.fftpack import rfft, irfft, rfftfreq
 from scipy.signal import detrend
 
 def rmm(olr, u850, u200, time, spd, EOF1, EOF2, rmm_norm, pc_norm):
@@ -257,7 +257,7 @@ def bandpass_filter_3D(data, time, a, b):
 
     # set up frequency array for masking
 
-    W = fftfreq(data[:,0,0].size, dt)
+    W = rfftfreq(data[:,0,0].size, dt)
     W = np.tile(W,(nm,nl,1))
     W = np.moveaxis(W,2,0)
     P = 1 / W
-- 
2.43.0


From 96f46bc4f25449264541d13647faa103907aea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:49 +0000
Subject: [PATCH 082/102] fix: time filters leave their input alone

Removing the trend in place changed the data of the caller.
---
 metcalcpy/contributed/rmm_omi/compute_mjo_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index 947b598..212156b 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -235,7 +235,7 @@ def bandpass_filter_3D(data, time, a, b):
     dt = (time[1] - time[0]).astype('timedelta64[s]') / np.timedelta64(1, 'D')
 
     # remove linear trend from data in time
-    data = detrend(data,axis=0,type='linear',overwrite_data=True)
+    data = detrend(data,axis=0,type='linear')
 
     # taper time window and pad with zeros
     orig_data = data
@@ -371,7 +371,7 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
         lat = orig_data['lat']
 
         print('detrending in time')
-        orig_data = detrend(orig_data, axis=0, type='linear', overwrite_data=True)
+        orig_data = detrend(orig_data, axis=0, type='linear')
 
         # ######################## Zero Padding ############################
         nt_max = 2 ** 17  # Zero padding for performance and resolution optimization, as well as consistency with origininal Kiladis code
-- 
2.43.0


From 9456ae616ed2a598426e33bceb8ba17c98dc775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:49 +0000
Subject: [PATCH 083/102] fix: spectral filter with an odd number of times or
 longitudes

Reordering the spectrum shifted it by one for odd sizes, so that the filter was
applied to the neighbouring frequencies.
---
 metcalcpy/contributed/rmm_omi/compute_mjo_indices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index 212156b..6bd3520 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -441,8 +441,8 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
             fourier_fft = np.fft.fft2(np.squeeze(data[:,idx_m,:]))
             # reordering of spectrum is done to be consistent with the original kiladis ordering.
             fourier_fft = np.fft.fftshift(fourier_fft, axes=(0, 1))
-            fourier_fft = np.roll(fourier_fft, int(nt / 2), axis=0)
-            fourier_fft = np.roll(fourier_fft, int(nl / 2), axis=1)
+            fourier_fft = np.roll(fourier_fft, -int(nt / 2), axis=0)
+            fourier_fft = np.roll(fourier_fft, -int(nl / 2), axis=1)
 
             # ### Very similar to original Kiladis Code
             fourier_fft_filtered = fourier_fft
@@ -476,8 +476,8 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
 
             # ############################ FFT Backward transformation ############
             # #reorder spectrum back from kiladis ordering to python ordering
-            fourier_fft_filtered = np.roll(fourier_fft_filtered, -int(nt / 2), axis=0)
-            fourier_fft_filtered = np.roll(fourier_fft_filtered, -int(nl / 2), axis=1)
+            fourier_fft_filtered = np.roll(fourier_fft_filtered, int(nt / 2), axis=0)
+            fourier_fft_filtered = np.roll(fourier_fft_filtered, int(nl / 2), axis=1)
             fourier_fft_filtered = np.fft.ifftshift(fourier_fft_filtered, axes=(0, 1))
             filtered_olr = np.fft.ifft2(fourier_fft_filtered)
             filtered_olr = np.real(filtered_olr)
-- 
2.43.0


From 5c256bb477513eed6d38150c2d5606b00d02f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:59:14 +0000
Subject: [PATCH 084/102] fix: group blocked longitudes by the configured
 distance

The distance setting had no effect; half the required number of longitudes was
used instead.
---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index 6399c7f..134c896 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -141,9 +141,8 @@ class BlockingCalculation():
         for i in np.arange(0,len(GIBL[:,0,0]),1):
             for k in np.arange(0,len(GIBL[0,:,0]),1):
                 gibli = np.zeros(len(GIBL[0,0,:]))
-                thresh = crit/2.0
+                thresh = self.ibl_dist
                 a = ibl[i,k,:]
-                db = self.ibl_dist
                 ibli = np.where(a==1)[0]
                 if len(ibli)==0:
                     continue
-- 
2.43.0


From 77b9ee145f3609ae5b0478e9386a0117187fe4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:59:14 +0000
Subject: [PATCH 085/102] fix: keep groups of blocked longitudes across the
 prime meridian

A group that spans longitude zero is found once, not twice as the others, and
was dropped when shorter than twice the required number of longitudes.
---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index 134c896..6725a1a 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -169,8 +169,6 @@ class BlockingCalculation():
                             ct=1
                         ct = 1
                         btlon = block[ll]
-                if len(btfin)/2 < crit :
-                    btfin = []
                 if len(btfin)==0:
                     continue
                 gibl1 = btfin
-- 
2.43.0


From fa4c3c5c8a3234351c0e6206a5cad38befb5d005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:57 +0000
Subject: [PATCH 086/102] fix: no blocks when there is no group of blocked
 longitudes

The calculation of blocks raised an IndexError when no day has a group.
---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index 6725a1a..a639c36 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -233,6 +233,10 @@ class BlockingCalculation():
 
         locy, locd, locl = np.where(c==crit)
 
+        # Without any GIBL there is no block
+        if len(locy) == 0:
+            return np.zeros((len(ibl[:,0,0]),len(ibl[0,:,0]),360))
+
         A = np.zeros(lonlen)
         A = np.expand_dims(A,axis=0)
 
-- 
2.43.0


From 648b35b97f5696862c2000ccf4375678382b9888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:57 +0000
Subject: [PATCH 087/102] fix: track blocks across the prime meridian

The centre of such a block and its travel were computed as if longitudes did
not wrap around, so that stationary blocks were cut.
---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index a639c36..e265973 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -302,6 +302,9 @@ class BlockingCalculation():
         middle=[]
         for l in np.arange(0,len(dAfin),1):
             temp = np.where(dAfin[l]==1)[0]
+            # A block across the prime meridian continues beyond the last longitude
+            if dAfin[l][0] == 1 and dAfin[l][-1] == 1 and len(temp) < lonlen:
+                temp = np.where(temp < np.where(dAfin[l]==0)[0][0], temp + lonlen, temp)
             if len(temp) % 2 == 0:
                 temp = np.append(temp,0)
             midtemp = np.median(temp)
@@ -393,7 +396,9 @@ class BlockingCalculation():
             diffb = []
             start = middle[bb[0].astype(int)]
             for bbs in bb:
-                diffb = np.append(diffb, start - middle[bbs.astype(int)])
+                # distance around the globe
+                dist = start - middle[bbs.astype(int)]
+                diffb = np.append(diffb, (dist + 180) % 360 - 180)
             loc = np.where(np.abs(diffb) > distthresh)[0]
             if len(loc)==0:
                 newblock = newblock +[bb]
-- 
2.43.0


From ee5bed489df9cffec1b7b7e54efeefb25955ef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:57 +0000
Subject: [PATCH 088/102] fix: use the configured duration of a block

Blocks of five days were kept whatever duration was configured.
---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index e265973..a8842c0 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -34,7 +34,7 @@ class BlockingCalculation():
         self.ibl_dist = int(os.environ.get(label+'_IBL_DIST',7))
         self.ibl_in_gibl = int(os.environ.get(label+'_IBL_IN_GIBL',15))
         self.gibl_overlap = int(os.environ.get(label+'_GIBL_OVERLAP',10))
-        self.block_time = int(os.environ.get(label+'_BLOCK_TIME',5))  ###Should fix so it supports other times"
+        self.block_time = int(os.environ.get(label+'_BLOCK_TIME',5))
         self.block_travel = int(os.environ.get(label+'_BLOCK_TRAVEL',45))
         self.block_method = os.environ.get(label+'_BLOCK_METHOD','PH')
 
@@ -369,13 +369,13 @@ class BlockingCalculation():
                     if (len(ai)<overlap):
                         add=0
                         continue
-                if len(locbi)>4:
+                if len(locbi)>=btime:
                     noloc = np.append(noloc,locbi)
                     finloc = finloc + [locbi]
                     for jj in locbi:
                         rem = np.append(rem,np.where(dyy==jj)[0])
                     ddil = np.delete(ddcopy[yri],rem.astype(int))
-                if len(locbi)<=4:
+                if len(locbi)<btime:
                     noloc = np.append(noloc,locbi)
                     if len(locbi)<=2:
                         failloc=failloc+[locbi]
@@ -403,7 +403,7 @@ class BlockingCalculation():
             if len(loc)==0:
                 newblock = newblock +[bb]
             if len(loc)>0:
-                if len(bb[:loc[0]]) >4:
+                if len(bb[:loc[0]]) >=btime:
                     newblock = newblock + [bb[:loc[0]]]
                 if len(bb[:loc[0]]) <=2:
                     noblock = noblock + [bb]
-- 
2.43.0


From f80c910ccb977ec69cdbc41f2b6edd8506ed9ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:40:51 +0000
Subject: [PATCH 089/102] fix: no blocks when every group of blocked longitudes
 is isolated

The calculation of blocks raised a TypeError when no two groups follow each
other within two days.
---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index a8842c0..e39afac 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -295,6 +295,10 @@ class BlockingCalculation():
                 dA = np.concatenate((dA,temp2),axis=0)
                 ct = ct + 1
 
+        # Isolated GIBLs do not make a block
+        if len(dd) == 0:
+            return np.zeros((len(ibl[:,0,0]),len(ibl[0,:,0]),360))
+
         dA=dA[1:]
         dAfin = dA
 
-- 
2.43.0


From 9faf314911dd0d2e9837bba7b9eb6acb5206af9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:57:04 +0000
Subject: [PATCH 090/102] fix: thickness of the layer above the surface

The height of the first level above the surface added the whole layer between
two levels to the surface height, even if the surface lies within the layer.
---
 metcalcpy/vertical_interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index fa17fc2..cdbf0db 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -376,7 +376,8 @@ def height_from_pressure(config,
         layer_thickness.loc[{lev_dim:pressure_coord[k]}] \
             = gas_constant_gravity_ratio \
             * virtual_temperature.loc[{lev_dim: pressure_coord[k]}] \
-            * np.log(pressure.loc[{lev_dim: pressure_coord[k - 1]}] \
+            * np.log(np.minimum(pressure.loc[{lev_dim: pressure_coord[k - 1]}],
+                                pressure_convert * surface_pressure)
             / pressure.loc[{lev_dim: pressure_coord[k]}])
 
     layer_thickness = layer_thickness.fillna(0)
-- 
2.43.0


From e3cb8d4219354bd9c3ea154ec7c789410f09e7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:57:07 +0000
Subject: [PATCH 091/102] fix: heights where the surface lies exactly on a
 pressure level

All heights of such a column were missing.
---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index cdbf0db..6e2936d 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -390,7 +390,7 @@ def height_from_pressure(config,
     """
     surface_mask.loc[{lev_dim: pressure_coord[0]}] \
         = pressure.loc[{lev_dim: pressure_coord[0]}] \
-        < pressure_convert * surface_pressure
+        <= pressure_convert * surface_pressure
     layer_height.loc[{lev_dim: pressure_coord[0]}] \
         = xr.where(surface_mask.loc[{lev_dim: pressure_coord[0]}],
                    surface_height + layer_thickness.loc[{lev_dim: pressure_coord[0]}],
@@ -403,7 +403,7 @@ def height_from_pressure(config,
             pressure.loc[{lev_dim: pressure_coord[k - 1]}]
             > pressure_convert * surface_pressure,
             pressure.loc[{lev_dim: pressure_coord[k]}]
-            < pressure_convert * surface_pressure)
+            <= pressure_convert * surface_pressure)
 
         layer_height.loc[{lev_dim: pressure_coord[k]}] \
             = xr.where(surface_mask.loc[{lev_dim: pressure_coord[k]}],
-- 
2.43.0


From ba70476c13642abadee5192f59fec2c04135ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:15:30 +0000
Subject: [PATCH 092/102] fix: skill of one line or lead time, and activity
 overwritten by the skill

---
 metcalcpy/contributed/tropical_diagnostics/ccew_activity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
index 8b0c50f..babcf8d 100644
--- a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
+++ b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
@@ -212,7 +212,7 @@ def wave_skill(act):
     :rtype:
     """
     nfchr, nlines, ntim = act.shape
-    skill = act[:, 1::, 0].squeeze()
+    skill = act[:, 1::, 0].copy()
 
     for ff in np.arange(nfchr):
         for ll in np.arange(nlines-1):
-- 
2.43.0


From c0b5dba3c8992bd4353a6acedd126c371f22601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:15:30 +0000
Subject: [PATCH 093/102] fix: leading patterns of data whose time is not the
 first dimension

---
 metcalcpy/contributed/tropical_diagnostics/ccew_activity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
index babcf8d..425d848 100644
--- a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
+++ b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
@@ -417,12 +417,12 @@ def eof_comp(data, neof, opt, dim=0):
 
     # move dimension dim to 0
     if dim != 0:
-        data_reord = np.moveaxis(data, dim, 0)
+        data_reord = np.moveaxis(data.values, dim, 0)
     else:
-        data_reord = data
+        data_reord = data.values
 
     # reshape to 2d by combining all dimensions 1 and up
-    a = np.reshape(data_reord.values, (dimsizes[dim], diml))
+    a = np.reshape(data_reord, (dimsizes[dim], diml))
 
     # standardize if correlation matrix instead of covariance matrix is needed
     if opt.covariance == False:
-- 
2.43.0


From c120f95e564bebd18092d07af3b8bdafcdeaa70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:11:50 +0000
Subject: [PATCH 094/102] fix: longitudes of the caller changed by the flip of
 the tropical diagnostics

---
 metcalcpy/contributed/tropical_diagnostics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/tropical_diagnostics/utils.py b/metcalcpy/contributed/tropical_diagnostics/utils.py
index 048a66a..55eb85c 100755
--- a/metcalcpy/contributed/tropical_diagnostics/utils.py
+++ b/metcalcpy/contributed/tropical_diagnostics/utils.py
@@ -67,7 +67,7 @@ def lonFlip(data,lon):
     :return: dataflip
     """
 
-    lonnew = lon.values
+    lonnew = lon.values.copy()
 
     if lonnew.min() < 0:
         # change longitude to 0:360
-- 
2.43.0


From 7219e7371d88ac5a491035342fa639f9f7e64fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:11:50 +0000
Subject: [PATCH 095/102] fix: data shifted by the wrong number of longitudes
 in the flip of the tropical diagnostics

---
 metcalcpy/contributed/tropical_diagnostics/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/tropical_diagnostics/utils.py b/metcalcpy/contributed/tropical_diagnostics/utils.py
index 55eb85c..3271cb8 100755
--- a/metcalcpy/contributed/tropical_diagnostics/utils.py
+++ b/metcalcpy/contributed/tropical_diagnostics/utils.py
@@ -79,7 +79,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonpos] = lon[ilonpos[0]].values
         lonnew[nlonpos:] = lon[ilonneg[0]].values + 360
 
-        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2), dims=data.dims,
+        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2), dims=data.dims,
                           coords={'time': data['time'], 'lat': data['lat'], 'lon': lonnew})
 
     else:
@@ -92,7 +92,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonneg] = lon[ilonneg[0]].values - 360
         lonnew[nlonneg:] = lon[ilonpos[0]].values
 
-        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2), dims=data.dims,
+        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2), dims=data.dims,
                           coords={'time': data['time'], 'lat': data['lat'], 'lon': lonnew})
 
     return dataflip
-- 
2.43.0


From 5a7500c7d50ce49492558505fcad49fd869a3a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:12:44 +0000
Subject: [PATCH 096/102] fix: wave filter kept wavenumbers one higher than
 requested

---
 metcalcpy/contributed/spacetime/spacetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 1c85507..4f1668f 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -444,7 +444,8 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
     fftData = np.copy(fftIn)
     fftData = np.transpose(fftData)
     nf, nk = fftData.shape  # frequency, wavenumber array
-    fftData = fftData[:, ::-1]
+    # eastward wavenumbers are positive, wavenumber 0 stays first
+    fftData = np.roll(fftData[:, ::-1], 1, axis=1)
 
     nt = (nf - 1) * 2
     jMin = int(round(nt / (tMax * obsPerDay)))
@@ -548,7 +549,7 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         if jMaxWave < nf:
             fftData[jMaxWave + 1:nf, i] = 0
 
-    fftData = fftData[:, ::-1]
+    fftData = np.roll(fftData[:, ::-1], 1, axis=1)
     fftData = np.transpose(fftData)
 
     return fftData
-- 
2.43.0


From 93b2907bd17ca6e3692263c6a8f828ae91436768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:12:44 +0000
Subject: [PATCH 097/102] fix: wave filter kept all wavenumbers when one is
 requested

---
 metcalcpy/contributed/spacetime/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 4f1668f..c952f96 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -472,7 +472,7 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         fftData[0:jMin, :] = 0
     if jMax < nf:
         fftData[jMax + 1:nf, :] = 0
-    if iMin < iMax:
+    if iMin <= iMax:
         # Set things outside the wavenumber range to zero, this is more normal
         if iMin > 0:
             fftData[:, 0:iMin] = 0
-- 
2.43.0


From 1ac55444ae316cbf9695b096de6debd909ad8faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:12:44 +0000
Subject: [PATCH 098/102] fix: wave filter with one equivalent depth used an
 undefined phase speed

---
 metcalcpy/contributed/spacetime/spacetime.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index c952f96..8ed9192 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -482,16 +482,11 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         # Set things inside the wavenumber range to zero, this should be somewhat unusual
         fftData[:, iMax + 1:iMin] = 0
 
-    c = np.empty([2])
-    if hMin == -9999:
-        c[0] = np.nan
-        if hMax == -9999:
-            c[1] = np.nan
-    else:
-        if hMax == -9999:
-            c[1] = np.nan
-        else:
-            c = np.sqrt(g * np.array([hMin, hMax]))
+    c = np.full(2, np.nan)
+    if hMin != -9999:
+        c[0] = np.sqrt(g * hMin)
+    if hMax != -9999:
+        c[1] = np.sqrt(g * hMax)
 
     spc = 24 * 3600. / (2 * pi * obsPerDay)  # seconds per cycle
 
-- 
2.43.0


From 25b2beee267e6cd41a5a2088cb9f553954d29780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:12:44 +0000
Subject: [PATCH 099/102] fix: wave filter dropped the last of an odd number of
 times

---
 metcalcpy/contributed/spacetime/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 8ed9192..75885f4 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -572,7 +572,7 @@ def kf_filter(data, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveName):
 
     fftfilt = kf_filter_mask(fftdata, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveName)
 
-    datafilt = np.fft.irfft2(fftfilt, axes=(0, 1))
+    datafilt = np.fft.irfft2(fftfilt, s=data.shape, axes=(0, 1))
     datafilt = np.transpose(datafilt, axes=[1, 0])
 
     return datafilt
-- 
2.43.0


From 66f201201163a193986a78ae173c9a05c0c3f7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:44:39 +0000
Subject: [PATCH 100/102] fix: write the valid time dimension from arrays of
 dates

---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 6e2936d..f237b00 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -504,9 +504,9 @@ def write_dataset(ds, ds_nc, coords_interp=None,
         time_coord = ds_nc.createVariable(
             'valid_time', 'float64', ('valid_time'))
         dt_valid = datetime.utcfromtimestamp(
-            ds['valid_time'].astype('O')/1e9)
+            ds['valid_time'].values.astype('O')/1e9)
         dt_init = datetime.utcfromtimestamp(
-            ds['init_time'].astype('O')/1e9)
+            ds['init_time'].values.astype('O')/1e9)
         time_coord[:] = (dt_valid - dt_init).total_seconds()
         time_coord.long_name = 'valid_time'
         time_coord.units = 'seconds since ' + str(dt_init)
-- 
2.43.0


From 719235dd83c6f7fc3c8cf5b7723b0812cca2df64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:44:39 +0000
Subject: [PATCH 101/102] fix: write the forecast reference time in UTC
 whatever the local time zone

---
 metcalcpy/vertical_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index f237b00..fb74461 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -560,7 +560,7 @@ def write_dataset(ds, ds_nc, coords_interp=None,
         dd = int(yyyymmddhh_str[6:8])
         hh = int(yyyymmddhh_str[8:10])
         ref_time_obj = datetime(yyyy, mm, dd, hh)
-        ref_time_coord[:] = ref_time_obj.timestamp()
+        ref_time_coord[:] = (ref_time_obj - datetime(1970, 1, 1)).total_seconds()
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 4d8884228ed4e0587d15ba2c8922bad9cdf7e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:19:24 +0000
Subject: [PATCH 102/102] fix: compute pivotal intervals of economic value
 curves point by point

---
 metcalcpy/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index 2845f8f..d9aba11 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -387,8 +387,8 @@ def _get_confidence_interval_and_value_eclv(bootstrap_dist, stat_val, alpha, ci_
             high = None
             column = all_values_np[:, ind]
             if ci_method == 'pivotal':
-                low = 2 * stat_val - _np.percentile(column, 100 * (1 - alpha / 2.))
-                high = 2 * stat_val - _np.percentile(column, 100 * (alpha / 2.))
+                low = 2 * stat_val['V'][ind] - _np.percentile(column, 100 * (1 - alpha / 2.))
+                high = 2 * stat_val['V'][ind] - _np.percentile(column, 100 * (alpha / 2.))
 
             elif ci_method == 'perc':
                 if _all_the_same(column):
-- 
2.43.0

