From 3bcee191529f403b4bf5e9b36a0e8ff498f13ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:05 +0000
Subject: [PATCH 001/106] fix: ESTDEV of aggregated SL1L2 data divides the
 partial sums by the total

calculate_estdev ignored its aggregation flag, so ME and MSE were taken
from undivided sums and the result was wrong or missing.
---
 metcalcpy/util/sl1l2_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index 9324a0d..a48a195 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -498,8 +498,8 @@ def calculate_estdev(input_data, columns_names, aggregation=False):
     warnings.filterwarnings('error')
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
-        me = calculate_me(input_data, columns_names)
-        mse = calculate_mse(input_data, columns_names)
+        me = calculate_me(input_data, columns_names, aggregation)
+        mse = calculate_mse(input_data, columns_names, aggregation)
         result = calculate_stddev(me * total, mse * total, total)
         result = round_half_up(result, PRECISION)
     except (TypeError, Warning):
-- 
2.43.0


From 70af2c86ea4e8d306f000079bb8791211c118400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:05 +0000
Subject: [PATCH 002/106] fix: SI and ESTDEV are missing instead of raising
 when undefined

A zero observation mean made SI raise ZeroDivisionError and a single
matched pair made ESTDEV raise on a division by n - 1 = 0. Both now
return None like the other SL1L2 statistics.
---
 metcalcpy/util/sl1l2_statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index a48a195..cfb89e9 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -475,7 +475,7 @@ def calculate_si(input_data, columns_names, aggregation=False):
         obar = calculate_obar(input_data, columns_names, aggregation)
         result = rmse / obar
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -502,7 +502,7 @@ def calculate_estdev(input_data, columns_names, aggregation=False):
         mse = calculate_mse(input_data, columns_names, aggregation)
         result = calculate_stddev(me * total, mse * total, total)
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -571,7 +571,7 @@ def calculate_stddev(sum_total, sum_sq, n):
                 calculated STDDEV as float
                 or None if some of the data values are missing or invalid
     """
-    if n < 1:
+    if n <= 1:
         return None
     v = (sum_sq - sum_total * sum_total / n) / (n - 1)
     if v < 0:
-- 
2.43.0


From e52ce712ae7d491027412de44f5d4f435e4e85a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:44 +0000
Subject: [PATCH 003/106] fix: wind direction is in degrees

calc_direction applied a modulo of 360 to an angle in radians, so the
result was neither radians nor degrees. The docstring promises degrees.
---
 metcalcpy/util/met_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/met_stats.py b/metcalcpy/util/met_stats.py
index 33770dc..bc28f38 100644
--- a/metcalcpy/util/met_stats.py
+++ b/metcalcpy/util/met_stats.py
@@ -48,7 +48,7 @@ def calc_direction(u_comp, v_comp):
     if abs(u_comp) < tolerance and abs(v_comp) < tolerance:
         return None
 
-    direction = np.arctan2(u_comp, v_comp)
+    direction = np.degrees(np.arctan2(u_comp, v_comp))
     # convert to [0,360]
     direction = direction - 360 * math.floor(direction / 360)
     return direction
-- 
2.43.0


From b4a1f19c7c2f2db13eb0e5b50888bc6a1f079fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:44 +0000
Subject: [PATCH 004/106] fix: VCNT_DIR_ERR is a signed angle and is defined
 for aggregated data

The angle was mapped to 0-360, so negative errors and their absolute
value came out near 360. The observed wind speed was not divided by the
total, so large samples fell under the calm wind tolerance and the
statistic was missing.
---
 metcalcpy/util/vcnt_statistics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/vcnt_statistics.py b/metcalcpy/util/vcnt_statistics.py
index c24cc02..6729c96 100644
--- a/metcalcpy/util/vcnt_statistics.py
+++ b/metcalcpy/util/vcnt_statistics.py
@@ -468,7 +468,7 @@ def calculate_vcnt_dir_err(input_data, columns_names, aggregation=False):
         uf = ufbar / f_len
         vf = vfbar / f_len
 
-        o_len = calculate_vcnt_obar_speed(input_data, columns_names)
+        o_len = calculate_vcnt_obar_speed(input_data, columns_names, aggregation)
         uobar = sum_column_data_by_name(input_data, columns_names, 'uobar') / total
         vobar = sum_column_data_by_name(input_data, columns_names, 'vobar') / total
         uo = uobar / o_len
@@ -478,6 +478,9 @@ def calculate_vcnt_dir_err(input_data, columns_names, aggregation=False):
         b = uf * uo + vf * vo
 
         dir_err = calc_direction(a, b)
+        # signed angle
+        if dir_err > 180:
+            dir_err = dir_err - 360
 
         result = round_half_up(dir_err, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
-- 
2.43.0


From c59f43b139084aec2bae2882e2926862b0b306b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:12 +0000
Subject: [PATCH 005/106] fix: PSTD Brier score, BSS and resolution no longer
 raise AttributeError

The total is a number and has no reset_index method.
---
 metcalcpy/util/pstd_statistics.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 8d9f96d..2ee7a01 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -42,8 +42,6 @@ def calculate_pstd_brier(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
-
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         uncertainty = calc_uncertainty(o_bar_table)
@@ -76,7 +74,6 @@ def calculate_pstd_bss_smpl(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         uncertainty = calc_uncertainty(o_bar_table)
@@ -161,7 +158,6 @@ def calculate_pstd_resolution(input_data, columns_names):
         df_pct_perm = _calc_common_stats(columns_names, input_data)
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
         t_table = df_pct_perm['n_i'].sum()
-        t_table.reset_index(inplace=True, drop=True)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         result = round_half_up(resolution, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
-- 
2.43.0


From 9fea5a2658fba2fba9e1077de694a050ce520506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:12 +0000
Subject: [PATCH 006/106] fix: PSTD_ROC_AUC is missing when there are no events
 or no non-events

The ROC curve is undefined there and the division by zero escaped to the
caller. The warning filter is restored as in the other statistics.
---
 metcalcpy/util/pstd_statistics.py | 46 ++++++++++++++++---------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 2ee7a01..3ae93de 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -260,28 +260,30 @@ def calculate_pstd_roc_auc(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-
-    df_pct_perm = _calc_common_stats(columns_names, input_data)
-    roc = _calc_pct_roc(df_pct_perm)
-    # add 1st and last rows
-    final_roc = pd.DataFrame(
-        {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 1, 'pofd': 1},
-        index=[0])
-    final_roc = pd.concat([final_roc, roc])
-    final_roc = pd.concat([final_roc,
-        pd.DataFrame(
-            {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 0, 'pofd': 0},
-            index=[0]) ])
-
-    final_roc.reset_index(inplace=True, drop=True)
-    roc_auc = 0
-    for index, row in final_roc.iterrows():
-        if index != 0:
-            roc_auc = roc_auc + 0.5 * (final_roc.iloc[index - 1]['pody'] + row.pody) \
-                      * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
-
-    result = round_half_up(roc_auc, PRECISION)
-
+    try:
+        df_pct_perm = _calc_common_stats(columns_names, input_data)
+        roc = _calc_pct_roc(df_pct_perm)
+        # add 1st and last rows
+        final_roc = pd.DataFrame(
+            {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 1, 'pofd': 1},
+            index=[0])
+        final_roc = pd.concat([final_roc, roc])
+        final_roc = pd.concat([final_roc,
+            pd.DataFrame(
+                {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 0, 'pofd': 0},
+                index=[0]) ])
+
+        final_roc.reset_index(inplace=True, drop=True)
+        roc_auc = 0
+        for index, row in final_roc.iterrows():
+            if index != 0:
+                roc_auc = roc_auc + 0.5 * (final_roc.iloc[index - 1]['pody'] + row.pody) \
+                          * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
+
+        result = round_half_up(roc_auc, PRECISION)
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
+        result = None
+    warnings.filterwarnings('ignore')
     return result
 
 
-- 
2.43.0


From d71a2903d7e77f145f5c8fc271987774bc528423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:49 +0000
Subject: [PATCH 007/106] fix: ROC points are ordered by threshold value

The thresholds were ordered as text, so '>=10' came before '>=2' and the
curve went back and forth.
---
 metcalcpy/util/ctc_statistics.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 007cec4..1da2460 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -207,13 +207,8 @@ def calculate_ctc_roc(data, ascending):
     """
     # create a data frame to hold the aggregated contingency table and ROC data
     sorted_data = sort_by_thresh(data, ascending=ascending)
-    list_thresh = np.sort(np.unique(sorted_data['fcst_thresh'].to_numpy()))
-
-    # If descending order was requested for sorting the input dataframe,
-    # reverse the order of the list_thresh to
-    # maintain results in descending order.
-    if not ascending:
-        list_thresh = list_thresh[::-1]
+    # keep the thresholds in the order of the sorted data
+    list_thresh = sorted_data['fcst_thresh'].unique()
 
     df_roc = pd.DataFrame(
         {'thresh': list_thresh, 'pody': None, 'pofd': None})
-- 
2.43.0


From 9f8dc4b6fc1eaba4331309bf7e57c4160e27312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:49 +0000
Subject: [PATCH 008/106] fix: recognise the <= operator of thresholds that are
 not numbers

For a threshold like <=CDP50 the operator was read as < and the value as
=CDP50.
---
 metcalcpy/util/ctc_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 1da2460..3edba65 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -1012,8 +1012,8 @@ def sort_by_thresh(input_dataframe: pd.DataFrame, sort_column_name: str = 'fcst_
         # for thresholds that are comprised of an operator and value, ie >=3,
         # separate the fcst_thresh into two parts: the operator (ie <, <=, ==, >=, >)
         # and the numerical value of the threshold (which can be a negative value)
-        match = re.match(r'(\<|\<=|\==|\>=|\>)*((-)*([0-9])(.)*)', thresh)
-        match_text = re.match(r'(\<|\<=|\==|\>=|\>)*((.)*)', thresh)
+        match = re.match(r'(\<=|\<|\==|\>=|\>)*((-)*([0-9])(.)*)', thresh)
+        match_text = re.match(r'(\<=|\<|\==|\>=|\>)*((.)*)', thresh)
 
         if match:
             operators.append(match.group(1))
-- 
2.43.0


From 5e1e928b78dbaa7f153b5b488dc0fb204c00aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:49 +0000
Subject: [PATCH 009/106] fix: sorting by threshold leaves the caller's data
 frame unchanged

The helper columns op_wts and thresh_values were added to the input.
---
 metcalcpy/util/ctc_statistics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 3edba65..17e01ae 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -1003,6 +1003,9 @@ def sort_by_thresh(input_dataframe: pd.DataFrame, sort_column_name: str = 'fcst_
 
     """
 
+    # do not add the helper columns to the caller's data frame
+    input_dataframe = input_dataframe.copy()
+
     operators = []
     values = []
     text_strings = []
-- 
2.43.0


From 9d44ca7c43e5cdbe8faf2023a8ff708682df66d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:48 +0000
Subject: [PATCH 010/106] fix: 3D volume ratios are no longer always missing

rename_column returned a list, and comparing a list with a column name
never finds the column. Return a numpy array like the input.
---
 metcalcpy/util/mode_3d_volrat_statistics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_3d_volrat_statistics.py b/metcalcpy/util/mode_3d_volrat_statistics.py
index 1f66035..ff8dbdb 100644
--- a/metcalcpy/util/mode_3d_volrat_statistics.py
+++ b/metcalcpy/util/mode_3d_volrat_statistics.py
@@ -11,6 +11,8 @@
 """
 Program Name: mode_3d_volrat_statistics.py
 """
+import numpy as np
+
 from metcalcpy.util.mode_arearat_statistics import *
 from metcalcpy.util.utils import column_data_by_name_value, THREE_D_DATA_FILTER
 
@@ -639,4 +641,4 @@ def rename_column(columns_names):
             columns_names_new.insert(index, 'area')
         else:
             columns_names_new.insert(index, name)
-    return columns_names_new
+    return np.array(columns_names_new)
-- 
2.43.0


From ab5462a32e5556b1a97a2b147b1f37771a5a0035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:48 +0000
Subject: [PATCH 011/106] fix: RATIO_FSM_FSA counts only simple objects in the
 numerator

Matched cluster objects were counted too, so the share could exceed 1.
---
 metcalcpy/util/mode_ratio_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index 39b7571..098c4e5 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -136,7 +136,7 @@ def calculate_ratio_fsm_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 07080af9610d98276a674c2e5f54476a6eda6787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:48 +0000
Subject: [PATCH 012/106] fix: RATIO_FSU_FSA counts the unmatched objects

The filter selected the matched forecast objects.
---
 metcalcpy/util/mode_ratio_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index 098c4e5..a0c4c2e 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -162,7 +162,7 @@ def calculate_ratio_fsu_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From abbab9298d8f2d145ea1ac3518eaec9f9009ff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:48 +0000
Subject: [PATCH 013/106] fix: RATIO_FSM_ASM and RATIO_OSM_ASM count the
 matched objects

The numerators selected unmatched objects, so the two shares of the
matched objects did not add up to 1.
---
 metcalcpy/util/mode_ratio_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index a0c4c2e..d7ea142 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -240,7 +240,7 @@ def calculate_ratio_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -266,7 +266,7 @@ def calculate_ratio_osm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 0bb28246dc5b8135fdd54fbe22414a5d69938a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:48 +0000
Subject: [PATCH 014/106] fix: OBJCSI uses the hits as the numerator

Unmatched forecast objects were counted instead of the matched simple
objects used by OBJACSI.
---
 metcalcpy/util/mode_ratio_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index d7ea142..8c98aa2 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -838,7 +838,7 @@ def calculate_objcsi(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_2 = {'simple_flag': 1, 'matched_flag': 0}
 
-- 
2.43.0


From 88d7347ae8bd809d045ea6cbc35ad52a78ffa951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:48 +0000
Subject: [PATCH 015/106] fix: OBJPODY uses the misses in the denominator

Unmatched forecast objects are false alarms. Misses are unmatched
observation objects, as in OBJAPODY.
---
 metcalcpy/util/mode_ratio_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index 8c98aa2..37373ea 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -871,7 +871,7 @@ def calculate_objpody(input_data, columns_names):
     warnings.filterwarnings('error')
     nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
-    denominator_filter_2 = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    denominator_filter_2 = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
 
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From dc86b9df18aba6d804d0267aadbad6b46d3ec58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:48 +0000
Subject: [PATCH 016/106] fix: AREARAT_FSM_ASM is the forecast share of the
 matched area

The filters computed the unmatched share of the forecast area.
---
 metcalcpy/util/mode_arearat_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index 2ca56f8..294d2e3 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -266,8 +266,8 @@ def calculate_arearat_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
-    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    denominator_filter = {'simple_flag': 1, 'matched_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 35e1797678d0f929552321832deeea371554b9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:48 +0000
Subject: [PATCH 017/106] fix: AREARAT_OSA_FSA divides by the forecast area

Observed area was divided by itself, so the ratio was always 1.
---
 metcalcpy/util/mode_arearat_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index 294d2e3..e8ce45d 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -613,7 +613,7 @@ def calculate_arearat_osa_fsa(input_data, columns_names):
     """
     warnings.filterwarnings('error')
     nominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
-    denominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
+    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From d395052fb6e5e1a63f2299e6dbf60617e533b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:48 +0000
Subject: [PATCH 018/106] fix: OBJAFAR uses half of the matched area as hits

The matched area holds the forecast and the observation object of each
pair, so hits are half of it, as in OBJFAR and OBJAHITS.
---
 metcalcpy/util/mode_arearat_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index e8ce45d..347bbd5 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -983,7 +983,7 @@ def calculate_objafar(input_data, columns_names):
         denominator_2_data = \
             column_data_by_name_value(input_data, columns_names, denominator_filter_2)
         denominator_2 = sum_column_data_by_name(denominator_2_data, columns_names, 'area')
-        result = round_half_up(nominator / (denominator_1 + 2 * denominator_2), PRECISION)
+        result = round_half_up(nominator / (denominator_1 + denominator_2 / 2), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
-- 
2.43.0


From 210c9dd69c9f6b2b6c91971e09e9c1ca9e428c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:10 +0000
Subject: [PATCH 019/106] fix: the economic value curve of pct rows no longer
 uses the removed np.float alias

---
 metcalcpy/util/eclv_statistics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/util/eclv_statistics.py b/metcalcpy/util/eclv_statistics.py
index bd113e7..e74eccf 100644
--- a/metcalcpy/util/eclv_statistics.py
+++ b/metcalcpy/util/eclv_statistics.py
@@ -68,10 +68,10 @@ def calculate_eclv(input_data: np.array, columns_names: np.array,
             thresh_i_more = input_data[:, index_thresh_i] > thresh
             thresh_i_less = input_data[:, index_thresh_i] <= thresh
 
-            n11 = np.nansum(input_data[:, index_oy_i][thresh_i_more].astype(np.float))
-            n10 = np.nansum(input_data[:, index_on_i][thresh_i_more].astype(np.float))
-            n01 = np.nansum(input_data[:, index_oy_i][thresh_i_less].astype(np.float))
-            n00 = np.nansum(input_data[:, index_on_i][thresh_i_less].astype(np.float))
+            n11 = np.nansum(input_data[:, index_oy_i][thresh_i_more].astype(float))
+            n10 = np.nansum(input_data[:, index_on_i][thresh_i_more].astype(float))
+            n01 = np.nansum(input_data[:, index_oy_i][thresh_i_less].astype(float))
+            n00 = np.nansum(input_data[:, index_on_i][thresh_i_less].astype(float))
         else:
             n11 = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
             n10 = sum_column_data_by_name(input_data, columns_names, 'fy_on')
-- 
2.43.0


From 28ffe69f5c105171eebc1170743ce433e4bb0bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:20 +0000
Subject: [PATCH 020/106] fix: pivotal intervals of the economic value curve
 use the curve value of each point

---
 metcalcpy/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index f105165..967d765 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -387,8 +387,8 @@ def _get_confidence_interval_and_value_eclv(bootstrap_dist, stat_val, alpha, ci_
             high = None
             column = all_values_np[:, ind]
             if ci_method == 'pivotal':
-                low = 2 * stat_val - _np.percentile(column, 100 * (1 - alpha / 2.))
-                high = 2 * stat_val - _np.percentile(column, 100 * (alpha / 2.))
+                low = 2 * stat_val['V'][ind] - _np.percentile(column, 100 * (1 - alpha / 2.))
+                high = 2 * stat_val['V'][ind] - _np.percentile(column, 100 * (alpha / 2.))
 
             elif ci_method == 'perc':
                 if _all_the_same(column):
-- 
2.43.0


From a7600103b7a18fbdc31f1c86caa58998f62c45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:20 +0000
Subject: [PATCH 021/106] fix: agg_stat passes the requested alpha to the
 bootstrap

---
 metcalcpy/agg_stat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 1bcfd7f..0579e22 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -826,6 +826,7 @@ class AggStat:
                 results = bootstrap_and_value(
                     data,
                     stat_func=self._calc_stats,
+                    alpha=self.params.get('alpha', 0.05),
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
                     ci_method=self.params['method'],
-- 
2.43.0


From 55618aefe1b5909951d31f2555607a885cb9c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:20 +0000
Subject: [PATCH 022/106] fix: agg_eclv passes the requested alpha to the
 bootstrap

---
 metcalcpy/agg_eclv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index eed39eb..e69bb1f 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -174,6 +174,7 @@ class AggEclv:
                     results = bootstrap_and_value(
                         data,
                         stat_func=self._calc_stats,
+                        alpha=self.params.get('alpha', 0.05),
                         num_iterations=self.params['num_iterations'],
                         num_threads=self.params['num_threads'],
                         ci_method=self.params['method'],
-- 
2.43.0


From d02bb0f161efcdebe621ce93aecd3d70ba40dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:20 +0000
Subject: [PATCH 023/106] fix: agg_stat_bootstrap passes the requested alpha to
 the bootstrap

---
 metcalcpy/agg_stat_bootstrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 7514461..5547e9d 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -234,7 +234,8 @@ class AggStatBootstrap:
                     stat_func=self._calc_stats,
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
-                    ci_method=self.params['method'])
+                    ci_method=self.params['method'],
+                    alpha=self.params.get('alpha', 0.05))
 
             except KeyError as err:
                 results = BootstrapResults(None, None, None)
-- 
2.43.0


From 8c88d002d740fcfb8c10f59ca5841c08868c3c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:43 +0000
Subject: [PATCH 024/106] fix: an undefined economic value curve is written as
 missing values

A series without rows, without events or without non-events ended the whole
run with a TypeError.
---
 metcalcpy/agg_eclv.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index e69bb1f..33282db 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -143,9 +143,9 @@ class AggEclv:
 
         # if the data frame is empty - do nothing and return an empty object
         if series_data.empty:
-            return BootstrapResults(lower_bound=None,
-                                    value=None,
-                                    upper_bound=None)
+            return {ind: BootstrapResults(lower_bound=None,
+                                          value=None,
+                                          upper_bound=None) for ind in range(len(thresholds))}
 
         data = series_data[self.column_names].to_numpy()
         boot_stat_thresh = {}
@@ -260,8 +260,9 @@ class AggEclv:
 
             for thresh_ind, thresh in enumerate(thresholds):
                 out_frame_local['thresh_i'] = [thresh] * (len(self.steps) + self.add_base_rate)
-                out_frame_local['x_pnt_i'] = bootstrap_results[thresh_ind].value['cl']
-                out_frame_local['y_pnt_i'] = bootstrap_results[thresh_ind].value['V']
+                curve = bootstrap_results[thresh_ind].value
+                out_frame_local['x_pnt_i'] = self.steps if curve is None else curve['cl']
+                out_frame_local['y_pnt_i'] = None if curve is None else curve['V']
                 out_frame_local['nstats'] = [len(point_data)] * (len(self.steps) + self.add_base_rate)
                 if self.params['num_iterations'] > 1:
                     out_frame_local['stat_btcu'] = bootstrap_results[thresh_ind].upper_bound
-- 
2.43.0


From b45405f9e5a1c84e9f42b0ef6c2395c464dab154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:30 +0000
Subject: [PATCH 025/106] fix: bootstrap intervals ignore resamples whose
 statistic is missing

Pivotal intervals failed on any missing resample value, and percentile
intervals failed when all of them were missing.
---
 metcalcpy/bootstrap.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index 967d765..aaf7140 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -325,10 +325,16 @@ def _get_confidence_interval_and_value(bootstrap_dist, stat_val, alpha, ci_metho
     if stat_val is None:
         ci_method = "None"
 
+    # resamples with an undefined statistic do not take part in the intervals
+    bd = bootstrap_dist[bootstrap_dist != _np.array([None])]
+
     if ci_method == 'pivotal':
-        low = 2 * stat_val - _np.percentile(bootstrap_dist, 100 * (1 - alpha / 2.))
+        low = None
+        high = None
+        if bd.size > 0:
+            low = 2 * stat_val - _np.percentile(bd, 100 * (1 - alpha / 2.))
+            high = 2 * stat_val - _np.percentile(bd, 100 * (alpha / 2.))
         val = stat_val
-        high = 2 * stat_val - _np.percentile(bootstrap_dist, 100 * (alpha / 2.))
     elif ci_method == 'perc':
         # check if All values of bootstrap_dist are equal and if YES -
         # display a warning and do not calculate CIs - like boot.ci in R
@@ -337,7 +343,6 @@ def _get_confidence_interval_and_value(bootstrap_dist, stat_val, alpha, ci_metho
             low = None
             high = None
         else:
-            bd = bootstrap_dist[bootstrap_dist != _np.array([None])]
             low = _np.percentile(bd, 100 * (alpha / 2.), method='linear')
             high = _np.percentile(bd, 100 * (1 - alpha / 2.), method='linear')
         val = stat_val
@@ -519,7 +524,7 @@ def _all_the_same(elements):
     if elements.size == 0:
         return True
     try:
-        result = len(_np.unique(elements[elements != _np.array([None])])) == 1
+        result = len(_np.unique(elements[elements != _np.array([None])])) <= 1
     except TypeError:
         result = False
     return result
-- 
2.43.0


From e0b2f91c7dd3f357bdbe44e40e272195f452e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:27 +0000
Subject: [PATCH 026/106] fix: agg_stat_event_equalize uses all values of every
 fixed variable

The permuted values were flattened into one list, so that a fixed variable
could be paired with a value of another one and further values were ignored.
---
 metcalcpy/agg_stat_event_equalize.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 9a5d49f..66f773a 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -73,16 +73,11 @@ class AggStatEventEqualize:
         if not self.input_data.empty:
 
             # list all fixed variables
+            fix_vals_permuted = []
             if 'fixed_vars_vals_input' in self.params:
-                fix_vals_permuted_list = []
                 for key in self.params['fixed_vars_vals_input']:
                     vals_permuted = list(itertools.product(*self.params['fixed_vars_vals_input'][key].values()))
-                    fix_vals_permuted_list.append(vals_permuted)
-
-                fix_vals_permuted = [item for sublist in fix_vals_permuted_list for item in sublist]
-
-            else:
-                fix_vals_permuted = []
+                    fix_vals_permuted.append([item for sublist in vals_permuted for item in sublist])
 
             # perform EE for each forecast variable on y1 axis
             output_ee_data = self.run_ee_on_axis(fix_vals_permuted, '1')
-- 
2.43.0


From 12df3dd155cd2d516af67b95f667e6a59711bba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:27 +0000
Subject: [PATCH 027/106] fix: event equalization of two axes considers the
 series values of both

A series variable used on both axes kept only the values of the second axis,
so events missing from a series of the first axis were not removed.
---
 metcalcpy/agg_stat_event_equalize.py | 8 ++++----
 metcalcpy/util/utils.py              | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 66f773a..4cc5b45 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -91,10 +91,10 @@ class AggStatEventEqualize:
                 output_ee_data_2 = output_ee_data_2.drop('equalize', axis=1)
                 warnings.simplefilter(action='error', category=FutureWarning)
                 all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
-                all_series_vars = {}
-                for key in self.params['series_val_2']:
-                    all_series_vars[key] = np.unique(self.params['series_val_2'][key]
-                                                     + self.params['series_val_2'][key])
+                all_series_vars = {**self.params['series_val_1'], **self.params['series_val_2']}
+                for key in all_series_vars:
+                    all_series_vars[key] = np.unique(self.params['series_val_1'].get(key, [])
+                                                     + self.params['series_val_2'].get(key, []))
 
                 output_ee_data = event_equalize(all_ee_records, self.params['indy_var'],
                                                 all_series_vars,
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index c8b9961..0aa94d7 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -792,7 +792,7 @@ def perform_event_equalization(params, input_data):
         # create a single unique dictionary from series for Y1 and Y2 to us in EE
         all_series = {**params['series_val_1'], **params['series_val_2']}
         for key in all_series:
-            all_series[key] = list(set(all_series[key]))
+            all_series[key] = list(set(params['series_val_1'].get(key, []) + params['series_val_2'].get(key, [])))
 
         # run EE on run event equalizer on Y1 and Y2
         output_ee_data = event_equalize(all_ee_records, params['indy_var'],
-- 
2.43.0


From 1d703effb29588d5284e0c37f2cfe32dce3183e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:28 +0000
Subject: [PATCH 028/106] fix: equalized rows are written once when there are
 several series variables

agg_stat_event_equalize and agg_stat_eqz filtered on one series variable at a
time and appended the rows again for each of them.
---
 metcalcpy/agg_stat_eqz.py            | 48 +++++++++++++---------------
 metcalcpy/agg_stat_event_equalize.py | 28 +++++++---------
 2 files changed, 34 insertions(+), 42 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 0102389..9e8a03b 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -109,6 +109,11 @@ class AggStatEventEqz:
 
         output_ee_data = pd.DataFrame()
         for fcst_var, fcst_var_stats in self.params['fcst_var_val_' + axis].items():
+            # filter input data and previous cases on the same fcst_var
+            series_data_for_ee = self.input_data[self.input_data['fcst_var'] == fcst_var]
+            series_data_for_prev_cases = prev_cases[prev_cases['fcst_var'] == fcst_var]
+
+            # and on all series variables values
             for series_var, series_var_vals in self.params['series_val_' + axis].items():
 
                 series_var_vals_no_group = []
@@ -116,31 +121,24 @@ class AggStatEventEqz:
                     split_val = val.split(GROUP_SEPARATOR)
                     series_var_vals_no_group.extend(split_val)
 
-                # filter input data based on fcst_var, statistic and all series variables values
-                series_data_for_ee = self.input_data[
-                    (self.input_data['fcst_var'] == fcst_var)
-                    & (self.input_data[series_var].isin(series_var_vals_no_group))
-                    ]
-                # filter previous cases on the same  fcst_var,
-                # statistic and all series variables values
-                series_data_for_prev_cases = prev_cases[
-                    (prev_cases['fcst_var'] == fcst_var)
-                    & (prev_cases[series_var].isin(series_var_vals_no_group))
-                    ]
-                # get unique cases from filtered previous cases
-
-                series_data_for_prev_cases_unique = series_data_for_prev_cases['equalize'].unique()
-
-                # perform ee
-                series_data_after_ee = event_equalize_against_values(
-                    series_data_for_ee,
-                    series_data_for_prev_cases_unique)
-
-                # append EE data to result
-                if output_ee_data.empty:
-                    output_ee_data = series_data_after_ee
-                else:
-                    output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
+                series_data_for_ee = series_data_for_ee[
+                    series_data_for_ee[series_var].isin(series_var_vals_no_group)]
+                series_data_for_prev_cases = series_data_for_prev_cases[
+                    series_data_for_prev_cases[series_var].isin(series_var_vals_no_group)]
+
+            # get unique cases from filtered previous cases
+            series_data_for_prev_cases_unique = series_data_for_prev_cases['equalize'].unique()
+
+            # perform ee
+            series_data_after_ee = event_equalize_against_values(
+                series_data_for_ee,
+                series_data_for_prev_cases_unique)
+
+            # append EE data to result
+            if output_ee_data.empty:
+                output_ee_data = series_data_after_ee
+            else:
+                output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
         return output_ee_data
 
 
diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 4cc5b45..517d9a9 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -117,7 +117,7 @@ class AggStatEventEqualize:
                A data frame that contains equalized records
        """
 
-        output_ee_data = pd.DataFrame()
+        series_data_for_ee = self.input_data
         for series_var, series_var_vals in self.params['series_val_' + axis].items():
             # ungroup series value
             series_var_vals_no_group = []
@@ -125,23 +125,17 @@ class AggStatEventEqualize:
                 split_val = val.split(GROUP_SEPARATOR)
                 series_var_vals_no_group.extend(split_val)
 
-            # filter input data based on fcst_var, statistic and all series variables values
-            series_data_for_ee = self.input_data[
-                self.input_data[series_var].isin(series_var_vals_no_group)
+            # filter input data based on all series variables values
+            series_data_for_ee = series_data_for_ee[
+                series_data_for_ee[series_var].isin(series_var_vals_no_group)
             ]
-            # perform EE on filtered data
-            series_data_after_ee = \
-                event_equalize(series_data_for_ee, self.params['indy_var'],
-                               self.params['series_val_' + axis],
-                               list(self.params['fixed_vars_vals_input'].keys()),
-                               fix_vals_permuted, True, False)
-
-            # append EE data to result
-            if output_ee_data.empty:
-                output_ee_data = series_data_after_ee
-            else:
-                warnings.simplefilter(action="error", category=FutureWarning)
-                output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
+
+        # perform EE on filtered data
+        output_ee_data = \
+            event_equalize(series_data_for_ee, self.params['indy_var'],
+                           self.params['series_val_' + axis],
+                           list(self.params['fixed_vars_vals_input'].keys()),
+                           fix_vals_permuted, True, False)
 
         return output_ee_data
 
-- 
2.43.0


From ce19cc7660211c43f46c77b5cd72791277556e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:48 +0000
Subject: [PATCH 029/106] fix: event equalization keeps the rows of a numeric
 series variable

The values are given as text and never matched a column of integers, which
discarded all the data.
---
 metcalcpy/util/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 0aa94d7..61fa454 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -704,6 +704,8 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
                         if len(split_val) == 0:
                             split_val = val.split(GROUP_SEPARATOR)
                         series_var_vals_no_group.extend(split_val)
+                        # a column of numbers is read as numbers
+                        series_var_vals_no_group.extend(int(item) for item in split_val if is_string_integer(item))
 
                     # filter input data based on fcst_var, statistic
                     # and all series variables values
-- 
2.43.0


From e11e402699e17f08ddbefa7ae3d4246ded9c27e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:00 +0000
Subject: [PATCH 030/106] fix: agg_stat weights the rows of FE by their totals

---
 metcalcpy/agg_stat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 0579e22..2a9b1be 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -131,6 +131,7 @@ class AggStat:
         'oobar': ['oobar'],
         'mae': ['mae'],
         'mbias': ['obar', 'fbar'],
+        'fe': ['obar', 'fbar'],
         'corr': ['ffbar', 'fbar', 'oobar', 'obar', 'fobar'],
         'anom_corr': ['ffabar', 'fabar', 'ooabar', 'oabar', 'foabar'],
         'anom_corr_raw': ['ffabar', 'ooabar', 'foabar'],
-- 
2.43.0


From 70d6ba1d8b3063131f0ba4bae38589672bf8cefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:00 +0000
Subject: [PATCH 031/106] fix: agg_stat weights the rows of VL1L2_FSPD and
 VL1L2_OSPD by their totals

---
 metcalcpy/agg_stat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 2a9b1be..d8fecbe 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -180,6 +180,8 @@ class AggStat:
         'vl1l2_bias': ['uvffbar', 'uvoobar'],
         'vl1l2_fvar': ['uvffbar', 'f_speed_bar'],
         'vl1l2_ovar': ['uvoobar', 'o_speed_bar'],
+        'vl1l2_fspd': ['ufbar', 'vfbar'],
+        'vl1l2_ospd': ['uobar', 'vobar'],
         'vl1l2_speed_err': ['ufbar', 'vfbar', 'uobar', 'vobar'],
         'vl1l2_rmsve': ['uvffbar', 'uvfobar', 'uvoobar'],
         'vl1l2_msve': ['uvffbar', 'uvfobar', 'uvoobar'],
-- 
2.43.0


From 10f2d4a7240f21e719a7606843f7ab3e8ce4caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:00 +0000
Subject: [PATCH 032/106] fix: ECNT_SPREAD_PLUS_OERR is computed from the
 spread plus observation error

---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index d8fecbe..63ac348 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -491,7 +491,7 @@ class AggStat:
 
         variance = data_for_prepare['spread'].values * data_for_prepare['spread'].values
         variance_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
-        variance_plus_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
+        variance_plus_oerr = data_for_prepare['spread_plus_oerr'].values * data_for_prepare['spread_plus_oerr'].values
 
         data_for_prepare['mse'] = mse * data_for_prepare['total'].values
         data_for_prepare['mse_oerr'] = mse_oerr * data_for_prepare['total'].values
-- 
2.43.0


From 15529a96aff4003b5e7d21011c3116408ab0b0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:00 +0000
Subject: [PATCH 033/106] fix: agg_stat weights the observed rate of NBRCNT
 rows by their totals

---
 metcalcpy/agg_stat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 63ac348..f645ad5 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -555,6 +555,7 @@ class AggStat:
         data_for_prepare['fbs'] = fbs
         data_for_prepare['fss'] = fss_den
         data_for_prepare['f_rate'] = f_rate
+        data_for_prepare['o_rate'] = total * data_for_prepare['o_rate'].values
 
     def _prepare_pct_data(self, data_for_prepare):
         """Prepares pct data.
-- 
2.43.0


From ab06bb03d70414e6e56747ac89e4f93bbee45220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:00 +0000
Subject: [PATCH 034/106] fix: agg_stat can calculate SSVAR_TOTAL

---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index f645ad5..8b721ef 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -535,7 +535,7 @@ class AggStat:
         data_for_prepare.rename(columns={"total": "total_orig", "bin_n": "total"}, inplace=True)
         self.column_names = data_for_prepare.columns.values
 
-        for column in self.STATISTIC_TO_FIELDS[self.statistic]:
+        for column in self.STATISTIC_TO_FIELDS.get(self.statistic, []):
             data_for_prepare[column] \
                 = data_for_prepare[column].values * data_for_prepare['total'].values
 
-- 
2.43.0


From 33628f1a97a4a549f3f88d65f245b549946cb02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:31 +0000
Subject: [PATCH 035/106] fix: BCRMSE is missing instead of raising when
 rounding makes BCMSE negative

---
 metcalcpy/util/sl1l2_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index cfb89e9..f6ff27d 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -552,7 +552,7 @@ def calculate_bcrmse(input_data, columns_names, aggregation=False):
     try:
         result = np.sqrt(calculate_bcmse(input_data, columns_names, aggregation))
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
-- 
2.43.0


From 07b46e0182341d137d8a901cf6381410ba4f2121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:18 +0000
Subject: [PATCH 036/106] fix: contingency counts of aggregated fields are
 summed

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 61fa454..139b5e7 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -587,7 +587,7 @@ def calc_series_sums(input_df, line_type):
         column_names = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']
         for column in column_names:
             sums_data_frame[column] = [sum_column_data_by_name(input_df.to_numpy(),
-                                                               column_names, column_names)]
+                                                               input_df.columns, column)]
 
     elif line_type == 'sl1l2':
         column_names = ['fbar', 'obar', 'fobar', 'ffbar', 'oobar']
-- 
2.43.0


From 6bba6d4bfc98dfc87593d44a723608f6331f79cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:18 +0000
Subject: [PATCH 037/106] fix: aggregating a field skips the times that have no
 rows

---
 metcalcpy/util/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 139b5e7..5ebf165 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -492,6 +492,9 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                                 & (input_data_frame.fcst_lead == lead)
                                 & (input_data_frame[series_var].isin(single_values))
                                 ]
+                            # there is nothing to aggregate for this valid and lead
+                            if rows_for_agg.empty:
+                                continue
                             rows_indexes = rows_for_agg.index.values
                             # reset indexes
                             rows_for_agg.reset_index(inplace=True, drop=True)
@@ -529,6 +532,10 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                             & (input_data_frame[series_var].isin(single_values_int))
                             ]
 
+                        # there is nothing to aggregate for this valid
+                        if rows_for_agg.empty:
+                            continue
+
                         rows_indexes = rows_for_agg.index.values
 
                         # reset indexes
-- 
2.43.0


From 02aebaecb82d41f3265597e673d816d88040c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:48 +0000
Subject: [PATCH 038/106] fix: event equalization and aggregation no longer
 turn all later warnings of the program into errors

---
 metcalcpy/agg_stat_eqz.py            | 3 ---
 metcalcpy/agg_stat_event_equalize.py | 2 --
 metcalcpy/sum_stat.py                | 3 ---
 metcalcpy/util/utils.py              | 4 ----
 4 files changed, 12 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 9e8a03b..8ec5c51 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -36,7 +36,6 @@ import sys
 import logging
 import pandas as pd
 import yaml
-import warnings
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize_against_values import event_equalize_against_values
@@ -105,8 +104,6 @@ class AggStatEventEqz:
             Returns:
                 A data frame that contains equalized records
         """
-        warnings.filterwarnings('error')
-
         output_ee_data = pd.DataFrame()
         for fcst_var, fcst_var_stats in self.params['fcst_var_val_' + axis].items():
             # filter input data and previous cases on the same fcst_var
diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 517d9a9..b82e69c 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -37,7 +37,6 @@ import itertools
 import pandas as pd
 import yaml
 import numpy as np
-import warnings
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize import event_equalize
@@ -89,7 +88,6 @@ class AggStatEventEqualize:
 
                 output_ee_data = output_ee_data.drop('equalize', axis=1)
                 output_ee_data_2 = output_ee_data_2.drop('equalize', axis=1)
-                warnings.simplefilter(action='error', category=FutureWarning)
                 all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
                 all_series_vars = {**self.params['series_val_1'], **self.params['series_val_2']}
                 for key in all_series_vars:
diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 1b7030d..81aabac 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -38,7 +38,6 @@ import time
 import logging
 import yaml
 import pandas as pd
-import warnings
 from inspect import signature
 
 from metcalcpy import GROUP_SEPARATOR
@@ -184,8 +183,6 @@ class SumStat:
         Args:
             axis - y1 or y1 axis
         """
-        warnings.filterwarnings('error')
-
         # check if indy_vals have a field that need to be aggregated - the field with ';'
         has_agg_indy_field = any(any(GROUP_SEPARATOR in i for i in item) for item in self.params['indy_vals'])
 
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 5ebf165..718856b 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -22,7 +22,6 @@ import statistics as st
 import numpy as np
 import pandas as pd
 from pandas import DataFrame
-import warnings
 
 from scipy import stats
 from scipy.stats import t, nct
@@ -470,8 +469,6 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                 Pandas DataFrame with aggregates statistics
             """
 
-    warnings.filterwarnings('error')
-
     # get unique values for valid date/time and lead time
     unique_valid = input_data_frame.fcst_valid_beg.unique()
     unique_lead = input_data_frame.fcst_lead.unique()
@@ -738,7 +735,6 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
             if output_ee_data.empty:
                 output_ee_data = series_data_after_ee
             else:
-                warnings.simplefilter(action="error", category=FutureWarning)
                 output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
 
     try:
-- 
2.43.0


From 8bf822aace35c4320e5e8808dbd1a4b24f4744c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:46 +0000
Subject: [PATCH 039/106] fix: sum_stat calculates the statistics of SAL1L2
 rows

---
 metcalcpy/sum_stat.py   | 13 ++-----------
 metcalcpy/util/utils.py | 14 ++++----------
 2 files changed, 6 insertions(+), 21 deletions(-)

diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 81aabac..a850cd4 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -44,6 +44,7 @@ from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.util.ctc_statistics import *
 from metcalcpy.util.grad_statistics import *
 from metcalcpy.util.sl1l2_statistics import *
+from metcalcpy.util.sal1l2_statistics import *
 from metcalcpy.util.val1l2_statistics import *
 from metcalcpy.util.vcnt_statistics import *
 from metcalcpy.util.vl1l2_statistics import *
@@ -106,7 +107,7 @@ class SumStat:
     STATISTIC_TO_FIELDS = {'ctc': {"total", "fy_oy", "fy_on", "fn_oy", "fn_on"},
                            'sl1l2': {"total", "fbar", "obar", "fobar", "ffbar", "oobar"},
                            'grad': {"total", "fgbar", "ogbar", "mgbar", "egbar"},
-                           'sal1l2': {"total", "fbar", "obar", "fobar", "ffbar", "oobar"},
+                           'sal1l2': {"total", "fabar", "oabar", "foabar", "ffabar", "ooabar"},
                            'vl1l2': {"total", "ufbar", "vfbar", "uobar", "vobar", "uvfobar",
                                      "uvffbar", "uvoobar", "f_speed_bar", "o_speed_bar"},
                            'val1l2': {"total", "ufabar", "vfabar", "uoabar", "voabar",
@@ -126,16 +127,6 @@ class SumStat:
         try:
             fields = self.STATISTIC_TO_FIELDS[self.params['line_type']]
 
-            # change names for sal1l2 so we can reuse sl1l2 statistics
-            if self.params['line_type'] == 'sal1l2':
-                self.input_data = self.input_data.rename(columns={'fabar': 'fbar',
-                                                                  'oabar': 'obar',
-                                                                  'foabar': 'fobar',
-                                                                  'ffabar': 'ffbar',
-                                                                  'ooabar': 'oobar'
-                                                                  })
-                self.column_names = self.input_data.columns.values
-
             # perform EE if needed
             is_event_equal = parse_bool(self.params['event_equal'])
             if is_event_equal:
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 718856b..c358adf 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -600,16 +600,10 @@ def calc_series_sums(input_df, line_type):
                                        / total]
 
     elif line_type == 'sal1l2':
-        sums_data_frame['fbar'] = [np.nansum(input_df['fabar'] * input_df.total.astype(float))
-                                   / total]
-        sums_data_frame['obar'] = [np.nansum(input_df['oabar'] * input_df.total.astype(float))
-                                   / total]
-        sums_data_frame['fobar'] = [np.nansum(input_df['foabar'] * input_df.total.astype(float))
-                                    / total]
-        sums_data_frame['ffbar'] = [np.nansum(input_df['ffabar'] * input_df.total.astype(float))
-                                    / total]
-        sums_data_frame['oobar'] = [np.nansum(input_df['ooabar'] * input_df.total.astype(float))
-                                    / total]
+        column_names = ['fabar', 'oabar', 'foabar', 'ffabar', 'ooabar']
+        for column in column_names:
+            sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
+                                       / total]
 
     elif line_type == 'vl1l2':
         column_names = ['ufbar', 'vfbar', 'uobar', 'vobar', 'uvfobar',
-- 
2.43.0


From 13f7088671e3032c134e494a1f81161764c6ccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:46 +0000
Subject: [PATCH 040/106] fix: MAE of aggregated SL1L2 fields is the pooled one

---
 metcalcpy/util/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index c358adf..992b392 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -594,8 +594,8 @@ def calc_series_sums(input_df, line_type):
                                                                input_df.columns, column)]
 
     elif line_type == 'sl1l2':
-        column_names = ['fbar', 'obar', 'fobar', 'ffbar', 'oobar']
-        for column in column_names:
+        column_names = ['fbar', 'obar', 'fobar', 'ffbar', 'oobar', 'mae']
+        for column in intersection(column_names, input_df.columns):
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
 
-- 
2.43.0


From 684755631d060a6a7e9e8ade9576361ffb30371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:59 +0000
Subject: [PATCH 041/106] fix: aggregated ECNT and RPS fields hold the pooled
 RMSE, spread and skill score

---
 metcalcpy/util/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 992b392..f76fd2c 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -651,8 +651,12 @@ def calc_series_sums(input_df, line_type):
         sums_data_frame['mse'] = [np.nansum(input_df['total'] * mse) / total]
         sums_data_frame['mse_oerr'] = [np.nansum(input_df['total'] * mse_oerr) / total]
         sums_data_frame['crps_climo'] = [np.nansum(input_df['total'] * crps_climo) / total]
-        column_names = ['me', 'crps', 'ign', 'spread', 'me_oerr', 'spread_oerr', 'spread_plus_oerr']
-        for column in column_names:
+        # these fields are pooled as mean squares
+        for column in ['rmse', 'rmse_oerr', 'spread', 'spread_oerr', 'spread_plus_oerr']:
+            sums_data_frame[column] = [np.sqrt(np.nansum(input_df['total'] * input_df[column] ** 2) / total)]
+        column_names = ['me', 'crps', 'ign', 'me_oerr', 'crpscl', 'mae', 'mae_oerr', 'crps_emp', 'crpscl_emp',
+                        'crps_emp_fair', 'spread_md']
+        for column in intersection(column_names, input_df.columns):
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
     elif line_type == 'rps':
@@ -663,6 +667,7 @@ def calc_series_sums(input_df, line_type):
                                        / total]
         sums_data_frame['rps_climo'] = [np.nansum(d_rps_climo * input_df.total.astype(float))
                                         / total]
+        sums_data_frame['rpss'] = 1 - sums_data_frame['rps'] / sums_data_frame['rps_climo']
 
     return sums_data_frame
 
-- 
2.43.0


From e39341cb4306eb51cd903caa012ee70cdb2e5340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:57 +0000
Subject: [PATCH 042/106] fix: sum_stat calculates ECNT RMSE and spread, RPSS
 and NBR_FSS of a row

---
 metcalcpy/sum_stat.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index a850cd4..086eca3 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -230,12 +230,39 @@ class SumStat:
             self.input_data = aggregated_values
             self.input_data.reset_index(inplace=True, drop=True)
 
+    def prepare_rows(self):
+        """Adds to a copy of the data frame the fields that are not in the line type
+            but are used by the statistics
+
+            Returns:
+                the data frame for the statistics calculation
+        """
+        data = self.input_data.copy()
+        if self.params['line_type'] == 'ecnt':
+            for column, root in {'mse': 'rmse', 'mse_oerr': 'rmse_oerr', 'variance': 'spread',
+                                 'variance_oerr': 'spread_oerr',
+                                 'variance_plus_oerr': 'spread_plus_oerr'}.items():
+                if root in data:
+                    data[column] = data[root] * data[root]
+            for column, count in {'me_ge_obs': 'n_ge_obs', 'me_lt_obs': 'n_lt_obs'}.items():
+                if column in data and count in data:
+                    data[column] = data[column] * data[count]
+        elif self.params['line_type'] == 'rps' and 'rpss' in data:
+            data['rps_climo'] = data['rps'] / (1 - data['rpss'])
+        elif self.params['line_type'] == 'nbrcnt':
+            data['fss'] = data['fbs'] / (1 - data['fss'])
+        return data
+
     def process_rows(self):
         """For each row in the data frame finds the row statistic name,
             calculates it's value  and stores this value in the corresponding column
         """
 
-        for index, row in self.input_data.iterrows():
+        # a copy of the data with the fields the statistics are calculated from
+        prepared_data = self.prepare_rows()
+        prepared_columns = prepared_data.columns.values
+
+        for index, row in prepared_data.iterrows():
             # statistic name
             stat = row['stat_name'].lower()
 
@@ -243,7 +270,7 @@ class SumStat:
             row_array = np.expand_dims(row.to_numpy(), axis=0)
 
             # calculate the stat value
-            stat_value = [calculate_statistic(row_array, self.column_names, stat)][0]
+            stat_value = [calculate_statistic(row_array, prepared_columns, stat)][0]
 
             # save the value to the 'stat_value' column
             self.input_data.at[index, 'stat_value'] = stat_value
-- 
2.43.0


From a4dbd9afeac600692a53fd3fbf26a8c06acad4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:57 +0000
Subject: [PATCH 043/106] fix: aggregated ECNT fields pool the errors above and
 below the observation

---
 metcalcpy/util/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index f76fd2c..e0aee43 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -659,6 +659,12 @@ def calc_series_sums(input_df, line_type):
         for column in intersection(column_names, input_df.columns):
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
+        # these fields are pooled with the number of their own pairs
+        for column, count in {'me_ge_obs': 'n_ge_obs', 'me_lt_obs': 'n_lt_obs'}.items():
+            if column in input_df and count in input_df:
+                sums_data_frame[count] = [input_df[count].sum()]
+                sums_data_frame[column] = [np.nansum(input_df[column] * input_df[count])
+                                           / max(input_df[count].sum(), 1)]
     elif line_type == 'rps':
         d_rps_climo = input_df['rps'] / (1 - input_df['rpss'])
         sums_data_frame['rps'] = [np.nansum(input_df["rps"] * input_df.total.astype(float))
-- 
2.43.0


From 473ea870fb2976c2596f6c85ba8d7905d2003be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:04 +0000
Subject: [PATCH 044/106] fix: agg_stat_bootstrap finds the output row of
 grouped and numeric series values

---
 metcalcpy/agg_stat_bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 5547e9d..d51419a 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -192,7 +192,7 @@ class AggStatBootstrap:
                                     filter_list[i] = float(filter_val)
 
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
-                            out_frame_filter.append((out_frame[field].isin(filter_list)))
+                            out_frame_filter.append((out_frame[field] == filter_value))
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
                         mask_out_frame = np.array(out_frame_filter).all(axis=0)
-- 
2.43.0


From 7b84c24fdb0291b6b9d509d36b1c6da11bb9f7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:04 +0000
Subject: [PATCH 045/106] fix: agg_stat_bootstrap writes each statistic to its
 own output row

---
 metcalcpy/agg_stat_bootstrap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index d51419a..3109df1 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -193,6 +193,7 @@ class AggStatBootstrap:
 
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
                             out_frame_filter.append((out_frame[field] == filter_value))
+                        out_frame_filter.append((out_frame['stat_name'] == stat_upper))
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
                         mask_out_frame = np.array(out_frame_filter).all(axis=0)
-- 
2.43.0


From 1334b5376a15a4db55c9ab6e05faf45273ddf4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:04 +0000
Subject: [PATCH 046/106] fix: agg_stat_bootstrap uses only the objects of the
 requested variable

---
 metcalcpy/agg_stat_bootstrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 3109df1..1c24f00 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -194,6 +194,9 @@ class AggStatBootstrap:
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
                             out_frame_filter.append((out_frame[field] == filter_value))
                         out_frame_filter.append((out_frame['stat_name'] == stat_upper))
+                        # add fcst var
+                        if fcst_var is not None:
+                            all_filters.append((filtered_by_indy_data['fcst_var'].isin([fcst_var])))
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
                         mask_out_frame = np.array(out_frame_filter).all(axis=0)
-- 
2.43.0


From c6980dbeb8d0e215199d8e69150919b0354760a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:04 +0000
Subject: [PATCH 047/106] fix: agg_stat_bootstrap resamples the cases of one
 independent value at a time

---
 metcalcpy/agg_stat_bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 1c24f00..120339a 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -118,12 +118,12 @@ class AggStatBootstrap:
             if len(self.params['fcst_var_val_' + axis]) > 0 and 'fcst_var' in self.input_data.columns:
                 fcst_var = list(self.params['fcst_var_val_' + axis].keys())[0]
 
-            cases = []
             out_frame = self._init_out_frame(all_fields_values.keys(), all_points)
             point_to_distrib = {}
 
             # run the bootstrap flow for each independent variable value
             for indy_val in indy_vals:
+                cases = []
                 # extract the records for the current indy value
                 if is_string_integer(indy_val):
                     filtered_by_indy_data = \
-- 
2.43.0


From 5eb93f0ce65a3c02b0c04793fbd32199662c9ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:30 +0000
Subject: [PATCH 048/106] fix: agg_stat_bootstrap resamples statistics of all
 objects without raising

---
 metcalcpy/agg_stat_bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 120339a..0008b2e 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -272,7 +272,7 @@ class AggStatBootstrap:
             stat_values = []
             for row in cases:
                 values_ind = self.series_data['case'].isin(row.flatten())
-                values = self.series_data[values_ind]
+                values = self.series_data[values_ind].to_numpy()
                 stat_values.append([globals()[func_name](values, self.column_names)])
         else:
             raise KeyError("can't calculate statistic")
-- 
2.43.0


From e40fde2e0fac2e253efa0567d96b7bf684ea4131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:57 +0000
Subject: [PATCH 049/106] fix: lag-one coefficient is the least-squares slope

The first term divided by the sum of the lagged deviations where the
square of that sum belongs, so the coefficient depended on the units of
the data.
---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index e0aee43..138aef0 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1392,4 +1392,4 @@ def autocor_coef(data: list) -> Union[None, float]:
     sxy = sum(xy)
 
     n = len(data_valid)
-    return sx * sy / (sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
+    return sx * sy / (sx * sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
-- 
2.43.0


From 1af651f4453e8c911ec07e8833bc3be660654b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:57 +0000
Subject: [PATCH 050/106] fix: standard errors of a linear trend and of a
 series with one late step

Both ended with a division by zero in the autocorrelation coefficient or
in the variance inflation factor.
---
 metcalcpy/util/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 138aef0..899a2c3 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -879,9 +879,12 @@ def compute_std_err_from_mean(data):
         # Compute the first order auto-correlation coefficient.
         ar_1 = autocor_coef(data)
 
+        if ar_1 is None:
+            ar_1 = 0.0
+
         # Compute a variance inflation factor
         # (having removed that portion of the time series that was correlated).
-        ratio = (1 + ar_1) / (1 - ar_1)
+        ratio = (1 + ar_1) / (1 - ar_1) if ar_1 != 1 else 1.0
 
         # Check for a zero RATIO, that will then be operated on by SQRT.
         # If necessary, try a different arima method, or just set RATIO to one.
@@ -953,9 +956,12 @@ def compute_std_err_from_median_variance_inflation_factor(data):
 
         ar_1 = autocor_coef(data)
 
+        if ar_1 is None:
+            ar_1 = 0
+
         # Compute an variance inflation factor
         # (having removed that portion of the time series that was correlated).
-        ratio = (1 + ar_1) / (1 - ar_1)
+        ratio = (1 + ar_1) / (1 - ar_1) if ar_1 != 1 else 1.0
 
         # Check for a zero RATIO, that will then be operated on by SQRT.
         if ratio < 0.0:
@@ -1376,6 +1382,9 @@ def autocor_coef(data: list) -> Union[None, float]:
 
     x_i = data_valid[0: len(data_valid) - 1]
     y_i = data_valid[1: len(data_valid)]
+    # the slope is not defined if all lagged values are the same
+    if min(x_i) == max(x_i):
+        return None
     data_mean = st.mean(data_valid)
 
     x = [x - data_mean for x in x_i]
-- 
2.43.0


From 330a8a171cb94916f562d3b6b47d3e7181ddbb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:41 +0000
Subject: [PATCH 051/106] fix: standard errors of a series with missing values

A missing value ended the calculation or made the standard error 0. The
spread and the number of values now only use the valid values.
---
 metcalcpy/util/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 899a2c3..51c189a 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -872,10 +872,10 @@ def compute_std_err_from_mean(data):
     Returns: Standard Error, variance inflation factor flag, AR1 coefficient, the length of data
     """
     ratio_flag = 0
-    variance = st.variance(data)
+    data_without_non = [x for x in data if x is not None and not np.isnan(x)]
+    variance = st.variance(data_without_non)
 
-    number_of_none = sum(x is None for x in data)
-    if variance > 0.0 and (len(data) - number_of_none) > 2:
+    if variance > 0.0 and len(data_without_non) > 2:
         # Compute the first order auto-correlation coefficient.
         ar_1 = autocor_coef(data)
 
@@ -899,7 +899,7 @@ def compute_std_err_from_mean(data):
             variance_inflation_factor = 1.0
 
         # Compute the Standard Error using the variance inflation factor.
-        std_err = variance_inflation_factor * math.sqrt(variance) / math.sqrt(len(data))
+        std_err = variance_inflation_factor * math.sqrt(variance) / math.sqrt(len(data_without_non))
 
     else:
         std_err = 0.0
@@ -975,8 +975,8 @@ def compute_std_err_from_median_variance_inflation_factor(data):
             variance_inflation_factor = 1.0
 
         # Compute the Standard Error using the variance inflation factor.
-        iqr = stats.iqr(data, interpolation='linear')
-        std_err = variance_inflation_factor * (iqr * math.sqrt(math.pi / 2.)) / (1.349 * math.sqrt(len(data)))
+        std_err = variance_inflation_factor * (iqr * math.sqrt(math.pi / 2.)) \
+                  / (1.349 * math.sqrt(len(data_without_non)))
 
     else:
         std_err = 0.0
@@ -995,8 +995,9 @@ def compute_std_err_from_sum(data):
     """
     std_err = compute_std_err_from_mean(data)
 
-    # multiply Standard Error by data size
-    return std_err[0] * len(data), std_err[1], std_err[2], std_err[3]
+    # multiply Standard Error by the number of valid values
+    number_of_none = sum(x is None or np.isnan(x) for x in data)
+    return std_err[0] * (len(data) - number_of_none), std_err[1], std_err[2], std_err[3]
 
 
 def convert_lon_360_to_180(longitude):
-- 
2.43.0


From 789c895afb025daca561af561d62b4c989b15465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:41 +0000
Subject: [PATCH 052/106] fix: runs test and autocorrelation of a constant
 series

A series without values on both sides of the threshold ended with a
division by zero; its results are now missing.
---
 metcalcpy/util/correlation.py              | 3 ++-
 metcalcpy/util/wald_wolfowitz_runs_test.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/correlation.py b/metcalcpy/util/correlation.py
index 5f002b7..0a4b264 100644
--- a/metcalcpy/util/correlation.py
+++ b/metcalcpy/util/correlation.py
@@ -324,7 +324,8 @@ def acf(x: Union[list, np.array], acf_type: str = 'correlation', lag_max: Union[
         if acf_type == 'covariance':
             acf_result.append(cov)
         elif acf_type == 'correlation':
-            acf_result.append(cov / cov_0)
+            # not defined for a constant series
+            acf_result.append(cov / cov_0 if cov_0 != 0 else math.nan)
     return acf_result
 
 
diff --git a/metcalcpy/util/wald_wolfowitz_runs_test.py b/metcalcpy/util/wald_wolfowitz_runs_test.py
index 73c4a98..4563ae1 100644
--- a/metcalcpy/util/wald_wolfowitz_runs_test.py
+++ b/metcalcpy/util/wald_wolfowitz_runs_test.py
@@ -42,7 +42,7 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
         'statistic': None,
         'p_value': None,
         'runs': None,
-        'mean_value ': None,
+        'mean_value': None,
         'variance': None
     }
     if alternative != "two.sided" and alternative != "left.sided" and alternative != "right.sided":
@@ -78,6 +78,9 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
         elif run[0] == -1:
             r2 += 1
     n = n1 + n2
+    # the test is not defined without values on both sides of the threshold
+    if n1 == 0 or n2 == 0 or n == 2:
+        return result
     mean_value = 1 + 2 * n1 * n2 / (n1 + n2)
     variance = 2 * n1 * n2 * (2 * n1 * n2 - n1 - n2) / (n * n * (n - 1))
     rr = r1 + r2
-- 
2.43.0


From 6d3be3f5ce09e205479ff69c295c66f2eeba93ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:41 +0000
Subject: [PATCH 053/106] fix: equivalence test with a p-value of zero

A p-value that is exactly zero was taken for a missing one and the
outcome was lost.
---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 51c189a..e4b012c 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1240,7 +1240,7 @@ def tost_paired(n: int, m1: float, m2: float, sd1: float, sd2: float, r12: float
     xlim_l = min(ll90, low_eqbound) - max(ul90 - ll90, high_eqbound - low_eqbound) / 10
     xlim_u = max(ul90, high_eqbound) + max(ul90 - ll90, high_eqbound - low_eqbound) / 10
 
-    if pttest and ptost:
+    if pttest is not None and ptost is not None:
         if pttest <= alpha and ptost <= alpha:
             combined_outcome = 'diff_eqv'
 
-- 
2.43.0


From b6f9359cfb85e0e4ab76bf16f2bac56af84a1a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:21 +0000
Subject: [PATCH 054/106] fix: vertical interpolation between the two uppermost
 surfaces

The weight of the uppermost surface was set back to 0 for every point
below it, so the interpolated value only held the share of the surface
underneath.
---
 metcalcpy/vertical_interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 8cbba86..a8b5581 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -201,7 +201,8 @@ def vertical_interp(fieldname, config,
         # where top most layer is below eta
         layer_below = below.loc[{lev_dim: vertical_coord[nlev - 1]}]
         weights.loc[{lev_dim: vertical_coord[nlev - 1]}] \
-            = xr.where(layer_below, 1, 0)
+            = xr.where(layer_below, 1,
+                       weights.loc[{lev_dim: vertical_coord[nlev - 1]}])
 
         """
         Compute weighted sum
-- 
2.43.0


From 35cb74d37f30aba64cdee80ce67009b763d45860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:21 +0000
Subject: [PATCH 055/106] fix: vertical interpolation onto a level that
 coincides with a surface

Such a point was neither above nor below any surface and became missing.
---
 metcalcpy/vertical_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index a8b5581..e17c62d 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -167,7 +167,7 @@ def vertical_interp(fieldname, config,
 
         distances = eta - length_convert * coordinate_surfaces
         above = distances < 0
-        below = distances > 0
+        below = distances >= 0
 
         """
         Compute weights for linear interpolation
-- 
2.43.0


From 0dabaa4469259d2b4a9f7e21f0ec7f18cdb37d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:21 +0000
Subject: [PATCH 056/106] fix: vertical interpolation with levels and surfaces
 in different units

The factor that brings the surfaces to the units of the levels was
inverted.
---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index e17c62d..fa17fc2 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -146,8 +146,8 @@ def vertical_interp(fieldname, config,
     try:
         logging.debug(coordinate_surfaces.attrs['units'])
         logging.debug(config['vertical_level_units'])
-        length_convert = float((ureg.Quantity(1, config['vertical_level_units'])
-                       / ureg.Quantity(1, coordinate_surfaces.attrs['units'])).to_base_units())
+        length_convert = float((ureg.Quantity(1, coordinate_surfaces.attrs['units'])
+                       / ureg.Quantity(1, config['vertical_level_units'])).to_base_units())
     except pint.errors.UndefinedUnitError:
         logging.warning('Unknown unit:' + coordinate_surfaces.attrs['units'])
         length_convert = 1
-- 
2.43.0


From fe8b27295059596585df9258c47980f011150688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:21 +0000
Subject: [PATCH 057/106] fix: layer heights where the surface pressure equals
 a pressure level

No layer contained the surface, so the heights of the whole column were
missing.
---
 metcalcpy/vertical_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index fa17fc2..709b3e1 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -400,7 +400,7 @@ def height_from_pressure(config,
         surface_mask.loc[{lev_dim: pressure_coord[k]}] \
             = np.logical_and(
             pressure.loc[{lev_dim: pressure_coord[k - 1]}]
-            > pressure_convert * surface_pressure,
+            >= pressure_convert * surface_pressure,
             pressure.loc[{lev_dim: pressure_coord[k]}]
             < pressure_convert * surface_pressure)
 
-- 
2.43.0


From 3813cdf17e986b5c15475348a24eee573ffef970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:21 +0000
Subject: [PATCH 058/106] fix: height of the first layer above elevated terrain

The full distance between two pressure levels was added to the surface
height although the surface lies between them. Only the part above the
surface pressure belongs to the layer, as for the lowest level.
---
 metcalcpy/vertical_interp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 709b3e1..31029b3 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -406,7 +406,11 @@ def height_from_pressure(config,
 
         layer_height.loc[{lev_dim: pressure_coord[k]}] \
             = xr.where(surface_mask.loc[{lev_dim: pressure_coord[k]}],
-                surface_height + layer_thickness.loc[{lev_dim: pressure_coord[k]}],
+                surface_height + layer_thickness.loc[{lev_dim: pressure_coord[k]}]
+                * np.log(pressure_convert * surface_pressure
+                         / pressure.loc[{lev_dim: pressure_coord[k]}])
+                / np.log(pressure.loc[{lev_dim: pressure_coord[k - 1]}]
+                         / pressure.loc[{lev_dim: pressure_coord[k]}]),
                 layer_height.loc[{lev_dim: pressure_coord[k - 1]}]
                 + layer_thickness.loc[{lev_dim: pressure_coord[k]}])
 
-- 
2.43.0


From cb16f22563592aa84177f8a6553133e7ca1c53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:09 +0000
Subject: [PATCH 059/106] fix: meridional mean uses the given latitude limits

The limits were checked and then replaced by 60 and 90 degrees.
---
 metcalcpy/pre_processing/directional_means.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/pre_processing/directional_means.py b/metcalcpy/pre_processing/directional_means.py
index 1db3c88..579e03e 100644
--- a/metcalcpy/pre_processing/directional_means.py
+++ b/metcalcpy/pre_processing/directional_means.py
@@ -57,6 +57,6 @@ def meridional_mean(dat, lat1, lat2, dimvar='latitude'):
     elif lat1 == lat2:
         raise ValueError('lat1 is equal to lat2, but it must be less than lat2')
 
-    wgts = np.cos(np.deg2rad(dat[dimvar].where((dat[dimvar] >= 60) & (dat[dimvar] <= 90),drop=True)))
+    wgts = np.cos(np.deg2rad(dat[dimvar].where((dat[dimvar] >= lat1) & (dat[dimvar] <= lat2),drop=True)))
 
-    return dat.where((dat[dimvar] >= 60) & (dat[dimvar] <= 90),drop=True).weighted(wgts).mean(dimvar)
+    return dat.where((dat[dimvar] >= lat1) & (dat[dimvar] <= lat2),drop=True).weighted(wgts).mean(dimvar)
-- 
2.43.0


From 40ff248dec14fae2d3e768c482f4153cd82984f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:09 +0000
Subject: [PATCH 060/106] fix: zonal wave covariance ended with an undefined
 name

---
 metcalcpy/pre_processing/waves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index d75cc3f..346a59a 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -251,7 +251,7 @@ def zonal_wave_covariance(dat1, dat2, dimvar1='longitude', dimvar2='longitude',
     * Check for consistency between dat1 and dat2 and throw errors
     """
 
-    nlons = dat1[dimvar].size
+    nlons = dat1[dimvar1].size
 
     fc1 = zonal_wave_coeffs(dat1, dimvar1, waves=waves, fftpkg=fftpkg)
     fc2 = zonal_wave_coeffs(dat2, dimvar2, waves=waves, fftpkg=fftpkg)
-- 
2.43.0


From a5bd1ace1bb1400412df5c8067966c2f0b8b4a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:09 +0000
Subject: [PATCH 061/106] fix: wave contributions for selected waves or an odd
 number of longitudes

The inverse transform was taken over the selected coefficients only and
always had an even number of points, so the result did not fit the grid.
---
 metcalcpy/pre_processing/waves.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index 346a59a..3650fa0 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -183,7 +183,8 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
     --------
     zonal_wave_coeffs
     """
-    fc = zonal_wave_coeffs(dat, dimvar, waves=waves, fftpkg=fftpkg)
+    # the inverse transform needs the coefficients of all waves
+    fc = zonal_wave_coeffs(dat, dimvar, fftpkg=fftpkg)
 
     if (waves is None):
         waves = fc.lon_wavenum.values
@@ -198,7 +199,8 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
         for k in waves:
             mask = np.isnan(fc.where(fc.lon_wavenum != k))
 
-            kcont = scipy.fft.irfft((fc*mask).values, axis=fc.get_axis_num('lon_wavenum'))
+            kcont = scipy.fft.irfft((fc*mask).values, n=dat[dimvar].size,
+                                    axis=fc.get_axis_num('lon_wavenum'))
             recons.append(kcont[..., np.newaxis])
 
         recons = np.concatenate(recons, axis=-1)
-- 
2.43.0


From 3e0760514c9392aaed9b03450f570d01a7ef321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:35 +0000
Subject: [PATCH 062/106] fix: amplitude and covariance of the shortest
 resolved wave

For an even number of longitudes the last wavenumber has no mirrored
counterpart, but it was counted twice.
---
 metcalcpy/pre_processing/waves.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index 3650fa0..5dce793 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -150,9 +150,10 @@ def zonal_wave_ampl_phase(dat, dimvar='longitude', waves=None, phase_deg=False,
     # mode (which would be the zonal mean, if kept)
     #
     # this is necessary because of the symmetric spectrum,
-    # so all other wavenumbers except the 0th need to
+    # so all other wavenumbers except the 0th (and the last
+    # one of an even number of longitudes) need to
     # be multipled by 2 to get the right amplitude
-    mult_mask = np.isfinite(fc.where(fc.lon_wavenum != 0)) + 1
+    mult_mask = np.isfinite(fc.where((fc.lon_wavenum != 0) & (2*fc.lon_wavenum != fc.nlons))) + 1
 
     ampl = mult_mask*np.abs(fc) / fc.nlons
     phas = np.angle(fc, deg=phase_deg)
@@ -258,7 +259,7 @@ def zonal_wave_covariance(dat1, dat2, dimvar1='longitude', dimvar2='longitude',
     fc1 = zonal_wave_coeffs(dat1, dimvar1, waves=waves, fftpkg=fftpkg)
     fc2 = zonal_wave_coeffs(dat2, dimvar2, waves=waves, fftpkg=fftpkg)
 
-    mult_mask = np.isfinite(fc1.where(fc1.lon_wavenum != 0)) + 1
+    mult_mask = np.isfinite(fc1.where((fc1.lon_wavenum != 0) & (2*fc1.lon_wavenum != nlons))) + 1
     cov = mult_mask*np.real(fc1 * fc2.conj())/(nlons**2)
 
     return cov
-- 
2.43.0


From 6d5bad9a8ae6259e21972e5d2aa3c4b353196fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:35 +0000
Subject: [PATCH 063/106] fix: waves with the xrft package

Wave contributions tested for a package name that is not accepted and
ended with an error. The coefficients only worked for a dimension named
longitude.
---
 metcalcpy/pre_processing/waves.py | 37 ++++++++++---------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index 5dce793..9ea6463 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -108,7 +108,7 @@ def _zonal_wave_coeffs_xrft(dat, dimvar):
     fc = xrft.fft(dat, dim=dimvar, real_dim=dimvar,
                   true_phase=False, true_amplitude=False)
 
-    fc = fc.rename({'freq_longitude': 'lon_wavenum'})
+    fc = fc.rename({f'freq_{dimvar}': 'lon_wavenum'})
     fc = fc.assign_coords({'lon_wavenum': np.arange(fc.lon_wavenum.size)})
 
     return fc
@@ -191,33 +191,20 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
         waves = fc.lon_wavenum.values
 
     recons = []
-    if (fftpkg == 'scipy'):
-        new_dims = list(dat.dims)
-        new_dims += ['lon_wavenum']
-        new_coords = dict(dat.coords)
-        new_coords['lon_wavenum'] = waves
-
-        for k in waves:
-            mask = np.isnan(fc.where(fc.lon_wavenum != k))
-
-            kcont = scipy.fft.irfft((fc*mask).values, n=dat[dimvar].size,
-                                    axis=fc.get_axis_num('lon_wavenum'))
-            recons.append(kcont[..., np.newaxis])
-
-        recons = np.concatenate(recons, axis=-1)
-        recons = xr.DataArray(recons, dims=new_dims, coords=new_coords)
-
-    elif (fftpkg == 'xarray'):
-        fc = fc.rename({'lon_wavenum': 'freq_longitude'})
+    new_dims = list(dat.dims)
+    new_dims += ['lon_wavenum']
+    new_coords = dict(dat.coords)
+    new_coords['lon_wavenum'] = waves
 
-        for k in waves:
-            mask = np.isnan(fc.where(fc.lon_wavenum != k))
+    for k in waves:
+        mask = np.isnan(fc.where(fc.lon_wavenum != k))
 
-            kcont = xrft.ifft((fc*mask).values, dim='lon_wavenum', real_dim='lon_wavenum')
-            recons.append(kcont)
+        kcont = scipy.fft.irfft((fc*mask).values, n=dat[dimvar].size,
+                                axis=fc.get_axis_num('lon_wavenum'))
+        recons.append(kcont[..., np.newaxis])
 
-        recons = xr.concat(recons, dim='lon_wavenum')
-        recons = recons.assign_coords({'lon_wavenum': waves, dimvar: dat[dimvar]})
+    recons = np.concatenate(recons, axis=-1)
+    recons = xr.DataArray(recons, dims=new_dims, coords=new_coords)
 
     return recons.astype(dat.dtype)
 
-- 
2.43.0


From 99e57d8b4b548f689a5a1dcbf9e877096b8d4bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:38 +0000
Subject: [PATCH 064/106] fix: piecewise linear functions reject unsorted knots

The comparison was outside the test of the differences and never true.
---
 metcalcpy/piecewise_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/piecewise_linear.py b/metcalcpy/piecewise_linear.py
index 5fd31be..c068533 100644
--- a/metcalcpy/piecewise_linear.py
+++ b/metcalcpy/piecewise_linear.py
@@ -40,7 +40,7 @@ class PiecewiseLinear():
         len_x = len(x_domain)
         if len_x < 2:
             raise IncompatibleLengths('Length of xdomain must be at least 2.')
-        if np.any(np.diff(x_domain)) < 0:
+        if np.any(np.diff(x_domain) < 0):
             print("X_domain (in {}) is {}".format(xunits, x_domain))
             raise UnsortedArray('Xdomain must be sorted in ascending order.')
         len_y = len(y_range)
-- 
2.43.0


From e21f249f63b1bc068063ab216e6526db86652cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:38 +0000
Subject: [PATCH 065/106] fix: difficulty index rejects negative standard
 deviations

The comparison was applied to the outcome of the test and only found
zeros.
---
 metcalcpy/calc_difficulty_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/calc_difficulty_index.py b/metcalcpy/calc_difficulty_index.py
index 5e6de79..b903a64 100644
--- a/metcalcpy/calc_difficulty_index.py
+++ b/metcalcpy/calc_difficulty_index.py
@@ -57,7 +57,7 @@ def _input_check(sigmaij, muij, threshold, fieldijn, sigma_over_mu_ref, under_fa
     """
     assert isinstance(threshold, (int, float, np.int32, np.float32))
     assert np.ndim(sigmaij) == FIELD_DIM
-    assert np.all(sigmaij) >= EPS
+    assert not np.any(sigmaij < EPS)
     fieldshape = np.shape(fieldijn)
     # muij is a scalar or 2D array
     if isinstance(muij, np.ndarray):
-- 
2.43.0


From 27e939df5d98ac5b7dd8c881fc1482904c8bde57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:20 +0000
Subject: [PATCH 066/106] fix: threshold and difference images can be saved
 more than once

The second call tested the truth value of an image array and raised.
---
 metcalcpy/compare_images.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/compare_images.py b/metcalcpy/compare_images.py
index 2316630..acb200f 100644
--- a/metcalcpy/compare_images.py
+++ b/metcalcpy/compare_images.py
@@ -117,7 +117,7 @@ class CompareImages:
             Args:
                 path_to_file - Name of the file
         """
-        if not self.thresh:
+        if self.thresh is None:
             self._init_thresh()
         cv2.imwrite(path_to_file, self.thresh)
 
@@ -126,7 +126,7 @@ class CompareImages:
             Args:
                 wait_for_key_event : If True, The function waitKey waits for a key event infinitely
         """
-        if not self.thresh:
+        if self.thresh is None:
             self._init_thresh()
         cv2.imshow("Threshold", self.thresh)
         if wait_for_key_event:
@@ -195,7 +195,7 @@ class CompareImages:
             Args:
                 path_to_file - Name of the file
         """
-        if not self.diff_in_image_2:
+        if self.diff_in_image_2 is None:
             self._init_diff_in_image_2()
         cv2.imwrite(path_to_file, self.diff_in_image_2)
 
@@ -204,7 +204,7 @@ class CompareImages:
             Args:
                 wait_for_key_event : If True, The function waitKey waits for a key event infinitely
         """
-        if not self.diff_in_image_2:
+        if self.diff_in_image_2 is None:
             self._init_diff_in_image_2()
         cv2.imshow('Difference in image 2', self.diff_in_image_2)
         if wait_for_key_event:
-- 
2.43.0


From f5a36f2a44ec74de2164029ee7fdee743cfa4217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:20 +0000
Subject: [PATCH 067/106] fix: postfix of file names with several dots

The postfix was inserted before every dot instead of before the
extension only.
---
 metcalcpy/validate_mv_python.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index 7e7eeaf..8ff3d7b 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -51,7 +51,8 @@ def replace_name(old_name, postfix):
        Returns:
            file name with postfix
     """
-    return old_name.replace(".", "_" + postfix + ".")
+    (name, extension) = os.path.splitext(old_name)
+    return name + "_" + postfix + extension
 
 
 def clean(params):
-- 
2.43.0


From a03cdd7ab6f364aca96d0f762b61fba51b830502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:20 +0000
Subject: [PATCH 068/106] fix: reading a configuration does not change the YAML
 loader of other code

The environment variable tag was added to the shared SafeLoader, so any
later YAML document had its variables replaced as well.
---
 metcalcpy/util/read_env_vars_in_config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/read_env_vars_in_config.py b/metcalcpy/util/read_env_vars_in_config.py
index dd458a5..324ffca 100644
--- a/metcalcpy/util/read_env_vars_in_config.py
+++ b/metcalcpy/util/read_env_vars_in_config.py
@@ -33,7 +33,9 @@ def parse_config(path=None, data=None, tag='!ENV'):
     """
     # pattern for global vars: look for ${word}
     pattern = re.compile('.*?\${(\w+)}.*?')
-    loader = yaml.SafeLoader
+
+    class loader(yaml.SafeLoader):
+        """ a loader of its own, so that other users of the SafeLoader are not affected """
 
     # the tag will be used to mark where to start searching for the pattern
     # e.g. somekey: !ENV somestring${MYENVVAR}blah blah blah
-- 
2.43.0


From e858feb1491280aa04e28d795567095d651c284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:01 +0000
Subject: [PATCH 069/106] fix: revision statistics of a constant series without
 a change of the runs test

The module of the runs test is back to its original text.
The caller treats an undefined test as missing.
---
 metcalcpy/util/utils.py                    | 6 +++++-
 metcalcpy/util/wald_wolfowitz_runs_test.py | 5 +----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index e4b012c..b2968cf 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1340,7 +1340,11 @@ def calculate_mtd_revision_stats(series_data: DataFrame, lag_max: Union[int, Non
     # qnorm((1 + 0.05)/2) = 0.06270678
     result['auto_cor_p'] = round(0.06270678 / math.sqrt(np.size(data_for_stats)), 2)
 
-    p_value = runs_test(data_for_stats, 'left.sided', 'median')['p_value']
+    try:
+        p_value = runs_test(data_for_stats, 'left.sided', 'median')['p_value']
+    except ZeroDivisionError:
+        # the test is not defined without values on both sides of the median
+        p_value = None
     if p_value is not None:
         result['ww_run'] = round(p_value, 2)
 
diff --git a/metcalcpy/util/wald_wolfowitz_runs_test.py b/metcalcpy/util/wald_wolfowitz_runs_test.py
index 4563ae1..73c4a98 100644
--- a/metcalcpy/util/wald_wolfowitz_runs_test.py
+++ b/metcalcpy/util/wald_wolfowitz_runs_test.py
@@ -42,7 +42,7 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
         'statistic': None,
         'p_value': None,
         'runs': None,
-        'mean_value': None,
+        'mean_value ': None,
         'variance': None
     }
     if alternative != "two.sided" and alternative != "left.sided" and alternative != "right.sided":
@@ -78,9 +78,6 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
         elif run[0] == -1:
             r2 += 1
     n = n1 + n2
-    # the test is not defined without values on both sides of the threshold
-    if n1 == 0 or n2 == 0 or n == 2:
-        return result
     mean_value = 1 + 2 * n1 * n2 / (n1 + n2)
     variance = 2 * n1 * n2 * (2 * n1 * n2 - n1 - n2) / (n * n * (n - 1))
     rr = r1 + r2
-- 
2.43.0


From b1043ab297b82adf5618b567d36fbd05b94effef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 070/106] fix: smoothing of a series with missing values

A missing value cleared the first result, and a single value at the end raised.
---
 metcalcpy/contributed/spacetime/spacetime.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 8e82c25..5a90d42 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -328,14 +328,10 @@ def smooth121_1D(array_in):
     #array_out[1:-1] = sma
 
     for i in np.arange(0, len(temp), 1):
-        if np.isnan(temp[i]):
-            array_out[0] = np.nan
-        elif i == 0 or np.isnan(temp[i-1]):
-            array_out[i] = (3*temp[i]+temp[i+1])/4
-        elif i == (len(temp)-1) or np.isnan(temp[i+1]):
-            array_out[i] = (3 * temp[i] + temp[i-1]) / 4
-        else:
-            array_out[i] = (temp[i+1] + 2 * temp[i] + temp[i-1]) / 4
+        # the end of a run of values takes its own value for the neighbour
+        left = temp[i] if i == 0 or np.isnan(temp[i-1]) else temp[i-1]
+        right = temp[i] if i == (len(temp)-1) or np.isnan(temp[i+1]) else temp[i+1]
+        array_out[i] = (left + 2 * temp[i] + right) / 4
 
     return array_out
 
-- 
2.43.0


From c52d637899f550afb5116f7d1b5f91f3b0467ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 071/106] fix: Nyquist frequency of the cross spectra of a
 segment

Only the first spectrum had it when times and longitudes are even.
---
 metcalcpy/contributed/spacetime/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 5a90d42..bdfed0d 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -121,7 +121,7 @@ def mjo_cross_segment(XX, YY, opt=False):
             STC[1, :NT, 1:NL + 1] = PY
             STC[2, :NT, 1:NL + 1] = CXY
             STC[3, :NT, 1:NL + 1] = QXY
-            STC[0, NT, :] = STC[0, 0, :]
+            STC[:, NT, :] = STC[:, 0, :]
             STC[:, :, 0] = STC[:, :, NL]
 
     return STC
-- 
2.43.0


From a922f3d9b6d2ffde2f5d39f31791db4b1faa2479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 072/106] fix: frequencies of the cross spectra

The real transform has no negative frequencies.  For some segment lengths a
copy of the zero frequency was appended and all labels were shifted.
---
 metcalcpy/contributed/spacetime/spacetime.py | 67 ++++++--------------
 1 file changed, 20 insertions(+), 47 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index bdfed0d..338c9cf 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -172,46 +172,23 @@ def mjo_cross_segment_realfft(XX, YY, opt=False):
     CXY = CXY[:, ::-1]
     QXY = QXY[:, ::-1]
 
-    # test if time and longitude are odd or even, fft algorithm
-    # returns the Nyquist frequency once for even NT or NL and twice
-    # if they are odd
-    NT = int(NT / 2) + 1
-    if NT % 2 == 1:
-        nfreq = NT
-        if NL % 2 == 1:
-            nwave = NL
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, :NL] = PX
-            STC[1, :NT, :NL] = PY
-            STC[2, :NT, :NL] = CXY
-            STC[3, :NT, :NL] = QXY
-        else:
-            nwave = NL + 1
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, 1:NL + 1] = PX
-            STC[1, :NT, 1:NL + 1] = PY
-            STC[2, :NT, 1:NL + 1] = CXY
-            STC[3, :NT, 1:NL + 1] = QXY
-            STC[:, :, 0] = STC[:, :, NL]
+    # the fft algorithm returns the Nyquist wavenumber once for even NL
+    nfreq = NT // 2 + 1
+    if NL % 2 == 1:
+        nwave = NL
+        STC = np.zeros([8, nfreq, nwave], dtype='double')
+        STC[0, :, :] = PX
+        STC[1, :, :] = PY
+        STC[2, :, :] = CXY
+        STC[3, :, :] = QXY
     else:
-        nfreq = NT + 1
-        if NL % 2 == 1:
-            nwave = NL
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, :NL] = PX
-            STC[1, :NT, :NL] = PY
-            STC[2, :NT, :NL] = CXY
-            STC[3, :NT, :NL] = QXY
-            STC[:, NT, :] = STC[:, 0, :]
-        else:
-            nwave = NL + 1
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, 1:NL + 1] = PX
-            STC[1, :NT, 1:NL + 1] = PY
-            STC[2, :NT, 1:NL + 1] = CXY
-            STC[3, :NT, 1:NL + 1] = QXY
-            STC[:, NT, :] = STC[:, 0, :]
-            STC[:, :, 0] = STC[:, :, NL]
+        nwave = NL + 1
+        STC = np.zeros([8, nfreq, nwave], dtype='double')
+        STC[0, :, 1:] = PX
+        STC[1, :, 1:] = PY
+        STC[2, :, 1:] = CXY
+        STC[3, :, 1:] = QXY
+        STC[:, :, 0] = STC[:, :, NL]
 
     return STC
 
@@ -396,13 +373,9 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     window = np.transpose(window)
     window = np.tile(window, [1, nlat, mlon])
 
-    # test if time and longitude are odd or even, fft algorithm
-    # returns the Nyquist frequency once for even NT or NL and twice
-    # if they are odd
-    if (segLen/2+1) % 2 == 1:
-        nfreq = int(segLen/2) + 1
-    else:
-        nfreq = int(segLen/2) + 2
+    # the real fft returns the frequencies from zero to Nyquist, and the
+    # Nyquist wavenumber once for even NL
+    nfreq = segLen // 2 + 1
     if mlon % 2 == 1:
         nwave = mlon
     else:
@@ -411,7 +384,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     # initialize spectrum array
     STC = np.zeros([8, nfreq, nwave], dtype='double')
     wave = np.arange(-int(nwave / 2), int(nwave / 2) + 1, 1.)
-    freq = np.linspace(0, 0.5, num=nfreq)
+    freq = np.arange(nfreq) / segLen
 
     # find time-mean index
     indfreq0 = np.where(freq == 0.)[0]
-- 
2.43.0


From 9d8e78cfc49a233e67c2d9a8ce9cb827594da6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 073/106] fix: segments of the cross spectra

A segment that ends with the last time was left out, and segments overlapped
by one more value than requested.
---
 metcalcpy/contributed/spacetime/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 338c9cf..2d3e193 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -395,7 +395,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     switch = True
     while switch:
         ntLast = ntStrt + segLen
-        if (ntLast > (ntim - 1)):
+        if (ntLast > ntim):
             switch = False
             continue
 
@@ -410,7 +410,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
         STC = STC + STCseg
 
         kseg = kseg + 1
-        ntStrt = ntLast + segOverLap - 1
+        ntStrt = ntLast + segOverLap
 
     STC = STC / kseg
 
-- 
2.43.0


From 48050c31977984d67dbdb8aa8dac2d26f8ad124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 074/106] fix: symmetric and anti-symmetric parts belong to
 their latitudes

The rows were in reversed order for ascending latitudes.
---
 metcalcpy/contributed/spacetime/spacetime.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 2d3e193..305d2d8 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -207,21 +207,13 @@ def get_symmasymm(X, lat, opt=False):
         NT, NM, NL = X.shape
         if opt == 'symm':
             x = X[:, lat[:] >= 0, :]
-            if len(lat) % 2 == 1:
-                for ll in range(NM // 2 + 1):
-                    x[:, ll, :] = 0.5 * (X[:, ll, :] + X[:, NM - ll - 1, :])
-            else:
-                for ll in range(NM // 2):
-                    x[:, ll, :] = 0.5 * (X[:, ll, :] + X[:, NM - ll - 1, :])
+            for i, ll in enumerate(np.where(np.asarray(lat) >= 0)[0]):
+                x[:, i, :] = 0.5 * (X[:, ll, :] + X[:, NM - ll - 1, :])
         else:
             if opt == 'asymm' or opt == 'anti-symm':
                 x = X[:, lat[:] > 0, :]
-                if len(lat) % 2 == 1:
-                    for ll in range(NM // 2):
-                        x[:, ll, :] = 0.5 * (X[:, ll, :] - X[:, NM - ll - 1, :])
-                else:
-                    for ll in range(NM // 2):
-                        x[:, ll, :] = 0.5 * (X[:, ll, :] - X[:, NM - ll - 1, :])
+                for i, ll in enumerate(np.where(np.asarray(lat) > 0)[0]):
+                    x[:, i, :] = 0.5 * (X[:, ll, :] - X[:, NM - ll - 1, :])
     else:
         print("Please provide a valid option: symm or asymm.")
 
-- 
2.43.0


From 24543284328e22b145dd57ab0a506d4147127de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 075/106] fix: wavenumber limits of the equatorial wave filter

Reversing the wavenumbers moved them by one, and equal limits kept all waves.
---
 metcalcpy/contributed/spacetime/spacetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 305d2d8..f7b4e6f 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -437,7 +437,7 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
     fftData = np.copy(fftIn)
     fftData = np.transpose(fftData)
     nf, nk = fftData.shape  # frequency, wavenumber array
-    fftData = fftData[:, ::-1]
+    fftData = np.roll(fftData[:, ::-1], 1, axis=1)  # eastward wavenumbers first, zero stays
 
     nt = (nf - 1) * 2
     jMin = int(round(nt / (tMax * obsPerDay)))
@@ -464,7 +464,7 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         fftData[0:jMin, :] = 0
     if jMax < nf:
         fftData[jMax + 1:nf, :] = 0
-    if iMin < iMax:
+    if iMin < iMax or kMin == kMax:
         # Set things outside the wavenumber range to zero, this is more normal
         if iMin > 0:
             fftData[:, 0:iMin] = 0
@@ -541,7 +541,7 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         if jMaxWave < nf:
             fftData[jMaxWave + 1:nf, i] = 0
 
-    fftData = fftData[:, ::-1]
+    fftData = np.roll(fftData[:, ::-1], 1, axis=1)
     fftData = np.transpose(fftData)
 
     return fftData
-- 
2.43.0


From d99d54bd740cd61b436ff065686256fd7ffea09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 076/106] fix: equatorial wave filter with only one equivalent
 depth

---
 metcalcpy/contributed/spacetime/spacetime.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index f7b4e6f..71d0a1d 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -474,16 +474,11 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         # Set things inside the wavenumber range to zero, this should be somewhat unusual
         fftData[:, iMax + 1:iMin] = 0
 
-    c = np.empty([2])
-    if hMin == -9999:
-        c[0] = np.nan
-        if hMax == -9999:
-            c[1] = np.nan
-    else:
-        if hMax == -9999:
-            c[1] = np.nan
-        else:
-            c = np.sqrt(g * np.array([hMin, hMax]))
+    c = np.full([2], np.nan)
+    if hMin != -9999:
+        c[0] = np.sqrt(g * hMin)
+    if hMax != -9999:
+        c[1] = np.sqrt(g * hMax)
 
     spc = 24 * 3600. / (2 * pi * obsPerDay)  # seconds per cycle
 
-- 
2.43.0


From 7da0da5a7b02f2a81f86ac0221d23826d2177ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 077/106] fix: equatorial wave filter keeps an odd number of
 times

---
 metcalcpy/contributed/spacetime/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 71d0a1d..e3183ea 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -564,7 +564,7 @@ def kf_filter(data, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveName):
 
     fftfilt = kf_filter_mask(fftdata, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveName)
 
-    datafilt = np.fft.irfft2(fftfilt, axes=(0, 1))
+    datafilt = np.fft.irfft2(fftfilt, s=data.shape, axes=(0, 1))
     datafilt = np.transpose(datafilt, axes=[1, 0])
 
     return datafilt
-- 
2.43.0


From 46e38e8b7c5b9b747ba4d82144e1d9ded4bd00f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 078/106] fix: flipping longitudes

The longitudes of the input were overwritten while they were read, and the data
was moved by the wrong count for grids with unequal halves.
---
 metcalcpy/contributed/spacetime/spacetime_utils.py  | 6 +++---
 metcalcpy/contributed/tropical_diagnostics/utils.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime_utils.py b/metcalcpy/contributed/spacetime/spacetime_utils.py
index accce20..9c7276f 100755
--- a/metcalcpy/contributed/spacetime/spacetime_utils.py
+++ b/metcalcpy/contributed/spacetime/spacetime_utils.py
@@ -69,7 +69,7 @@ def lonFlip(data,lon):
     :return: dataflip
     """
 
-    lonnew = lon.values
+    lonnew = lon.values.copy()
 
     if lonnew.min() < 0:
         # change longitude to 0:360
@@ -81,7 +81,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonpos] = lon[ilonpos[0]].values
         lonnew[nlonpos:] = lon[ilonneg[0]].values + 360
 
-        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2),
+        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2),
              dims=data.dims,
              coords={'time': data['time'], 'lat': data['lat'],
                      'lon': lonnew})
@@ -96,7 +96,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonneg] = lon[ilonneg[0]].values - 360
         lonnew[nlonneg:] = lon[ilonpos[0]].values
 
-        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2),
+        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2),
             dims=data.dims,
             coords={'time': data['time'],
             'lat': data['lat'], 'lon': lonnew})
diff --git a/metcalcpy/contributed/tropical_diagnostics/utils.py b/metcalcpy/contributed/tropical_diagnostics/utils.py
index 048a66a..3271cb8 100755
--- a/metcalcpy/contributed/tropical_diagnostics/utils.py
+++ b/metcalcpy/contributed/tropical_diagnostics/utils.py
@@ -67,7 +67,7 @@ def lonFlip(data,lon):
     :return: dataflip
     """
 
-    lonnew = lon.values
+    lonnew = lon.values.copy()
 
     if lonnew.min() < 0:
         # change longitude to 0:360
@@ -79,7 +79,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonpos] = lon[ilonpos[0]].values
         lonnew[nlonpos:] = lon[ilonneg[0]].values + 360
 
-        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2), dims=data.dims,
+        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2), dims=data.dims,
                           coords={'time': data['time'], 'lat': data['lat'], 'lon': lonnew})
 
     else:
@@ -92,7 +92,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonneg] = lon[ilonneg[0]].values - 360
         lonnew[nlonneg:] = lon[ilonpos[0]].values
 
-        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2), dims=data.dims,
+        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2), dims=data.dims,
                           coords={'time': data['time'], 'lat': data['lat'], 'lon': lonnew})
 
     return dataflip
-- 
2.43.0


From 968c8918be748fcd0679b4f44dad2afb24099be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 079/106] fix: filters for the MJO indices leave the data of
 the caller unchanged

---
 metcalcpy/contributed/rmm_omi/compute_mjo_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index 83a337a..71e3620 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -235,7 +235,7 @@ def bandpass_filter_3D(data, time, a, b):
     dt = (time[1] - time[0]).astype('timedelta64[s]') / np.timedelta64(1, 'D')
 
     # remove linear trend from data in time
-    data = detrend(data,axis=0,type='linear',overwrite_data=True)
+    data = detrend(data,axis=0,type='linear')
 
     # taper time window and pad with zeros
     orig_data = data
@@ -371,7 +371,7 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
         lat = orig_data['lat']
 
         print('detrending in time')
-        orig_data = detrend(orig_data, axis=0, type='linear', overwrite_data=True)
+        orig_data = detrend(orig_data, axis=0, type='linear')
 
         # ######################## Zero Padding ############################
         nt_max = 2 ** 17  # Zero padding for performance and resolution optimization, as well as consistency with origininal Kiladis code
-- 
2.43.0


From 6ae2811ff85966bdc72b40e4ddff5011859b8f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 080/106] fix: period limits of the bandpass filter

The coefficients of the real transform were masked with the frequencies of the
complex one, so the periods that remained were twice the requested ones.
---
 metcalcpy/contributed/rmm_omi/compute_mjo_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index 71e3620..22c9922 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -13,7 +13,7 @@ import numpy as np
 import xarray as xr
 import datetime
 import pandas as pd
-from scipy.fftpack import rfft, irfft, fftfreq
+from scipy.fftpack import rfft, irfft, rfftfreq
 from scipy.signal import detrend
 
 def rmm(olr, u850, u200, time, spd, EOF1, EOF2, rmm_norm, pc_norm):
@@ -257,7 +257,7 @@ def bandpass_filter_3D(data, time, a, b):
 
     # set up frequency array for masking
 
-    W = fftfreq(data[:,0,0].size, dt)
+    W = rfftfreq(data[:,0,0].size, dt)
     W = np.tile(W,(nm,nl,1))
     W = np.moveaxis(W,2,0)
     P = 1 / W
-- 
2.43.0


From c407778e5c3e38519553d056e53a497556dc35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 081/106] fix: spectral filter with an odd number of times or
 longitudes

---
 metcalcpy/contributed/rmm_omi/compute_mjo_indices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index 22c9922..fc52f38 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -441,8 +441,8 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
             fourier_fft = np.fft.fft2(np.squeeze(data[:,idx_m,:]))
             # reordering of spectrum is done to be consistent with the original kiladis ordering.
             fourier_fft = np.fft.fftshift(fourier_fft, axes=(0, 1))
-            fourier_fft = np.roll(fourier_fft, int(nt / 2), axis=0)
-            fourier_fft = np.roll(fourier_fft, int(nl / 2), axis=1)
+            fourier_fft = np.roll(fourier_fft, -int(nt / 2), axis=0)
+            fourier_fft = np.roll(fourier_fft, -int(nl / 2), axis=1)
 
             # ### Very similar to original Kiladis Code
             fourier_fft_filtered = fourier_fft
@@ -476,8 +476,8 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
 
             # ############################ FFT Backward transformation ############
             # #reorder spectrum back from kiladis ordering to python ordering
-            fourier_fft_filtered = np.roll(fourier_fft_filtered, -int(nt / 2), axis=0)
-            fourier_fft_filtered = np.roll(fourier_fft_filtered, -int(nl / 2), axis=1)
+            fourier_fft_filtered = np.roll(fourier_fft_filtered, int(nt / 2), axis=0)
+            fourier_fft_filtered = np.roll(fourier_fft_filtered, int(nl / 2), axis=1)
             fourier_fft_filtered = np.fft.ifftshift(fourier_fft_filtered, axes=(0, 1))
             filtered_olr = np.fft.ifft2(fourier_fft_filtered)
             filtered_olr = np.real(filtered_olr)
-- 
2.43.0


From 5a990a5c4b9bcce458488fd258abf598e722c30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 082/106] fix: MJO indices reject data on another grid than the
 EOFs

The comparison aligned both grids first, so it never found a difference.
---
 .../contributed/rmm_omi/compute_mjo_indices.py     | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index fc52f38..6bd3520 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -37,13 +37,13 @@ def rmm(olr, u850, u200, time, spd, EOF1, EOF2, rmm_norm, pc_norm):
     # test that the input data has the same longitude values as the EOFs
     eoflon = EOF1['lon']
     lon = olr['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and OLR is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
     lon = u850['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and U850 is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
     lon = u200['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and U200 is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
 
     # remove previous 120 day mean from data
@@ -111,9 +111,9 @@ def omi(olr, time, spd, EOF1, EOF2):
     lon = olr['lon']
     eoflat = EOF1['lat']
     lat = olr['lat']
-    if not np.all(lat == eoflat):
+    if not np.array_equal(lat, eoflat):
         raise ValueError("Latitude grid of EOFs and OLR is not equal. Latitudes should be -20 to 20 by 2.5 degrees.")
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and OLR is not equal. Longitudes should be 0 to 375.5 by 2.5 degrees.")
 
     # filter OLR for 20-96 days
@@ -147,9 +147,9 @@ def regress_3dim_data_onto_eofs(data, time, EOF1, EOF2):
     :param EOF2: the day of year dependent EOF2
     :return: PCs
     """
-    if not np.all(data.lat == EOF1.lat):
+    if not np.array_equal(data.lat, EOF1.lat):
         raise ValueError("Latitude grid of EOFs and OLR is not equal.")
-    if not np.all(data.lon == EOF1.lon):
+    if not np.array_equal(data.lon, EOF1.lon):
         raise ValueError("Longitude grid of EOFs and OLR is not equal.")
     pc1 = np.empty(data.time.size)
     pc2 = np.empty(data.time.size)
-- 
2.43.0


From 57b3523d74fe09742374cfd127778f5075eaa70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 083/106] fix: wave skill for one forecast or one model leaves
 the activity unchanged

---
 metcalcpy/contributed/tropical_diagnostics/ccew_activity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
index 8b0c50f..babcf8d 100644
--- a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
+++ b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
@@ -212,7 +212,7 @@ def wave_skill(act):
     :rtype:
     """
     nfchr, nlines, ntim = act.shape
-    skill = act[:, 1::, 0].squeeze()
+    skill = act[:, 1::, 0].copy()
 
     for ff in np.arange(nfchr):
         for ll in np.arange(nlines-1):
-- 
2.43.0


From a3fd04aca5486f013eb11e30057e9b506bcfa5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 084/106] fix: EOFs along another dimension than the first

---
 metcalcpy/contributed/tropical_diagnostics/ccew_activity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
index babcf8d..5e1ae86 100644
--- a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
+++ b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
@@ -417,7 +417,7 @@ def eof_comp(data, neof, opt, dim=0):
 
     # move dimension dim to 0
     if dim != 0:
-        data_reord = np.moveaxis(data, dim, 0)
+        data_reord = data.transpose(data.dims[dim], ...)
     else:
         data_reord = data
 
-- 
2.43.0


From c47b1090a2cbf7e01ae36f8cf075af99eda76db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 085/106] fix: weather regime anomalies have their trend
 removed

The trend of an empty array was removed instead of that of the data.
---
 .../contributed/blocking_weather_regime/WeatherRegime.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py b/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py
index cdab30f..8e662f2 100644
--- a/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py
+++ b/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py
@@ -54,8 +54,8 @@ class WeatherRegimeCalculation():
         #Remove trend and seasonal cycle
         atemp = np.zeros(arr_shape)
         for i in np.arange(0,len(indata[0,:,0,0]),1):
-            atemp[:,i] = signal.detrend(atemp[:,i],axis=0)
-            atemp[:,i] = (indata[:,i] - np.nanmean(indata[:,i],axis=0)) * weightf
+            atemp[:,i] = signal.detrend(indata[:,i],axis=0)
+            atemp[:,i] = (atemp[:,i] - np.nanmean(atemp[:,i],axis=0)) * weightf
 
         a = atemp
         atemp=0
-- 
2.43.0


From 9859ea3d47597d9121ac32dfe64569f24b994900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 086/106] fix: EOFs of the weather regimes leave the heights
 unchanged

---
 metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py b/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py
index 8e662f2..99b04c3 100644
--- a/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py
+++ b/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py
@@ -105,6 +105,7 @@ class WeatherRegimeCalculation():
     def Calc_EOF(self,eofin):
 
         #Remove trend and seasonal cycle
+        eofin = np.array(eofin)
         for d in np.arange(0,len(eofin[0,:,0,0]),1):
             eofin[:,d] = signal.detrend(eofin[:,d],axis=0)
             eofin[:,d] = eofin[:,d] - np.nanmean(eofin[:,d],axis=0)
-- 
2.43.0


From 5864d530b48ff2a65ccf45ff00ed3918dd5e2a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 087/106] fix: missing points of the input of blocking and
 weather regimes

The fill value of the file was taken as data.
---
 .../blocking_weather_regime/Blocking_WeatherRegime_util.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py b/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
index 1c306c6..f4a445a 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
@@ -118,7 +118,7 @@ def read_nc_met(infiles,invar,nseasons,dseasons):
         init_list.append(init_time_str)
         valid_list.append(valid_time_str)
         lead_list.append(lead_str)
-        var_3d[i,:,:] = new_invar
+        var_3d[i,:,:] = np.ma.filled(new_invar,np.nan)
 
     var_4d = np.reshape(var_3d,[nseasons,dseasons,len(var_3d[0,:,0]),len(var_3d[0,0,:])])
 
-- 
2.43.0


From c33e50a4601dbe475650d3097883e35ab3bd9eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:13 +0000
Subject: [PATCH 088/106] fix: forecast regimes without a match have no number

Their labels were left uninitialised.
---
 .../blocking_weather_regime/Blocking_WeatherRegime_util.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py b/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
index f4a445a..60cdc7c 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
@@ -137,7 +137,7 @@ def reorder_fcst_regimes(kmeans_fcst,perc_fcst,wrc_fcst,wrnum_fcst,fcst_order):
     # the forecast and observations, is needed
     kmeans_fcst_new = np.empty(kmeans_fcst.shape,dtype=float)
     perc_fcst_new = np.empty(perc_fcst.shape,dtype=float)
-    wrc_fcst_new = np.empty(wrc_fcst.shape,dtype=float)
+    wrc_fcst_new = np.full(wrc_fcst.shape,np.nan)
     for wrn in np.arange(wrnum_fcst):
         perc_fcst_new[wrn] = perc_fcst[fcst_order[wrn]-1]
         kmeans_fcst_new[wrn,:,:] = kmeans_fcst[fcst_order[wrn]-1,:,:]
-- 
2.43.0


From e6675311d2cc24327cca669a43af3d89f67ae1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:27 +0000
Subject: [PATCH 089/106] fix: the distance between blocked longitudes of one
 group is configurable

The setting was read but half of the group size was used.
---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index 6399c7f..134c896 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -141,9 +141,8 @@ class BlockingCalculation():
         for i in np.arange(0,len(GIBL[:,0,0]),1):
             for k in np.arange(0,len(GIBL[0,:,0]),1):
                 gibli = np.zeros(len(GIBL[0,0,:]))
-                thresh = crit/2.0
+                thresh = self.ibl_dist
                 a = ibl[i,k,:]
-                db = self.ibl_dist
                 ibli = np.where(a==1)[0]
                 if len(ibli)==0:
                     continue
-- 
2.43.0


From cee4a4373cb029c61d6f5b6858c41bb3bf4bdc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:27 +0000
Subject: [PATCH 090/106] fix: groups of blocked longitudes across the first
 longitude

A group that wraps is found once, not twice, and was dropped as too small.
---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index 134c896..6725a1a 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -169,8 +169,6 @@ class BlockingCalculation():
                             ct=1
                         ct = 1
                         btlon = block[ll]
-                if len(btfin)/2 < crit :
-                    btfin = []
                 if len(btfin)==0:
                     continue
                 gibl1 = btfin
-- 
2.43.0


From bfae26d7b27d87e8b72b4df5c13b261da7df14cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:27 +0000
Subject: [PATCH 091/106] fix: blocks of a period with no or one group of
 blocked longitudes

The calculation ended with an error.
---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index 6725a1a..02e789a 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -232,6 +232,8 @@ class BlockingCalculation():
                 min = np.append(min,mini)
 
         locy, locd, locl = np.where(c==crit)
+        if len(locy)==0:
+            return np.zeros((len(ibl[:,0,0]),len(ibl[0,:,0]),360))
 
         A = np.zeros(lonlen)
         A = np.expand_dims(A,axis=0)
@@ -267,8 +269,8 @@ class BlockingCalculation():
         A = A[1:]
 
         ######### - Getting rid of non-consectutve Time steps which would prevent blocking - #################
-        dd=[]
-        dy = []
+        dd = np.empty(0)
+        dy = np.empty(0)
         dA = A[0]
         dA = np.expand_dims(dA,axis=0)
         ct=0
-- 
2.43.0


From 16b36728d17a37b3bbca697c3d824e1eece93959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:59 +0000
Subject: [PATCH 092/106] fix: event equalization programs with numeric series
 values

---
 metcalcpy/agg_stat_eqz.py            | 4 +++-
 metcalcpy/agg_stat_event_equalize.py | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 8ec5c51..e0926a3 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -39,7 +39,7 @@ import yaml
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize_against_values import event_equalize_against_values
-from metcalcpy.util.utils import parse_bool
+from metcalcpy.util.utils import is_string_integer, parse_bool
 
 
 class AggStatEventEqz:
@@ -117,6 +117,8 @@ class AggStatEventEqz:
                 for val in series_var_vals:
                     split_val = val.split(GROUP_SEPARATOR)
                     series_var_vals_no_group.extend(split_val)
+                    # a column of numbers is read as numbers
+                    series_var_vals_no_group.extend(int(item) for item in split_val if is_string_integer(item))
 
                 series_data_for_ee = series_data_for_ee[
                     series_data_for_ee[series_var].isin(series_var_vals_no_group)]
diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index b82e69c..3aae3ab 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -40,6 +40,7 @@ import numpy as np
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize import event_equalize
+from metcalcpy.util.utils import is_string_integer
 
 class AggStatEventEqualize:
     """A class that performs event equalisation logic on input data
@@ -122,6 +123,8 @@ class AggStatEventEqualize:
             for val in series_var_vals:
                 split_val = val.split(GROUP_SEPARATOR)
                 series_var_vals_no_group.extend(split_val)
+                # a column of numbers is read as numbers
+                series_var_vals_no_group.extend(int(item) for item in split_val if is_string_integer(item))
 
             # filter input data based on all series variables values
             series_data_for_ee = series_data_for_ee[
-- 
2.43.0


From f1407d355db42481355744508563e093f18f8972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:27:56 +0000
Subject: [PATCH 093/106] fix: event equalization programs with a series on
 both axes

---
 metcalcpy/agg_stat_eqz.py            | 2 ++
 metcalcpy/agg_stat_event_equalize.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index e0926a3..dd679bb 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -88,6 +88,8 @@ class AggStatEventEqz:
             # perform for axis 2
             if self.params['series_val_2']:
                 output_ee_data = pd.concat([output_ee_data, self.perform_ee_on_axis(prev_cases, '2')])
+                # a series can be on both axes
+                output_ee_data = output_ee_data[~output_ee_data.index.duplicated()]
         else:
             output_ee_data = self.input_data
             if self.input_data.empty:
diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 3aae3ab..b39880e 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -90,6 +90,8 @@ class AggStatEventEqualize:
                 output_ee_data = output_ee_data.drop('equalize', axis=1)
                 output_ee_data_2 = output_ee_data_2.drop('equalize', axis=1)
                 all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
+                # a series can be on both axes
+                all_ee_records = all_ee_records[~all_ee_records.index.duplicated()]
                 all_series_vars = {**self.params['series_val_1'], **self.params['series_val_2']}
                 for key in all_series_vars:
                     all_series_vars[key] = np.unique(self.params['series_val_1'].get(key, [])
-- 
2.43.0


From b0622591f80b4c562821f1ce555cc6bc76af798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:01 +0000
Subject: [PATCH 094/106] fix: object statistics with event equalization

---
 metcalcpy/agg_stat_bootstrap.py | 11 +++++++----
 metcalcpy/agg_stat_eqz.py       |  3 +++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 0008b2e..e7e2a3f 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -292,9 +292,10 @@ class AggStatBootstrap:
                 self._perform_event_equalization()
 
             # build the case information for each record
-            fcst_valid = self.input_data.loc[:, 'fcst_valid'].astype(str)
-            indy_var = self.input_data.loc[:, self.params['indy_var']].astype(str)
-            self.input_data['case'] = fcst_valid + '#' + indy_var
+            if not self.input_data.empty:
+                fcst_valid = self.input_data.loc[:, 'fcst_valid'].astype(str)
+                indy_var = self.input_data.loc[:, self.params['indy_var']].astype(str)
+                self.input_data['case'] = fcst_valid + '#' + indy_var
 
             # get results for axis1
             out_frame = self._proceed_with_axis("1")
@@ -318,7 +319,9 @@ class AggStatBootstrap:
 
         self.input_data = agg_stat_event_eqz.calculate_values()
         file_name = self.params['agg_stat_input'].replace("agg_stat_bootstrap", "dataAfterEq")
-        self.input_data.to_csv(file_name, index=None, header=True, mode='w', sep="\t", na_rep="NA")
+        # the input file itself is never replaced
+        if file_name != self.params['agg_stat_input']:
+            self.input_data.to_csv(file_name, index=None, header=True, mode='w', sep="\t", na_rep="NA")
 
 
 if __name__ == "__main__":
diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index dd679bb..9db357f 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -70,6 +70,8 @@ class AggStatEventEqz:
 
     def calculate_values(self):
         """Performs event equalisation if needed and saves equalized data to the file.
+            Returns:
+                A data frame that contains equalized records
         """
         is_event_equal = parse_bool(self.params['event_equal'])
 
@@ -100,6 +102,7 @@ class AggStatEventEqz:
         output_ee_data.to_csv(self.params['agg_stat_output'],
                               index=None, header=True, mode='w',
                               sep="\t", na_rep="NA")
+        return output_ee_data
 
     def perform_ee_on_axis(self, prev_cases, axis='1'):
         """Performs event equalisation against previously calculated cases for the selected axis
-- 
2.43.0


From 300f650581237a7de9347e1c9113aac7f8c1ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:08 +0000
Subject: [PATCH 095/106] fix: event equalization of series whose values are
 decimal numbers or numbers beside names

A series value such as 0.5 was compared as text with a column of numbers, so
no row had it and every row was removed.  A value such as 7 was compared as a
number with a column of names, with the same effect.
---
 metcalcpy/agg_stat_eqz.py            |  3 ++-
 metcalcpy/agg_stat_event_equalize.py |  3 ++-
 metcalcpy/event_equalize.py          | 26 ++++++++++++++++++++++++--
 metcalcpy/util/utils.py              |  1 +
 4 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 9db357f..d858ec3 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -39,7 +39,7 @@ import yaml
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize_against_values import event_equalize_against_values
-from metcalcpy.util.utils import is_string_integer, parse_bool
+from metcalcpy.util.utils import is_string_integer, is_string_strictly_float, parse_bool
 
 
 class AggStatEventEqz:
@@ -124,6 +124,7 @@ class AggStatEventEqz:
                     series_var_vals_no_group.extend(split_val)
                     # a column of numbers is read as numbers
                     series_var_vals_no_group.extend(int(item) for item in split_val if is_string_integer(item))
+                    series_var_vals_no_group.extend(float(item) for item in split_val if is_string_strictly_float(item))
 
                 series_data_for_ee = series_data_for_ee[
                     series_data_for_ee[series_var].isin(series_var_vals_no_group)]
diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index b39880e..2b34290 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -40,7 +40,7 @@ import numpy as np
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize import event_equalize
-from metcalcpy.util.utils import is_string_integer
+from metcalcpy.util.utils import is_string_integer, is_string_strictly_float
 
 class AggStatEventEqualize:
     """A class that performs event equalisation logic on input data
@@ -127,6 +127,7 @@ class AggStatEventEqualize:
                 series_var_vals_no_group.extend(split_val)
                 # a column of numbers is read as numbers
                 series_var_vals_no_group.extend(int(item) for item in split_val if is_string_integer(item))
+                series_var_vals_no_group.extend(float(item) for item in split_val if is_string_strictly_float(item))
 
             # filter input data based on all series variables values
             series_data_for_ee = series_data_for_ee[
diff --git a/metcalcpy/event_equalize.py b/metcalcpy/event_equalize.py
index dfb172b..bcfd225 100644
--- a/metcalcpy/event_equalize.py
+++ b/metcalcpy/event_equalize.py
@@ -105,8 +105,13 @@ def event_equalize(series_data, indy_var, series_var_vals, fix_vars,
         permutation_data = series_data.copy()
         for var_for_ee_ind, var_for_ee in enumerate(list(vars_for_ee)):
             if is_string_integer(permutation[var_for_ee_ind]):
-                permutation_data = permutation_data[permutation_data[var_for_ee]
-                                                    == int(permutation[var_for_ee_ind])]
+                # a column that holds names as well is not read as numbers
+                permutation_data = permutation_data[permutation_data[var_for_ee].isin(
+                    [permutation[var_for_ee_ind], int(permutation[var_for_ee_ind])])]
+            elif is_string_strictly_float(permutation[var_for_ee_ind]):
+                # a column of numbers is read as numbers
+                permutation_data = permutation_data[permutation_data[var_for_ee].isin(
+                    [permutation[var_for_ee_ind], float(permutation[var_for_ee_ind])])]
             else:
                 if permutation[var_for_ee_ind] == 'NA':
                     permutation_data = permutation_data[permutation_data[var_for_ee].isnull()]
@@ -176,3 +181,20 @@ def is_string_integer(str_int):
         return True
     except (ValueError, TypeError):
         return False
+
+
+def is_string_strictly_float(str_float):
+    """Checks if the input string is a decimal number and not an integer.
+
+         Args:
+             str_float: string value to check
+
+        Returns:
+            True - if the input value is a decimal number
+            False - if the input value is an integer or is not a number
+    """
+    if not isinstance(str_float, str):
+        return False
+    if str_float.startswith('-'):
+        str_float = str_float[1:]
+    return '.' in str_float and str_float.replace('.', '', 1).isdecimal()
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index b2968cf..7a51f28 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -715,6 +715,7 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
                         series_var_vals_no_group.extend(split_val)
                         # a column of numbers is read as numbers
                         series_var_vals_no_group.extend(int(item) for item in split_val if is_string_integer(item))
+                        series_var_vals_no_group.extend(float(item) for item in split_val if is_string_strictly_float(item))
 
                     # filter input data based on fcst_var, statistic
                     # and all series variables values
-- 
2.43.0


From 0bf2a47ced42085dcbcfcdad7e699684d084b57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:08 +0000
Subject: [PATCH 096/106] fix: series values that are numbers in a column that
 also holds names

A column with names beside numbers is read as text, but the requested value
was turned into a number, so the point had no rows and its value was missing.
---
 metcalcpy/agg_eclv.py           |  3 +++
 metcalcpy/agg_stat.py           |  3 +++
 metcalcpy/agg_stat_bootstrap.py | 10 ++++++++--
 metcalcpy/scorecard.py          |  3 +++
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index 33282db..c08719b 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -237,11 +237,14 @@ class AggEclv:
                 filter_value = point[field_ind]
                 filter_list = [filter_value]
                 out_frame_local[field] = [filter_value] * (len(self.steps))
+                as_text = list(filter_list)
                 for i, filter_val in enumerate(filter_list):
                     if is_string_integer(filter_val):
                         filter_list[i] = int(filter_val)
                     elif is_string_strictly_float(filter_val):
                         filter_list[i] = float(filter_val)
+                # a column that holds names as well is not read as numbers
+                filter_list.extend(as_text)
                 if field in self.input_data.keys():
                     all_filters.append((self.input_data[field].isin(filter_list)))
 
diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 8b721ef..e67ebfb 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1032,11 +1032,14 @@ class AggStat:
                             filter_list = filter_value.split(';')
                         else:
                             filter_list = [filter_value]
+                        as_text = list(filter_list)
                         for i, filter_val in enumerate(filter_list):
                             if is_string_integer(filter_val):
                                 filter_list[i] = int(filter_val)
                             elif is_string_strictly_float(filter_val):
                                 filter_list[i] = float(filter_val)
+                        # a column that holds names as well is not read as numbers
+                        filter_list.extend(as_text)
                         if field in self.input_data.keys():
                             if field != self.params['indy_var']:  #
                                 filters_wihtout_indy. \
diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index e7e2a3f..7e9e0d1 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -127,10 +127,10 @@ class AggStatBootstrap:
                 # extract the records for the current indy value
                 if is_string_integer(indy_val):
                     filtered_by_indy_data = \
-                        self.input_data[self.input_data[self.params['indy_var']] == int(indy_val)]
+                        self.input_data[self.input_data[self.params['indy_var']].isin([indy_val, int(indy_val)])]
                 elif is_string_strictly_float(indy_val):
                     filtered_by_indy_data = \
-                        self.input_data[self.input_data[self.params['indy_var']] == float(indy_val)]
+                        self.input_data[self.input_data[self.params['indy_var']].isin([indy_val, float(indy_val)])]
                 else:
                     filtered_by_indy_data = \
                         self.input_data[self.input_data[self.params['indy_var']] == indy_val]
@@ -149,11 +149,14 @@ class AggStatBootstrap:
                             filter_list = filter_value.split(';')
                         else:
                             filter_list = [filter_value]
+                        as_text = list(filter_list)
                         for i, filter_val in enumerate(filter_list):
                             if is_string_integer(filter_val):
                                 filter_list[i] = int(filter_val)
                             elif is_string_strictly_float(filter_val):
                                 filter_list[i] = float(filter_val)
+                        # a column that holds names as well is not read as numbers
+                        filter_list.extend(as_text)
 
                         all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
 
@@ -185,11 +188,14 @@ class AggStatBootstrap:
                                 filter_list = filter_value.split(';')
                             else:
                                 filter_list = [filter_value]
+                            as_text = list(filter_list)
                             for i, filter_val in enumerate(filter_list):
                                 if is_string_integer(filter_val):
                                     filter_list[i] = int(filter_val)
                                 elif is_string_strictly_float(filter_val):
                                     filter_list[i] = float(filter_val)
+                            # a column that holds names as well is not read as numbers
+                            filter_list.extend(as_text)
 
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
                             out_frame_filter.append((out_frame[field] == filter_value))
diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index f128f55..529740d 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -147,11 +147,14 @@ class Scorecard:
                         filter_list = filter_value.split(';')
                     else:
                         filter_list = [filter_value]
+                    as_text = list(filter_list)
                     for i, filter_val in enumerate(filter_list):
                         if is_string_integer(filter_val):
                             filter_list[i] = int(filter_val)
                         elif is_string_strictly_float(filter_val):
                             filter_list[i] = float(filter_val)
+                    # a column that holds names as well is not read as numbers
+                    filter_list.extend(as_text)
                     if field in self.input_data.keys():
                         if field != self.params['indy_var']:
                             filters_wihtout_indy.append((self.input_data[field].isin(filter_list)))
-- 
2.43.0


From 4c9b947f8b404a1305f6ef83e05df96c8b3a36d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:31 +0000
Subject: [PATCH 097/106] fix: scorecard significance uses the statistic of its
 own series

With several statistics in one scorecard request every difference significance
was oriented by the first statistic of the list. A second statistic with another
best value was then reported with the wrong sign.
---
 metcalcpy/scorecard.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index 529740d..e908a70 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -285,10 +285,12 @@ class Scorecard:
         # calculate derived statistic based on the operation and stat_flag
         derived_stat = None
         if derived_curve_component.derived_operation == 'DIFF_SIG':
+            # the statistic of this series, the request can name several
+            stat_name = ds_1_values['stat_name'].iloc[0]
             if self.params['stat_flag'] == 'EMC':
-                derived_stat = self._calculate_diff_sig_emc(stat_values_1, stat_values_2)
+                derived_stat = self._calculate_diff_sig_emc(stat_values_1, stat_values_2, stat_name)
             else:
-                derived_stat = self._calculate_diff_sig_ncar(stat_values_1, stat_values_2)
+                derived_stat = self._calculate_diff_sig_ncar(stat_values_1, stat_values_2, stat_name)
 
         elif derived_curve_component.derived_operation == 'DIFF':
             # perform the derived operation
@@ -326,12 +328,13 @@ class Scorecard:
         df.at[0, 'model'] = derived_name
         return df
 
-    def _calculate_diff_sig_ncar(self, ds_1_values, ds_2_values) -> float:
+    def _calculate_diff_sig_ncar(self, ds_1_values, ds_2_values, stat_name) -> float:
         """ calculates the difference significance between two data arrays using p-value
 
             Args:
                     ds_1_values: list of floats
                     ds_2_values: list of floats
+                    stat_name: the statistic of both arrays
             Returns: the difference significance
 
         """
@@ -344,16 +347,17 @@ class Scorecard:
         p_val = 1 - 2 * pt(abs(t), total - 1, lower_tail=False)
         derived_stat = perfect_score_adjustment(statistics.mean(ds_1_values),
                                                 statistics.mean(ds_2_values),
-                                                self.params['list_stat_1'][0],
+                                                stat_name,
                                                 p_val)
         return derived_stat
 
-    def _calculate_diff_sig_emc(self, ds_1_values, ds_2_values) -> float:
+    def _calculate_diff_sig_emc(self, ds_1_values, ds_2_values, stat_name) -> float:
         """ calculates the difference significance between two data arrays using EMC method
 
             Args:
                     ds_1_values: list of floats
                     ds_2_values: list of floats
+                    stat_name: the statistic of both arrays
             Returns: the difference significance
 
         """
@@ -369,13 +373,13 @@ class Scorecard:
         intvl = round(1.960 * std / math.sqrt(nsz - 1), 6)
         mean1 = round(statistics.mean(values_1), 6)
         mean2 = round(statistics.mean(values_2), 6)
-        if self.params['list_stat_1'][0].startswith('ME') or self.params['list_stat_1'][0].startswith('BIAS'):
+        if stat_name.startswith('ME') or stat_name.startswith('BIAS'):
             ds = (abs(mean2 - mean1)) / intvl
             sss = abs(mean2) - abs(mean1)
             if sss is not None and sss < 0:
                 ds = (-1) * ds
-        elif self.params['list_stat_1'][0].startswith('RMSE') \
-                or self.params['list_stat_1'][0].startswith('RMSVE'):
+        elif stat_name.startswith('RMSE') \
+                or stat_name.startswith('RMSVE'):
             ds = (mean2 - mean1) / intvl
         else:
             ds = (mean1 - mean2) / intvl
-- 
2.43.0


From 562cdc161a48c70487afd93bc959dac8754c1fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 07:14:22 +0000
Subject: [PATCH 098/106] fix: pool the values of a column of numbers

---
 metcalcpy/util/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 7a51f28..10d39d0 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -478,6 +478,9 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
             if ';' in series_val:
                 # found the aggregated field
                 single_values = series_val.split(';')
+                # a column of numbers is read as numbers
+                single_values.extend([int(val) for val in single_values if is_string_integer(val)]
+                                     + [float(val) for val in single_values if is_string_strictly_float(val)])
 
                 # for each valid
                 for valid in unique_valid:
@@ -507,6 +510,7 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                                     rows_for_agg.at[0, field] = aggregated_result[field][0]
 
                             # replace the aggregated field name
+                            rows_for_agg = rows_for_agg.astype({series_var: object})
                             rows_for_agg.at[0, series_var] = series_val
 
                             # add it to the result
@@ -519,7 +523,7 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                         # the single_values to int type so the pd.isin() properly matches
                         # the input_data_frame[series_var].
                         single_values_int = []
-                        for val in single_values:
+                        for val in series_val.split(';'):
                             if val != '':
                                 single_values_int.append((int(val)))
 
-- 
2.43.0


From f00f9db94e8d9d476327bef0639b333644dcd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 07:14:22 +0000
Subject: [PATCH 099/106] fix: a pooled row is not lost when another row is
 pooled

---
 metcalcpy/util/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 10d39d0..55ff77b 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -514,7 +514,8 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                             rows_for_agg.at[0, series_var] = series_val
 
                             # add it to the result
-                            input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]])
+                            input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]],
+                                                         ignore_index=True)
 
                     else:
                         # if the aggregated field is 'fcst_lead'
@@ -567,7 +568,8 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                             rows_for_agg.loc[0, series_var] = sep_val[0]
 
                         # add it to the result
-                        input_data_frame = pd.concat([input_data_frame,(rows_for_agg.iloc[:1])])
+                        input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]],
+                                                     ignore_index=True)
 
     return input_data_frame
 
-- 
2.43.0


From f92b95ca24d1b16cb0ccd94a1227bb3711f15e80 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 07:14:40 +0000
Subject: [PATCH 100/106] fix: pooled independent values of the neighbourhood
 and probability line types

---
 metcalcpy/util/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 55ff77b..0e732c0 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -454,6 +454,11 @@ def get_total_values(input_data, columns_names, aggregation):
     return total
 
 
+# line types of which the rows can be pooled
+SUMS_LINE_TYPES = ('ctc', 'nbrctc', 'nbr_ctc', 'sl1l2', 'sal1l2', 'vl1l2', 'val1l2', 'grad',
+                   'nbrcnt', 'nbr_cnt', 'ecnt', 'rps')
+
+
 def aggregate_field_values(series_var_val, input_data_frame, line_type):
     """Finds and aggregates statistics for fields with values containing ';'.
       Aggregation  happens by valid and lead times
@@ -469,6 +474,10 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                 Pandas DataFrame with aggregates statistics
             """
 
+    # the rows of a line type without sums stay as they are
+    if line_type not in SUMS_LINE_TYPES:
+        return input_data_frame
+
     # get unique values for valid date/time and lead time
     unique_valid = input_data_frame.fcst_valid_beg.unique()
     unique_lead = input_data_frame.fcst_lead.unique()
@@ -593,7 +602,7 @@ def calc_series_sums(input_df, line_type):
     sums_data_frame['total'] = [total]
 
     # proceed for the line type
-    if line_type in ('ctc', 'nbrctc'):
+    if line_type in ('ctc', 'nbrctc', 'nbr_ctc'):
         column_names = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']
         for column in column_names:
             sums_data_frame[column] = [sum_column_data_by_name(input_df.to_numpy(),
@@ -630,7 +639,7 @@ def calc_series_sums(input_df, line_type):
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
 
-    elif line_type == 'nbrcnt':
+    elif line_type in ('nbrcnt', 'nbr_cnt'):
         dbl_fbs = np.nansum(input_df['fbs'] * input_df.total.astype(float)) / total
         dbl_fss_den = np.nansum(
             (input_df['fbs'] / (1.0 - input_df['fss'])) * input_df.total.astype(float)) \
-- 
2.43.0


From 281cc9953473a2f7d39651c508eba75abee090ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 07:14:40 +0000
Subject: [PATCH 101/106] fix: a pooled independent value is not added to the
 series of the other points

---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index e67ebfb..8ce4ebe 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1090,7 +1090,7 @@ class AggStat:
                         point_data = aggregate_field_values(series_var_val, point_data, self.params['line_type'])
                     elif indy_val and ';' in indy_val:
                         # if aggregated value in indy val - add it to series values add aggregate
-                        series_indy_var_val = series_var_val
+                        series_indy_var_val = series_var_val.copy()
                         series_indy_var_val[self.params['indy_var']] = [indy_val]
                         point_data = aggregate_field_values(series_indy_var_val, point_data,
                                                             self.params['line_type'])
-- 
2.43.0


From c3489b15f8a6dd5fee52a4bff5524531e59119b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:13 +0000
Subject: [PATCH 102/106] fix: the row summary pools only values with ';' and
 keeps the rows of both axes

---
 metcalcpy/sum_stat.py | 84 +++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 44 deletions(-)

diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 086eca3..58799e9 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -61,7 +61,7 @@ from metcalcpy.util.utils import is_string_integer, parse_bool, \
 class SumStat:
     """A class that performs event equalisation if needed and statistics calculation
         on each row of the input data frame.
-        if one of the field values contain ':' (EAST:NMT) this class aggregate the values
+        if one of the field values contain ';' (EAST;NMT) this class aggregate the values
         for these fields first and than calculate statistics on the aggregated values
            All parameters including data description and location is in the parameters' dictionary
         Usage:
@@ -175,61 +175,57 @@ class SumStat:
             axis - y1 or y1 axis
         """
         # check if indy_vals have a field that need to be aggregated - the field with ';'
-        has_agg_indy_field = any(any(GROUP_SEPARATOR in i for i in item) for item in self.params['indy_vals'])
+        has_agg_indy_field = any(';' in str(item) for item in self.params['indy_vals'])
 
         # look if there is a field that need to be aggregated first - the field with ';'
         series_var_val = self.params['series_val_' + axis]
-        has_agg_series_field = any(any(GROUP_SEPARATOR in i for i in item) for item in series_var_val)
+        has_agg_series_field = any(';' in str(item) for items in series_var_val.values() for item in items)
 
         if series_var_val and (has_agg_indy_field or has_agg_series_field):
             # the special field was detected
 
             all_points = list(itertools.product(*series_var_val.values()))
-            aggregated_values = pd.DataFrame()
-            series_vars = list(series_var_val.keys())
+            aggregated_values = []
+            used_indexes = set()
             for indy_val in self.params['indy_vals']:
-                # filter the input frame by each indy value
-                if indy_val is None:
-                    filtered_by_indy = self.input_data
-                else:
-                    # filter by value or split the value and filter by multiple values
-                    filtered_by_indy = self.input_data[
-                        self.input_data[self.params['indy_var']].isin(indy_val.split(';'))]
-
                 for point in all_points:
-                    point_data = filtered_by_indy
-
-                    for index, series_var in enumerate(series_vars):
-                        # get actual series value(s) and filter by them
-                        if ';' in point[index]:
-                            actual_series_vals = point[index].split(';')
-                        else:
-                            actual_series_vals = point[index].split(GROUP_SEPARATOR)
-                        for ind, val in enumerate(actual_series_vals):
-                            if is_string_integer(val):
-                                actual_series_vals[ind] = int(val)
-                            elif is_string_strictly_float(val):
-                                actual_series_vals[ind] = float(val)
-                        point_data = \
-                            point_data[point_data[series_vars[index]].isin(actual_series_vals)]
-
-                    # aggregate point data
-                    if any(';' in series_val for series_val in point):
-                        point_data = aggregate_field_values(series_var_val,
-                                                            point_data,
-                                                            self.params['line_type'])
-                    elif ';' in indy_val:
-                        # if aggregated value in indy val - add it to series values add aggregate
-                        series_indy_var_val = series_var_val
-                        series_indy_var_val[self.params['indy_var']] = [indy_val]
-                        point_data = aggregate_field_values(series_indy_var_val,
-                                                            point_data,
-                                                            self.params['line_type'])
-
-                    aggregated_values = pd.concat([aggregated_values, point_data])
-            self.input_data = aggregated_values
+                    # values of the series and of the independent variable at this point
+                    point_var_val = {var: [val] for var, val in zip(series_var_val, point)}
+                    if indy_val is not None:
+                        point_var_val[self.params['indy_var']] = [str(indy_val)]
+
+                    # get actual value(s) and filter by them
+                    point_data = self.input_data
+                    for var, vals in point_var_val.items():
+                        point_data = point_data[point_data[var].isin(self.get_actual_values(vals[0]))]
+                    used_indexes.update(point_data.index)
+
+                    # aggregate point data of each variable and statistic
+                    if any(';' in vals[0] for vals in point_var_val.values()):
+                        for _, stat_data in point_data.groupby(['fcst_var', 'stat_name'], sort=False, dropna=False):
+                            aggregated_values.append(aggregate_field_values(point_var_val, stat_data,
+                                                                            self.params['line_type']))
+                    else:
+                        aggregated_values.append(point_data)
+
+            # the rows of the other axis stay as they are
+            aggregated_values.append(self.input_data.drop(index=list(used_indexes)))
+            self.input_data = pd.concat(aggregated_values)
             self.input_data.reset_index(inplace=True, drop=True)
 
+    @staticmethod
+    def get_actual_values(value):
+        """Splits the value with ';' or with the group separator into the values of the data frame
+            Args:
+                value - a single value, values separated by ';' or a group of values
+            Returns:
+                list of the values as strings and - if possible - as numbers
+        """
+        actual_values = value.split(';') if ';' in value else [value] + value.split(GROUP_SEPARATOR)
+        actual_values.extend([int(val) for val in actual_values if is_string_integer(val)]
+                             + [float(val) for val in actual_values if is_string_strictly_float(val)])
+        return actual_values
+
     def prepare_rows(self):
         """Adds to a copy of the data frame the fields that are not in the line type
             but are used by the statistics
-- 
2.43.0


From a2813fa0a9a555e26c32ae42719185d21f432510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:03 +0000
Subject: [PATCH 103/106] fix: wave activity of a time with a missing point is
 missing instead of zero

---
 metcalcpy/contributed/tropical_diagnostics/ccew_activity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
index 5e1ae86..e2474c8 100644
--- a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
+++ b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
@@ -125,7 +125,7 @@ def waveact(data: object, wave: str, eofpath: str, spd: int, res: str, nlat: int
 
     # compute activity
     waveact = xr.DataArray(0., coords=[data_anom.time], dims=['time'])
-    waveact.values = np.sqrt(np.sum(np.square(tswave), 0))
+    waveact.values = np.sqrt(np.sum(np.square(tswave.values), 0))
     try:
         waveact.attrs['units'] = data.attrs['units']
     except KeyError:
-- 
2.43.0


From 002fb456fda808677483749d3433f38e8126919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:06:13 +0000
Subject: [PATCH 104/106] fix: the validation removes only the results of the
 plot that agrees, not of plots whose names start alike

---
 metcalcpy/validate_mv_python.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index 8ff3d7b..77af15e 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -136,9 +136,9 @@ def main(params):
             # remove new XML
             os.remove(new_xml_file)
             # remove new script
-            delete_similar_files(params['output_scripts_dir'], plot_name)
+            delete_similar_files(params['output_scripts_dir'], replace_name(plot_name, 'py'))
             # remove new data files
-            delete_similar_files(params['output_data_dir'], plot_name)
+            delete_similar_files(params['output_data_dir'], replace_name(plot_name, 'py'))
 
         else:
             # compare images
@@ -152,9 +152,9 @@ def main(params):
                     # remove new XML
                     os.remove(new_xml_file)
                     # remove new script
-                    delete_similar_files(params['output_scripts_dir'], plot_name)
+                    delete_similar_files(params['output_scripts_dir'], replace_name(plot_name, 'py'))
                     # remove new data files
-                    delete_similar_files(params['output_data_dir'], plot_name)
+                    delete_similar_files(params['output_data_dir'], replace_name(plot_name, 'py'))
 
                 else:
                     print(f'ERROR: For {plot_name} images are different')
@@ -174,9 +174,8 @@ def delete_similar_files(directory, file_name):
             file_name - name of the file to delete
 
     """
-    for filename in glob.glob(directory
-                              + file_name.split('.')[0]
-                              + '*'):
+    for filename in glob.glob(glob.escape(directory + os.path.splitext(file_name)[0])
+                              + '.*'):
         os.remove(filename)
 
 
-- 
2.43.0


From 19371ee8572b3fd19a14a0302c9434ba27f4b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:47:13 +0000
Subject: [PATCH 105/106] fix: vertical_interp --create_time_dim failed to
 convert the valid and initial times

---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 31029b3..561ff92 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -507,9 +507,9 @@ def write_dataset(ds, ds_nc, coords_interp=None,
         time_coord = ds_nc.createVariable(
             'valid_time', 'float64', ('valid_time'))
         dt_valid = datetime.utcfromtimestamp(
-            ds['valid_time'].astype('O')/1e9)
+            ds['valid_time'].values.astype('O')/1e9)
         dt_init = datetime.utcfromtimestamp(
-            ds['init_time'].astype('O')/1e9)
+            ds['init_time'].values.astype('O')/1e9)
         time_coord[:] = (dt_valid - dt_init).total_seconds()
         time_coord.long_name = 'valid_time'
         time_coord.units = 'seconds since ' + str(dt_init)
-- 
2.43.0


From 5aea3b4f1b16b79d1b63c973379c0966e110c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:49:42 +0000
Subject: [PATCH 106/106] fix: vertical_interp took the reference time from the
 directory when its name had a dot

---
 metcalcpy/vertical_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 561ff92..bd7c667 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -695,7 +695,7 @@ if __name__ == '__main__':
         logging.info('Creating with NetCDF4 ' + filename_out)
         ds_nc = nc.Dataset(filename_out, 'w')
         if args.ref_time_from_filename: 
-            ref_time = filename_out.split('.')[1]
+            ref_time = os.path.basename(filename_out).split('.')[1]
             write_dataset(ds_out, ds_nc, coords_interp=coords_interp,
                 forecast_reference_time=ref_time, create_time_dim=args.create_time_dim)
         else:
-- 
2.43.0

