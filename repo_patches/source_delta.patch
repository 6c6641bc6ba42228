From 21ffc9064235a4c46c3b668a2006162e159b156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 01/48] fix: covering a short at twice its entry price with
 locked cash no longer divides by zero

---
 vectorbt/portfolio/nb.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index f54b4a0..e510fe7 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -104,8 +104,13 @@ def buy_nb(
             elif cover_free_cash < 0:
                 # Not enough cash to close out the short position
                 avg_entry_price = exec_state.debt / abs(exec_state.position)
-                max_short_size = (exec_state.free_cash - fixed_fees) / (adj_price * (1 + fees) - 2 * avg_entry_price)
-                cash_limit = max_short_size * adj_price * (1 + fees) + fixed_fees
+                cover_cost = adj_price * (1 + fees) - 2 * avg_entry_price
+                if cover_cost > 0:
+                    max_short_size = (exec_state.free_cash - fixed_fees) / cover_cost
+                    cash_limit = max_short_size * adj_price * (1 + fees) + fixed_fees
+                else:
+                    # Covering frees at least as much cash as it costs (before fixed fees)
+                    cash_limit = exec_state.cash
             else:
                 # Exact amount of cash to close out the short position
                 cash_limit = exec_state.cash
-- 
2.43.0


From fbdf0d05f0f272de2f52293407df4dbeab15030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 02/48] fix: locked cash keeps free cash from turning negative
 when fixed fees exceed the cash freed by covering

---
 vectorbt/portfolio/nb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index e510fe7..280dc4e 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -210,6 +210,10 @@ def buy_nb(
         new_debt = exec_state.debt
         new_free_cash = add_nb(exec_state.free_cash, -final_req_cash)
 
+    if lock_cash and new_free_cash < 0 <= exec_state.free_cash:
+        # Fixed fees exceed the cash freed by covering
+        return exec_state, order_not_filled_nb(OrderStatus.Rejected, OrderStatusInfo.CantCoverFees)
+
     # Return filled order
     order_result = OrderResult(final_size, adj_price, fees_paid, OrderSide.Buy, OrderStatus.Filled, -1)
     new_exec_state = ExecuteOrderState(cash=new_cash, position=new_position, debt=new_debt, free_cash=new_free_cash)
-- 
2.43.0


From 16bf703a8a9f40a2f2377fde0865fa0ed0b3b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 03/48] fix: ignore orders of zero percent instead of filling
 them with NaN

---
 vectorbt/portfolio/nb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 280dc4e..9fd5b43 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -470,6 +470,9 @@ def execute_order_nb(state: ProcessOrderState, order: Order) -> tp.Tuple[Execute
     percent = np.nan
     if order_size_type == SizeType.Percent:
         # Percentage of resources
+        if order_size == 0:
+            return exec_state, order_not_filled_nb(OrderStatus.Ignored, OrderStatusInfo.SizeZero)
+
         percent = abs(order_size)
         order_size = np.sign(order_size) * np.inf
         order_size_type = SizeType.Amount
-- 
2.43.0


From 1f9323250c805d36a89335909facb457bb1b90bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 04/48] fix: covering with exactly enough free cash no longer
 spends cash locked by other columns

---
 vectorbt/portfolio/nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 9fd5b43..488c74b 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -113,7 +113,7 @@ def buy_nb(
                     cash_limit = exec_state.cash
             else:
                 # Exact amount of cash to close out the short position
-                cash_limit = exec_state.cash
+                cash_limit = exec_state.free_cash + 2 * exec_state.debt
     else:
         cash_limit = exec_state.cash
     cash_limit = min(cash_limit, exec_state.cash)
-- 
2.43.0


From 0585be535f11ac7480d6a0f0b6ea43b38df5ad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 05/48] fix: selling more than 100% of a long-only position no
 longer goes short

---
 vectorbt/portfolio/nb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 488c74b..5670678 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -284,6 +284,8 @@ def sell_nb(
     if not np.isnan(percent):
         # Apply percentage
         size_limit = percent * size_limit
+        if direction == Direction.LongOnly:
+            size_limit = min(size_limit, exec_state.position)
 
     if size_limit > max_size:
         if not allow_partial:
-- 
2.43.0


From 79ad41cadd6fe37d718dc1dab30d979554d2d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 06/48] fix: ignore buy orders whose affordable size rounds
 down to zero instead of filling them with size zero

---
 vectorbt/portfolio/nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 5670678..4406840 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -181,7 +181,7 @@ def buy_nb(
             fees_paid = cash_limit - max_req_cash
             final_req_cash = cash_limit
 
-    if is_close_nb(adj_size, 0):
+    if is_close_nb(final_size, 0):
         return exec_state, order_not_filled_nb(OrderStatus.Ignored, OrderStatusInfo.SizeZero)
 
     # Check against minimum size
-- 
2.43.0


From aa636c3d298bf676314a15e38f390333739d1c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 07/48] fix: rolling and expanding mean of an all-NaN window
 with minp=0 is NaN instead of a division by zero

---
 vectorbt/generic/nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index cfe2feb..b638878 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -741,7 +741,7 @@ def rolling_mean_1d_nb(a: tp.Array1d, window: int, minp: tp.Optional[int] = None
         else:
             window_len = window - (nancnt - nancnt_arr[i - window])
             window_cumsum = cumsum - cumsum_arr[i - window]
-        if window_len < minp:
+        if window_len < minp or window_len == 0:
             out[i] = np.nan
         else:
             out[i] = window_cumsum / window_len
-- 
2.43.0


From 2d74dc822cb2dad9a52e6173035d8a593842684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 08/48] fix: shifting by a negative number of positions no
 longer reads outside of the array

---
 vectorbt/generic/nb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index b638878..9908445 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -237,7 +237,7 @@ def _bshift_1d_nb(arr, n, fill_value):
     def impl(arr, n, fill_value):
         out = np.empty(arr.shape[0], dtype=dtype)
         for i in range(out.shape[0]):
-            if i + n <= out.shape[0] - 1:
+            if 0 <= i + n < out.shape[0]:
                 out[i] = arr[i + n]
             else:
                 out[i] = fill_value
@@ -313,7 +313,7 @@ def _fshift_1d_nb(arr, n, fill_value):
     def impl(arr, n, fill_value):
         out = np.empty(arr.shape[0], dtype=dtype)
         for i in range(out.shape[0]):
-            if i - n >= 0:
+            if 0 <= i - n < out.shape[0]:
                 out[i] = arr[i - n]
             else:
                 out[i] = fill_value
-- 
2.43.0


From 7232e8b7565b3d20960c38be6dcf3dc568ac3891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 09/48] fix: keep the active drawdown of a series that ends
 with missing values

---
 vectorbt/generic/nb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index 9908445..a01cebe 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -1856,6 +1856,9 @@ def get_drawdowns_nb(ts: tp.Array2d) -> tp.RecordArray:
         valley_val = ts[0, col]
         store_record = False
         status = -1
+        last_idx = ts.shape[0] - 1
+        while last_idx > 0 and np.isnan(ts[last_idx, col]):
+            last_idx -= 1
 
         for i in range(ts.shape[0]):
             cur_val = ts[i, col]
@@ -1886,7 +1889,7 @@ def get_drawdowns_nb(ts: tp.Array2d) -> tp.RecordArray:
                             valley_val = cur_val
                             valley_idx = i
 
-                if i == ts.shape[0] - 1 and drawdown_started:
+                if i == last_idx and drawdown_started:
                     # If still running, mark for save
                     drawdown_started = False
                     store_record = True
-- 
2.43.0


From cf2d7baa4140bf3fdebaf05629f0f35ab9d79f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 10/48] fix: normalized overlapping coverage of ranges that
 cover no rows is NaN instead of a division by zero

---
 vectorbt/generic/nb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index a01cebe..d72e210 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -1772,7 +1772,8 @@ def range_coverage_nb(
                 temp[start_idx_arr[ridx] : end_idx_arr[ridx]] += 1
         if overlapping:
             if normalize:
-                out[col] = np.sum(temp > 1) / np.sum(temp > 0)
+                if np.any(temp > 0):
+                    out[col] = np.sum(temp > 1) / np.sum(temp > 0)
             else:
                 out[col] = np.sum(temp > 1)
         else:
-- 
2.43.0


From 2c4baa14c26ddfc011e2a25960b6a9d2473ead47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 11/48] fix: generate_rand_enex_nb with n=0 and a wait other
 than 1 picks nothing

---
 vectorbt/signals/nb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/signals/nb.py b/vectorbt/signals/nb.py
index a73da58..33d548e 100644
--- a/vectorbt/signals/nb.py
+++ b/vectorbt/signals/nb.py
@@ -447,6 +447,8 @@ def generate_rand_enex_nb(
     else:
         for col in range(shape[1]):
             _n = flex_select_auto_nb(ns, 0, col, True)
+            if _n == 0:
+                continue
             if _n == 1:
                 entry_idx = np.random.randint(0, shape[0] - exit_wait)
                 entries[entry_idx, col] = True
-- 
2.43.0


From bc171e96a42b74e9827f616105251fd9c2065750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 12/48] fix: generate_ohlc_stop_exits with out_dict on a single
 column wrote into read-only arrays

---
 vectorbt/signals/accessors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index 7f60161..d7b869d 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1072,8 +1072,8 @@ class SignalsAccessor(GenericAccessor):
             stop_type_out = np.empty(shape, dtype=np.int64)
         else:
             stop_type_out = out_args[0]
-        stop_price_out = np.ascontiguousarray(reshape_fns.to_2d_array(stop_price_out), dtype=np.float64)
-        stop_type_out = np.ascontiguousarray(reshape_fns.to_2d_array(stop_type_out), dtype=np.int64)
+        stop_price_out = np.require(reshape_fns.to_2d_array(stop_price_out), dtype=np.float64, requirements=["C", "W"])
+        stop_type_out = np.require(reshape_fns.to_2d_array(stop_type_out), dtype=np.int64, requirements=["C", "W"])
 
         # Perform generation
         if chain:
-- 
2.43.0


From fb7a34866eba5df7474fade0e60a5e3d24e9718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:59 +0000
Subject: [PATCH 13/48] fix: returns resample_total_return failed when a period
 holds no rows

---
 vectorbt/returns/accessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/returns/accessors.py b/vectorbt/returns/accessors.py
index 9ef23e1..aeb54b6 100644
--- a/vectorbt/returns/accessors.py
+++ b/vectorbt/returns/accessors.py
@@ -306,7 +306,7 @@ class ReturnsAccessor(GenericAccessor):
         engine = engine if engine is not None else self.engine
         returns_2d = self.to_2d_array()
         resampled = self.obj.resample(freq, **kwargs)
-        out = np.full((resampled.ngroups, returns_2d.shape[1]), np.nan)
+        out = np.full((len(resampled.indices), returns_2d.shape[1]), np.nan)
         for i, idxs in enumerate(resampled.indices.values()):
             out[i] = dispatch.cum_returns_final(returns_2d[np.asarray(idxs)], 0.0, engine=engine)
         out_obj = self.wrapper.wrap(out, group_by=False, index=list(resampled.indices.keys()))
-- 
2.43.0


From eeaaf764cd42d30417dbe226fb223bf31ce7843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 14/48] fix: MappedArray.describe failed without row indices or
 with several values in one row

---
 vectorbt/records/mapped_array.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index cb6adef..b95f235 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -973,19 +973,19 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
         **kwargs,
     ) -> tp.SeriesFrame:
         """Return statistics by column/group."""
-        if (
+        # Starting from version 3, pandas doesn't add the median to custom percentiles
+        add_median = not (
             int(pd.__version__.split(".")[0]) >= 3
             and not self.wrapper.grouper.is_grouped(group_by=group_by)
             and wrap_kwargs is None
             and ddof == 1
-        ):
-            return self.to_pd().describe(percentiles=percentiles)
+        )
         if percentiles is not None:
             percentiles = to_1d_array(percentiles)
         else:
             percentiles = np.array([0.25, 0.5, 0.75])
         percentiles = percentiles.tolist()
-        if 0.5 not in percentiles:
+        if add_median and 0.5 not in percentiles:
             percentiles.append(0.5)
         percentiles = np.unique(percentiles)
         perc_formatted = pd.io.formats.format.format_percentiles(percentiles)
-- 
2.43.0


From 38b5f57939b35961c739daf603a08f686978658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 15/48] fix: value in simulation order with a call sequence
 that changes between rows

value_in_sim_order_nb subtracted the previous asset value of the same slot of the
call sequence rather than of the same column, so with call_seq='auto'/'random' the
series jumped by the difference of two columns' asset values
---
 vectorbt/portfolio/nb.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 4406840..ad25c9b 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -6835,25 +6835,24 @@ def value_in_sim_order_nb(
         group_len = to_col - from_col
         asset_value_now = 0.0
         # Without correctly treating NaN values, after one NaN all will be NaN
-        since_last_nan = group_len
+        nan_count = 0
         for j in range(cash.shape[0] * group_len):
             i = j // group_len
             col = from_col + call_seq[i, from_col + j % group_len]
-            if j >= group_len:
-                last_j = j - group_len
-                last_i = last_j // group_len
-                last_col = from_col + call_seq[last_i, from_col + last_j % group_len]
-                if not np.isnan(asset_value[last_i, last_col]):
-                    asset_value_now -= asset_value[last_i, last_col]
+            if i > 0:
+                # Replace the previous value of the same column (the call sequence may change from row to row)
+                if np.isnan(asset_value[i - 1, col]):
+                    nan_count -= 1
+                else:
+                    asset_value_now -= asset_value[i - 1, col]
             if np.isnan(asset_value[i, col]):
-                since_last_nan = 0
+                nan_count += 1
             else:
                 asset_value_now += asset_value[i, col]
-            if since_last_nan < group_len:
+            if nan_count > 0:
                 out[i, col] = np.nan
             else:
                 out[i, col] = cash[i, col] + asset_value_now
-            since_last_nan += 1
 
         from_col = to_col
     return out
-- 
2.43.0


From 97e5d51647a1df517e815d54f7d96a4e70fa74e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 16/48] fix: total profit of a closed position whose last price
 is NaN

total_profit_nb multiplied the (zero) assets by the last price, giving NaN where
Portfolio.value - which ignores the price without a position - gives a number
---
 vectorbt/portfolio/nb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index ad25c9b..25c364c 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -6911,7 +6911,8 @@ def total_profit_nb(
                 order_cash = record["size"] * record["price"] - record["fees"]
                 cash[col] = add_nb(cash[col], order_cash)
 
-    total_profit = cash + assets * close[-1, :]
+    # Without an open position the last price is irrelevant and may be NaN (same as in `Portfolio.asset_value`)
+    total_profit = cash + np.where(assets == 0, 0.0, assets * close[-1, :])
     total_profit[zero_mask] = 0.0
     return total_profit
 
-- 
2.43.0


From 1f1ac66200f8f6d19d18a3ba025561febbe8fb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 17/48] fix: get_ranges_arr with one start or end for several
 ranges

---
 vectorbt/utils/array_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/array_.py b/vectorbt/utils/array_.py
index 354034b..551b6e4 100644
--- a/vectorbt/utils/array_.py
+++ b/vectorbt/utils/array_.py
@@ -50,7 +50,7 @@ def get_ranges_arr(starts: tp.ArrayLike, ends: tp.ArrayLike) -> tp.Array1d:
     ends_arr = np.asarray(ends)
     if ends_arr.ndim == 0:
         ends_arr = np.array([ends_arr])
-    starts_arr, end = np.broadcast_arrays(starts_arr, ends_arr)
+    starts_arr, ends_arr = np.broadcast_arrays(starts_arr, ends_arr)
     counts = ends_arr - starts_arr
     counts_csum = counts.cumsum()
     id_arr = np.ones(counts_csum[-1], dtype=int)
-- 
2.43.0


From 2e573c2884784c83b708e5bd5dc80e9a5438eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 18/48] fix: rename_levels renames a copy of a single-level
 index

---
 vectorbt/base/index_fns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index 7dad4c0..1fc9525 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -184,7 +184,7 @@ def rename_levels(index: tp.Index, name_dict: tp.Dict[str, tp.Any], strict: bool
                 raise KeyError(f"Level '{k}' not found")
         else:
             if index.name == k:
-                index.name = v
+                index = index.rename(v)
             elif strict:
                 raise KeyError(f"Level '{k}' not found")
     return index
-- 
2.43.0


From db5c6899806d74ab9f6ff9d04b2b21019d003433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 19/48] fix: unstack_to_df labels rows and columns in the order
 of the unstacked array

---
 vectorbt/base/reshape_fns.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vectorbt/base/reshape_fns.py b/vectorbt/base/reshape_fns.py
index 6b9aa3c..b2eddb5 100644
--- a/vectorbt/base/reshape_fns.py
+++ b/vectorbt/base/reshape_fns.py
@@ -936,8 +936,9 @@ def unstack_to_df(
             column_levels = 1
 
     # Build new index and column hierarchies
-    new_index = index_fns.select_levels(arg.index, index_levels).unique()
-    new_columns = index_fns.select_levels(arg.index, column_levels).unique()
+    # Labels must be sorted the same way as in unstack_to_array
+    new_index = index_fns.select_levels(sr.index, index_levels).unique().sort_values()
+    new_columns = index_fns.select_levels(sr.index, column_levels).unique().sort_values()
 
     # Unstack and post-process
     unstacked = unstack_to_array(sr, levels=(index_levels, column_levels))
-- 
2.43.0


From a7cdcd429ccbc3a4dbc13843cc2b4dbd4bfcbf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 20/48] fix: align_index_to raises when the second index has
 combinations missing in the first

---
 vectorbt/base/index_fns.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index 1fc9525..6a339f2 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -259,6 +259,8 @@ def _align_index_to_nb(a: tp.Array1d, b: tp.Array1d) -> tp.Array1d:
                 idxs[g] = j
                 g += 1
                 break
+        if g == i:
+            raise ValueError("Second index contains values not in first index")
     return idxs
 
 
-- 
2.43.0


From 01bca563cb08f8073b4b5d3dd7ff03973a32efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 21/48] fix: selecting three or more groups keeps every column
 in its own group

---
 vectorbt/base/array_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index c0a84d7..4d73dcd 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -311,7 +311,7 @@ class ArrayWrapper(Configured, PandasIndexer):
                 # We could do _self.group_by[ungrouped_col_idxs] but indexing operation may have changed the labels
                 group_lens = _self.grouper.get_group_lens()[group_idxs_arr]
                 ungrouped_group_idxs = np.full(len(ungrouped_columns), 0)
-                ungrouped_group_idxs[group_lens[:-1]] = 1
+                ungrouped_group_idxs[np.cumsum(group_lens[:-1])] = 1
                 ungrouped_group_idxs = np.cumsum(ungrouped_group_idxs)
 
                 return (
-- 
2.43.0


From 41781e1de6aaa1db13f80b10b02209c452cbae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 22/48] fix: param indexers keep the columns when every level
 belongs to the selected parameter

---
 vectorbt/base/indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/indexing.py b/vectorbt/base/indexing.py
index ca08cfc..5e40e82 100644
--- a/vectorbt/base/indexing.py
+++ b/vectorbt/base/indexing.py
@@ -221,7 +221,7 @@ class ParamLoc(LocBase):
                 if self.level_name is not None:
                     if checks.is_frame(new_obj):
                         if isinstance(new_obj.columns, pd.MultiIndex):
-                            new_obj.columns = index_fns.drop_levels(new_obj.columns, self.level_name)
+                            new_obj.columns = index_fns.drop_levels(new_obj.columns, self.level_name, strict=False)
             return new_obj
 
         return self.indexing_func(pd_indexing_func, **self.indexing_kwargs)
-- 
2.43.0


From 2e62770326a8988f7adc5797f97c8620d11c73d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 23/48] fix: same_keys of merge_dicts applies to nested and to
 empty dicts

---
 vectorbt/utils/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 00665b5..07099d1 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -157,7 +157,7 @@ def update_dict(
 
     for k, v in y.items():
         if nested and k in x and isinstance(x[k], dict) and isinstance(v, dict) and not isinstance(v, atomic_dict):
-            update_dict(x[k], v, force=force)
+            update_dict(x[k], v, force=force, same_keys=same_keys)
         else:
             if same_keys and k not in x:
                 continue
@@ -190,7 +190,7 @@ def merge_dicts(
             dicts = tuple([copy_dict(dct, copy_mode=copy_mode, nested=nested) for dct in dicts])
     x, y = dicts[0], dicts[1]
     should_update = True
-    if x.__class__ is dict and y.__class__ is dict and len(x) == 0:
+    if x.__class__ is dict and y.__class__ is dict and len(x) == 0 and not same_keys:
         x = y
         should_update = False
     if isinstance(x, atomic_dict) or isinstance(y, atomic_dict):
-- 
2.43.0


From e53ea914d595c2fbf8d5edf4ba2de922f5039ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 24/48] fix: is_deep_equal compares the lengths of sequences
 and dicts

---
 vectorbt/utils/checks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/utils/checks.py b/vectorbt/utils/checks.py
index 055b667..b989bfe 100644
--- a/vectorbt/utils/checks.py
+++ b/vectorbt/utils/checks.py
@@ -323,9 +323,11 @@ def is_deep_equal(arg1: tp.Any, arg2: tp.Any, check_exact: bool = False, **kwarg
                 _check_array(np.testing.assert_allclose)
         else:
             if isinstance(arg1, (tuple, list)):
+                safe_assert(len(arg1) == len(arg2))
                 for i in range(len(arg1)):
                     safe_assert(is_deep_equal(arg1[i], arg2[i], **kwargs))
             elif isinstance(arg1, dict):
+                safe_assert(len(arg1) == len(arg2))
                 for k in arg1.keys():
                     safe_assert(is_deep_equal(arg1[k], arg2[k], **kwargs))
             else:
-- 
2.43.0


From ce4f35a93827bf7ee850ad903f4d6cb91c219b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 25/48] fix: setdefault and |= respect frozen and read-only
 configs

---
 vectorbt/utils/config.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 07099d1..0feec40 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -553,6 +553,17 @@ class Config(PickleableDict, Documented):
         dict.clear(self)
         self._clear_attrs(prior_keys)
 
+    def setdefault(self, k: str, v: tp.Any = None, force: bool = False) -> tp.Any:
+        """Return the value under the key, and set it first if the key is missing."""
+        if k not in self:
+            self.__setitem__(k, v, force=force)
+        return self[k]
+
+    def __ior__(self: ConfigT, other: tp.Any) -> ConfigT:
+        """Update the config without merging child dicts."""
+        self.update(other, nested=False)
+        return self
+
     def update(self, *args, nested: tp.Optional[bool] = None, force: bool = False, **kwargs) -> None:
         """Update the config.
 
-- 
2.43.0


From 11f0cb2ee988afaf7898ba222b7f6db821ff859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 26/48] fix: configs with keys other than strings can be loaded

---
 vectorbt/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 0feec40..2977064 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -266,7 +266,7 @@ class PickleableDict(Pickleable, dict):
         for k, v in config.items():
             if isinstance(v, DumpTuple):
                 config[k] = v.cls.loads(v.dumps, **kwargs)
-        return cls(**config)
+        return cls(config)
 
     def load_update(self, fname: tp.FileName, **kwargs) -> None:
         """Load dumps from a file and update this instance."""
-- 
2.43.0


From d82a414ec56e173b4b21b0505eb61c8c9290af24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:34 +0000
Subject: [PATCH 27/48] fix: updating data keeps known values of symbols that
 were not updated at a row

---
 vectorbt/data/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index e869b3a..5d750d6 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -646,6 +646,7 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
             new_data[k] = new_obj
 
         # Align index and columns
+        new_index = {k: v.index for k, v in new_data.items()}
         new_data = self.align_index(new_data, missing=self.missing_index)
         new_data = self.align_columns(new_data, missing=self.missing_columns)
 
@@ -656,8 +657,11 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
                     v = v[self.data[k].name]
             else:
                 v = v[self.data[k].columns]
+            # Data points set to NaN during alignment do not replace known data points
+            v = v[v.index.isin(new_index[k]) | ~v.index.isin(self.data[k].index)]
             v = pd.concat((self.data[k], v), axis=0)
-            v = v[~v.index.duplicated(keep="last")]
+            index = v.index.unique()
+            v = v[~v.index.duplicated(keep="last")].reindex(index)
             if isinstance(v.index, pd.DatetimeIndex):
                 v.index.freq = v.index.inferred_freq
             new_data[k] = v
-- 
2.43.0


From 9afad0840db35765a92b0e80fcc10d986c7dc1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:34 +0000
Subject: [PATCH 28/48] fix: align_columns keeps the values of series with
 different names

---
 vectorbt/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index 5d750d6..e03e8f5 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -449,7 +449,7 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
             if isinstance(v, pd.Series):
                 v = v.to_frame()
             v = v.reindex(columns=columns)
-            if not multiple_columns:
+            if not multiple_columns and len(columns) == 1:
                 v = v[columns[0]]
                 if name_is_none:
                     v = v.rename(None)
-- 
2.43.0


From 6eb2495dc6aa0b6428063823f790b0ec7351e2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 29/48] fix: Data.concat of one symbol keeps columns that are
 not floating

---
 vectorbt/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index e03e8f5..d80fa2c 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -682,7 +682,7 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
         if len(self.symbols) > 1:
             new_data = {c: pd.DataFrame(index=index, columns=pd.Index(self.symbols, name=level_name)) for c in columns}
         else:
-            new_data = {c: pd.Series(index=index, name=self.symbols[0]) for c in columns}
+            new_data = {c: pd.Series(index=index, name=self.symbols[0], dtype=object) for c in columns}
         for c in columns:
             for s in self.symbols:
                 if isinstance(self.data[s], pd.Series):
-- 
2.43.0


From 884a71ea77c55534eed329451e0d63cff620a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 30/48] fix: paginated downloads do not end after one row if a
 page has only one

---
 vectorbt/data/custom.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vectorbt/data/custom.py b/vectorbt/data/custom.py
index 64dee86..0afa00a 100644
--- a/vectorbt/data/custom.py
+++ b/vectorbt/data/custom.py
@@ -494,7 +494,7 @@ class BinanceData(Data):
                     endTime=end_ts,
                 )
                 if len(data) > 0:
-                    next_data = list(filter(lambda d: next_start_ts < d[0] < end_ts, next_data))
+                    next_data = list(filter(lambda d: next_start_ts <= d[0] < end_ts, next_data))
                 else:
                     next_data = list(filter(lambda d: d[0] < end_ts, next_data))
 
@@ -504,7 +504,7 @@ class BinanceData(Data):
                 data += next_data
                 pbar.set_description("{} - {}".format(_ts_to_str(start_ts), _ts_to_str(next_data[-1][0])))
                 pbar.update(1)
-                next_start_ts = next_data[-1][0]
+                next_start_ts = next_data[-1][0] + 1  # the last row is already there
                 if delay is not None:
                     time.sleep(delay / 1000)  # be kind to api
 
@@ -719,7 +719,7 @@ class CCXTData(Data):
                 # Fetch the klines for the next interval
                 next_data = _fetch(next_start_ts, limit)
                 if len(data) > 0:
-                    next_data = list(filter(lambda d: next_start_ts < d[0] < end_ts, next_data))
+                    next_data = list(filter(lambda d: next_start_ts <= d[0] < end_ts, next_data))
                 else:
                     next_data = list(filter(lambda d: d[0] < end_ts, next_data))
 
@@ -729,7 +729,7 @@ class CCXTData(Data):
                 data += next_data
                 pbar.set_description("{} - {}".format(_ts_to_str(start_ts), _ts_to_str(next_data[-1][0])))
                 pbar.update(1)
-                next_start_ts = next_data[-1][0]
+                next_start_ts = next_data[-1][0] + 1  # the last row is already there
                 if delay is not None:
                     time.sleep(delay / 1000)  # be kind to api
 
-- 
2.43.0


From 82e1f2e6ae4f2ab6d32cbd806e2067b7190a865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 31/48] fix: Rust engine: covering a short with locked cash as
 in the Numba engine

---
 rust/src/portfolio.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index f65e8bc..4f3b1fa 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -787,11 +787,16 @@ fn buy(
                 exec_state.free_cash + 2.0 * exec_state.debt
             } else if cover_free_cash < 0.0 {
                 let avg_entry_price = exec_state.debt / exec_state.position.abs();
-                let max_short_size =
-                    (exec_state.free_cash - fixed_fees) / (adj_price * (1.0 + fees) - 2.0 * avg_entry_price);
-                max_short_size * adj_price * (1.0 + fees) + fixed_fees
+                let cover_cost = adj_price * (1.0 + fees) - 2.0 * avg_entry_price;
+                if cover_cost > 0.0 {
+                    let max_short_size = (exec_state.free_cash - fixed_fees) / cover_cost;
+                    max_short_size * adj_price * (1.0 + fees) + fixed_fees
+                } else {
+                    // Covering frees at least as much cash as it costs (before fixed fees)
+                    exec_state.cash
+                }
             } else {
-                exec_state.cash
+                exec_state.free_cash + 2.0 * exec_state.debt
             }
         }
     } else {
@@ -925,6 +930,14 @@ fn buy(
         new_free_cash = add(exec_state.free_cash, -final_req_cash);
     }
 
+    if lock_cash && new_free_cash < 0.0 && exec_state.free_cash >= 0.0 {
+        // Fixed fees exceed the cash freed by covering
+        return Ok((
+            exec_state,
+            order_not_filled(ORDER_STATUS_REJECTED, ORDER_STATUS_INFO_CANT_COVER_FEES),
+        ));
+    }
+
     let result = OrderResult {
         size: final_size,
         price: adj_price,
-- 
2.43.0


From b03afe5d6261dbd20caa74a80f1b32444e216c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 32/48] fix: Rust engine: ignore buy orders whose affordable
 size rounds down to zero

---
 rust/src/portfolio.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index 4f3b1fa..85e353c 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -889,7 +889,7 @@ fn buy(
         }
     }
 
-    if is_close(adj_size, 0.0) {
+    if is_close(final_size, 0.0) {
         return Ok((
             exec_state,
             order_not_filled(ORDER_STATUS_IGNORED, ORDER_STATUS_INFO_SIZE_ZERO),
-- 
2.43.0


From 9c1e5e08ba643e24db1b96a43c4cae1d76f34282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 33/48] fix: Rust engine: ignore orders of zero percent

---
 rust/src/portfolio.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index 85e353c..5153f8a 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -1304,6 +1304,12 @@ fn execute_order(
 
     let mut percent = f64::NAN;
     if order_size_type == SIZE_TYPE_PERCENT {
+        if order_size == 0.0 {
+            return Ok((
+                exec_state,
+                order_not_filled(ORDER_STATUS_IGNORED, ORDER_STATUS_INFO_SIZE_ZERO),
+            ));
+        }
         percent = order_size.abs();
         order_size = order_size.signum() * f64::INFINITY;
     }
-- 
2.43.0


From 6eabd1137a51cb0ace2fdf898334a5a59eb68ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 34/48] fix: Rust engine: value in simulation order with a call
 sequence that changes between rows

---
 rust/src/portfolio.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index 5153f8a..1b157aa 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -5059,29 +5059,28 @@ pub fn value_in_sim_order_py<'py>(
             let group_len = gl_cow[group] as usize;
             let to_col = from_col + group_len;
             let mut asset_value_now = 0.0f64;
-            let mut since_last_nan = group_len;
+            let mut nan_count: usize = 0;
             for j in 0..(nrows * group_len) {
                 let i = j / group_len;
                 let col = from_col + cs_cow[i * ncols + from_col + j % group_len] as usize;
-                if j >= group_len {
-                    let last_j = j - group_len;
-                    let last_i = last_j / group_len;
-                    let last_col = from_col + cs_cow[last_i * ncols + from_col + last_j % group_len] as usize;
-                    if !av_cow[last_i * ncols + last_col].is_nan() {
-                        asset_value_now -= av_cow[last_i * ncols + last_col];
+                if i > 0 {
+                    // Replace the previous value of the same column (the call sequence may change from row to row)
+                    if av_cow[(i - 1) * ncols + col].is_nan() {
+                        nan_count -= 1;
+                    } else {
+                        asset_value_now -= av_cow[(i - 1) * ncols + col];
                     }
                 }
                 if av_cow[i * ncols + col].is_nan() {
-                    since_last_nan = 0;
+                    nan_count += 1;
                 } else {
                     asset_value_now += av_cow[i * ncols + col];
                 }
-                if since_last_nan < group_len {
+                if nan_count > 0 {
                     out[i * ncols + col] = f64::NAN;
                 } else {
                     out[i * ncols + col] = c_cow[i * ncols + col] + asset_value_now;
                 }
-                since_last_nan += 1;
             }
             from_col = to_col;
         }
-- 
2.43.0


From be817f2961073a1bad82c082a9eb80841cda8b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 35/48] fix: Rust engine: total profit of a closed position
 whose last price is NaN

---
 rust/src/portfolio.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index 1b157aa..b740f73 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -5183,6 +5183,9 @@ pub fn total_profit_py<'py>(
             for col in 0..ncols {
                 if zero_mask[col] {
                     out[col] = 0.0;
+                } else if assets[col] == 0.0 {
+                    // Without an open position the last price is irrelevant and may be NaN
+                    out[col] = cash[col];
                 } else {
                     out[col] = cash[col] + assets[col] * close_cow[(nrows - 1) * ncols + col];
                 }
-- 
2.43.0


From 9da9e16ddca434320302b868904d75f157daed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 36/48] fix: Rust engine: keep the active drawdown of a series
 that ends with missing values

---
 rust/src/generic.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rust/src/generic.rs b/rust/src/generic.rs
index d79823b..506c728 100644
--- a/rust/src/generic.rs
+++ b/rust/src/generic.rs
@@ -1936,6 +1936,10 @@ pub(crate) fn get_drawdowns(a: ArrayView2<'_, f64>) -> Vec<DrawdownRecord> {
             let mut valley_idx = -1i64;
             let mut peak_val = unsafe { *src.get_unchecked(col) };
             let mut valley_val = peak_val;
+            let mut last_idx = nrows - 1;
+            while last_idx > 0 && src[last_idx * ncols + col].is_nan() {
+                last_idx -= 1;
+            }
             for i in 0..nrows {
                 let cur_val = unsafe { *src.get_unchecked(i * ncols + col) };
                 if !cur_val.is_nan() {
@@ -1971,7 +1975,7 @@ pub(crate) fn get_drawdowns(a: ArrayView2<'_, f64>) -> Vec<DrawdownRecord> {
                         valley_val = cur_val;
                         valley_idx = i as i64;
                     }
-                    if i == nrows - 1 && drawdown_started {
+                    if i == last_idx && drawdown_started {
                         out.push(DrawdownRecord {
                             id: ddidx,
                             col: col as i64,
@@ -2000,6 +2004,10 @@ pub(crate) fn get_drawdowns(a: ArrayView2<'_, f64>) -> Vec<DrawdownRecord> {
         let mut valley_val = col_view[0];
         let mut store_record = false;
         let mut status = -1i64;
+        let mut last_idx = nrows - 1;
+        while last_idx > 0 && col_view[last_idx].is_nan() {
+            last_idx -= 1;
+        }
         for i in 0..nrows {
             let cur_val = col_view[i];
             if !cur_val.is_nan() {
@@ -2020,7 +2028,7 @@ pub(crate) fn get_drawdowns(a: ArrayView2<'_, f64>) -> Vec<DrawdownRecord> {
                     valley_val = cur_val;
                     valley_idx = i as i64;
                 }
-                if i == nrows - 1 && drawdown_started {
+                if i == last_idx && drawdown_started {
                     drawdown_started = false;
                     store_record = true;
                     status = DRAWDOWN_ACTIVE;
-- 
2.43.0


From b61759940ccc7b5e64685907178821a845e03b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 37/48] fix: Rust engine: selling more than 100% of a long-only
 position no longer goes short

---
 rust/src/portfolio.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index b740f73..3646ef2 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -1025,6 +1025,9 @@ fn sell(
 
     if !percent_val.is_nan() {
         size_limit = percent_val * size_limit;
+        if direction == DIRECTION_LONG_ONLY {
+            size_limit = size_limit.min(exec_state.position);
+        }
     }
 
     if size_limit > max_size {
-- 
2.43.0


From e5fceec06f0d9c89ff5117249a462e1d3500c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:10 +0000
Subject: [PATCH 38/48] fix: cache attributes resolved to another attribute
 under their own name

---
 vectorbt/utils/attr_.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vectorbt/utils/attr_.py b/vectorbt/utils/attr_.py
index 320c375..dbc6958 100644
--- a/vectorbt/utils/attr_.py
+++ b/vectorbt/utils/attr_.py
@@ -177,19 +177,19 @@ class AttrResolver:
                         custom_k = True
                     attr_func_kwargs[k] = v
                     passed_kwargs_out[k] = v
-            if use_caching and not custom_k and attr in cache_dct:
-                out = cache_dct[attr]
+            if use_caching and not custom_k and _attr in cache_dct:
+                out = cache_dct[_attr]
             else:
                 out = attr_func(*args, **attr_func_kwargs)
                 if use_caching and not custom_k:
-                    cache_dct[attr] = out
+                    cache_dct[_attr] = out
         else:
-            if use_caching and attr in cache_dct:
-                out = cache_dct[attr]
+            if use_caching and _attr in cache_dct:
+                out = cache_dct[_attr]
             else:
                 out = getattr(self, _attr)
                 if use_caching:
-                    cache_dct[attr] = out
+                    cache_dct[_attr] = out
         out = self.post_resolve_attr(attr, out, final_kwargs=final_kwargs)
         return out
 
-- 
2.43.0


From 63d4834441ccee848cfc1734356d7a2a0210515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:10 +0000
Subject: [PATCH 39/48] fix: return a scalar when one value per object is
 wrapped

---
 vectorbt/base/array_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index 4d73dcd..9a61171 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -656,7 +656,7 @@ class ArrayWrapper(Configured, PandasIndexer):
                 arr[pd.isnull(arr)] = fillna
             if arr.ndim == 0:
                 # Scalar per Series/DataFrame
-                return pd.Series(arr, dtype=dtype)[0]
+                return pd.Series(arr[None], dtype=dtype)[0]
             if arr.ndim == 1:
                 if _self.ndim == 1:
                     if arr.shape[0] == 1:
-- 
2.43.0


From 9bf99cf998d9309d6a17281d687c273140671a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:50 +0000
Subject: [PATCH 40/48] fix: stop an async job whose deadline has passed

---
 vectorbt/utils/schedule_.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vectorbt/utils/schedule_.py b/vectorbt/utils/schedule_.py
index d79f60a..37edc6f 100644
--- a/vectorbt/utils/schedule_.py
+++ b/vectorbt/utils/schedule_.py
@@ -27,12 +27,18 @@ class CancelledError(asyncio.CancelledError):
 class AsyncJob(Job):
     async def async_run(self) -> tp.Any:
         """Async `Job.run`."""
+        if self._is_overdue(datetime.now()):
+            logger.info("Cancelling job %s", self)
+            return CancelJob
         logger.info("Running job %s", self)
         ret = self.job_func()
         if inspect.isawaitable(ret):
             ret = await ret
         self.last_run = datetime.now()
         self._schedule_next_run()
+        if self._is_overdue(self.next_run):
+            logger.info("Cancelling job %s", self)
+            return CancelJob
         return ret
 
 
-- 
2.43.0


From ae36c80efa7b54c56414fc8df53dd257907aaf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:51 +0000
Subject: [PATCH 41/48] fix: accept a time delta as the interval of a schedule

---
 vectorbt/utils/schedule_.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vectorbt/utils/schedule_.py b/vectorbt/utils/schedule_.py
index 37edc6f..fc5f214 100644
--- a/vectorbt/utils/schedule_.py
+++ b/vectorbt/utils/schedule_.py
@@ -216,6 +216,15 @@ class ScheduleManager:
                 unit = "days"
         if unit is None and start_day is None:
             unit = "seconds"
+        if isinstance(interval, timedelta):
+            # `schedule` expects the interval as a number of units
+            if start_day is not None:
+                unit_td = timedelta(weeks=1)
+            else:
+                unit_td = timedelta(**{unit if unit.endswith("s") else unit + "s": 1})
+            interval = interval / unit_td
+            if interval.is_integer():
+                interval = int(interval)
 
         job = self.scheduler.every(interval)
         if unit is not None:
-- 
2.43.0


From 8c16afc538279fcf276306e124755353d5c4a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:51 +0000
Subject: [PATCH 42/48] fix: broadcast to every subscribed chat even if one
 migrates meanwhile

---
 vectorbt/messaging/telegram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/messaging/telegram.py b/vectorbt/messaging/telegram.py
index ffabba4..ec6f685 100644
--- a/vectorbt/messaging/telegram.py
+++ b/vectorbt/messaging/telegram.py
@@ -398,7 +398,7 @@ if __version_info__ >= (20, 0):
 
         def send_to_all(self, kind: str, *args, **kwargs) -> None:
             """Send message of any kind to all in `TelegramBot.chat_ids`."""
-            for chat_id in self.chat_ids:
+            for chat_id in list(self.chat_ids):
                 self.send(kind, chat_id, *args, **kwargs)
 
         def send_message(self, chat_id: int, text: str, *args, **kwargs) -> None:
@@ -702,7 +702,7 @@ else:
 
         def send_to_all(self, kind: str, *args, **kwargs) -> None:
             """Send message of any kind to all in `TelegramBot.chat_ids`."""
-            for chat_id in self.chat_ids:
+            for chat_id in list(self.chat_ids):
                 self.send(kind, chat_id, *args, **kwargs)
 
         def send_message(self, chat_id: int, text: str, *args, **kwargs) -> None:
-- 
2.43.0


From 54ddd30274832c8fc362d7b4f0842ca5866f7e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:51 +0000
Subject: [PATCH 43/48] fix: do not subscribe a migrated chat twice

---
 vectorbt/messaging/telegram.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vectorbt/messaging/telegram.py b/vectorbt/messaging/telegram.py
index ec6f685..946657b 100644
--- a/vectorbt/messaging/telegram.py
+++ b/vectorbt/messaging/telegram.py
@@ -390,7 +390,8 @@ if __version_info__ >= (20, 0):
                 new_id = e.new_chat_id
                 if chat_id in self.chat_ids:
                     self.chat_ids.remove(chat_id)
-                self.chat_ids.append(new_id)
+                if new_id not in self.chat_ids:
+                    self.chat_ids.append(new_id)
                 # Resend to new chat id
                 self.send(kind, new_id, *args, log_msg=log_msg, **kwargs)
             except Forbidden:
@@ -462,7 +463,8 @@ if __version_info__ >= (20, 0):
                 new_id = update.message.migrate_to_chat_id or update.message.chat_id
                 if old_id in self.chat_ids:
                     self.chat_ids.remove(old_id)
-                self.chat_ids.append(new_id)
+                if new_id not in self.chat_ids:
+                    self.chat_ids.append(new_id)
                 logger.info(f"{old_id} - Chat migrated to {new_id}")
 
         def unknown_callback(self, update: object, context: CallbackContext) -> None:
@@ -694,7 +696,8 @@ else:
                 new_id = e.new_chat_id
                 if chat_id in self.chat_ids:
                     self.chat_ids.remove(chat_id)
-                self.chat_ids.append(new_id)
+                if new_id not in self.chat_ids:
+                    self.chat_ids.append(new_id)
                 # Resend to new chat id
                 self.send(kind, new_id, *args, log_msg=log_msg, **kwargs)
             except Unauthorized:
@@ -766,7 +769,8 @@ else:
                 new_id = update.message.migrate_to_chat_id or update.message.chat_id
                 if old_id in self.chat_ids:
                     self.chat_ids.remove(old_id)
-                self.chat_ids.append(new_id)
+                if new_id not in self.chat_ids:
+                    self.chat_ids.append(new_id)
                 logger.info(f"{old_id} - Chat migrated to {new_id}")
 
         def unknown_callback(self, update: object, context: CallbackContext) -> None:
-- 
2.43.0


From 14544e5713844e5ae6dd13c6a10db055aba1aca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:51 +0000
Subject: [PATCH 44/48] fix: label each drawn exit of OHLCSTX with its own stop
 type

---
 vectorbt/signals/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/signals/generators.py b/vectorbt/signals/generators.py
index 07461db..1175925 100644
--- a/vectorbt/signals/generators.py
+++ b/vectorbt/signals/generators.py
@@ -579,7 +579,7 @@ def _bind_ohlcstx_plot(base_cls: type, entries_attr: str) -> tp.Callable:  # pra
             self,
             entry_y=self.open,
             exit_y=self.stop_price,
-            exit_types=self.stop_type_readable,
+            exit_types=self.stop_type_readable[self.exits],  # one type per drawn marker
             entry_trace_kwargs=entry_trace_kwargs,
             exit_trace_kwargs=exit_trace_kwargs,
             add_trace_kwargs=add_trace_kwargs,
-- 
2.43.0


From c3acfc2a838febc4e6b8b2a6b2703a72eb3055a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:51 +0000
Subject: [PATCH 45/48] fix: keep the tick labels of every non-numeric axis of
 a volume

---
 vectorbt/generic/plotting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vectorbt/generic/plotting.py b/vectorbt/generic/plotting.py
index 9f343f8..7836a9a 100644
--- a/vectorbt/generic/plotting.py
+++ b/vectorbt/generic/plotting.py
@@ -875,20 +875,20 @@ class Volume(Configured, TraceUpdater):
 
         # Non-numeric data types are not supported by go.Volume, so use ticktext
         # Note: Currently plotly displays the entire tick array, in future versions it will be more sensible
-        more_layout = dict()
+        scene_layout = dict()
         if not np.issubdtype(x_labels.dtype, np.number):
             x_ticktext = x_labels
             x_labels = np.arange(x_len)
-            more_layout[scene_name] = dict(xaxis=dict(ticktext=x_ticktext, tickvals=x_labels, tickmode="array"))
+            scene_layout["xaxis"] = dict(ticktext=x_ticktext, tickvals=x_labels, tickmode="array")
         if not np.issubdtype(y_labels.dtype, np.number):
             y_ticktext = y_labels
             y_labels = np.arange(y_len)
-            more_layout[scene_name] = dict(yaxis=dict(ticktext=y_ticktext, tickvals=y_labels, tickmode="array"))
+            scene_layout["yaxis"] = dict(ticktext=y_ticktext, tickvals=y_labels, tickmode="array")
         if not np.issubdtype(z_labels.dtype, np.number):
             z_ticktext = z_labels
             z_labels = np.arange(z_len)
-            more_layout[scene_name] = dict(zaxis=dict(ticktext=z_ticktext, tickvals=z_labels, tickmode="array"))
-        fig.update_layout(**more_layout)
+            scene_layout["zaxis"] = dict(ticktext=z_ticktext, tickvals=z_labels, tickmode="array")
+        fig.update_layout(**{scene_name: scene_layout})
         fig.update_layout(**layout_kwargs)
 
         # Arrays must have the same length as the flattened data array
-- 
2.43.0


From f1b3e930fc50381fbb15b2efafae6135894783ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:51 +0000
Subject: [PATCH 46/48] fix: label each slider step of a heatmap with its own
 axis values

---
 vectorbt/generic/accessors.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/vectorbt/generic/accessors.py b/vectorbt/generic/accessors.py
index 23da0db..0396c80 100644
--- a/vectorbt/generic/accessors.py
+++ b/vectorbt/generic/accessors.py
@@ -2450,10 +2450,6 @@ class GenericSRAccessor(GenericAccessor, BaseSRAccessor):
                 symmetric=symmetric,
                 sort=sort,
             )
-            if x_labels is None:
-                x_labels = df.columns
-            if y_labels is None:
-                y_labels = df.index
             _kwargs = merge_dicts(
                 dict(
                     trace_kwargs=dict(name=str(name) if name is not None else None, visible=False),
@@ -2463,8 +2459,8 @@ class GenericSRAccessor(GenericAccessor, BaseSRAccessor):
             default_size = fig is None and "height" not in _kwargs
             fig = plotting.Heatmap(
                 data=reshape_fns.to_2d_array(df),
-                x_labels=x_labels,
-                y_labels=y_labels,
+                x_labels=x_labels if x_labels is not None else df.columns,
+                y_labels=y_labels if y_labels is not None else df.index,
                 fig=fig,
                 **_kwargs,
             ).fig
-- 
2.43.0


From 5b8536e893bdea4da2f9d80630d5d3da807e3bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:51 +0000
Subject: [PATCH 47/48] fix: draw each slider step of a volume on the full grid

---
 vectorbt/generic/accessors.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/vectorbt/generic/accessors.py b/vectorbt/generic/accessors.py
index 0396c80..d07a8c8 100644
--- a/vectorbt/generic/accessors.py
+++ b/vectorbt/generic/accessors.py
@@ -2550,12 +2550,15 @@ class GenericSRAccessor(GenericAccessor, BaseSRAccessor):
         y_level_vals = self.wrapper.index.get_level_values(y_level)
         z_level_vals = self.wrapper.index.get_level_values(z_level)
         # Labels are just unique level values
+        x_uniques = np.unique(x_level_vals)
+        y_uniques = np.unique(y_level_vals)
+        z_uniques = np.unique(z_level_vals)
         if x_labels is None:
-            x_labels = np.unique(x_level_vals)
+            x_labels = x_uniques
         if y_labels is None:
-            y_labels = np.unique(y_level_vals)
+            y_labels = y_uniques
         if z_labels is None:
-            z_labels = np.unique(z_level_vals)
+            z_labels = z_uniques
 
         x_name = x_level_vals.name if x_level_vals.name is not None else "x"
         y_name = y_level_vals.name if y_level_vals.name is not None else "y"
@@ -2605,7 +2608,13 @@ class GenericSRAccessor(GenericAccessor, BaseSRAccessor):
                 if slider_labels is not None:
                     name = slider_labels[i]
                 _slider_labels.append(name)
-                v = group.vbt.unstack_to_array(levels=(x_level, y_level, z_level))
+                # Place the group into the full grid, since all steps share the same axes
+                v = np.full((len(x_uniques), len(y_uniques), len(z_uniques)), np.nan)
+                v[
+                    np.searchsorted(x_uniques, group.index.get_level_values(x_level)),
+                    np.searchsorted(y_uniques, group.index.get_level_values(y_level)),
+                    np.searchsorted(z_uniques, group.index.get_level_values(z_level)),
+                ] = group.values
                 if fillna is not None:
                     v = np.nan_to_num(v, nan=fillna)
                 if np.isnan(v).any():
-- 
2.43.0


From 69dc0ce79b10b1c96c326d20bb6764a335f69f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:51 +0000
Subject: [PATCH 48/48] fix: respect return_fig in grouped histplot and boxplot

---
 vectorbt/generic/accessors.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vectorbt/generic/accessors.py b/vectorbt/generic/accessors.py
index d07a8c8..ef35fc2 100644
--- a/vectorbt/generic/accessors.py
+++ b/vectorbt/generic/accessors.py
@@ -2016,7 +2016,9 @@ class GenericAccessor(BaseAccessor, StatsBuilderMixin, PlotsBuilderMixin, metacl
             ![](/assets/images/df_histplot.svg)
         """
         if self.wrapper.grouper.is_grouped(group_by=group_by):
-            return self.flatten_grouped(group_by=group_by).vbt.histplot(trace_names=trace_names, **kwargs)
+            return self.flatten_grouped(group_by=group_by).vbt.histplot(
+                trace_names=trace_names, return_fig=return_fig, **kwargs
+            )
 
         if trace_names is None:
             if self.is_frame() or (self.is_series() and self.wrapper.name is not None):
@@ -2043,7 +2045,9 @@ class GenericAccessor(BaseAccessor, StatsBuilderMixin, PlotsBuilderMixin, metacl
             ![](/assets/images/df_boxplot.svg)
         """
         if self.wrapper.grouper.is_grouped(group_by=group_by):
-            return self.flatten_grouped(group_by=group_by).vbt.boxplot(trace_names=trace_names, **kwargs)
+            return self.flatten_grouped(group_by=group_by).vbt.boxplot(
+                trace_names=trace_names, return_fig=return_fig, **kwargs
+            )
 
         if trace_names is None:
             if self.is_frame() or (self.is_series() and self.wrapper.name is not None):
-- 
2.43.0

