From 221f0f6495a5e5ae08a256d80a022385620eb7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 001/100] fix: accumulation interpolates every missing field
 between its true neighbours and keeps its missing cells

---
 src/pyg2p/main/manipulation/aggregator.py | 79 +++++++++--------------
 1 file changed, 31 insertions(+), 48 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 640bed6..9198abc 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -83,64 +83,29 @@ class Aggregator(Loggable):
             self._log('start 0: change to the first timestep {}'.format(self._aggregation_step))
             self._start = self._aggregation_step
 
-        created_zero_array = False
-        for iter_ in range(self._start, self._end + 1, self._aggregation_step):
-            v_ord_keys = list(v_ord.keys())
-            if iter_ not in v_ord_keys:
-
-                ind_next_ts = bisect.bisect_left(v_ord_keys, iter_)
-                next_ts = v_ord_keys[ind_next_ts]
-                v_nts_ma = v_ord[next_ts]
-
-                ind_originalts = bisect.bisect_right(v_ord_keys, iter_)
-                if ind_originalts == ind_next_ts:
-                    ind_originalts -= 1
-                originalts = v_ord_keys[ind_originalts]
-                v_ots_ma = v_ord[originalts]
-
-                if self._logger.isEnabledFor(logging.DEBUG):
-                    self._log(f'Message {iter_} not in {v_ord_keys}.')
-                    self._log(f'Creating grib[{iter_}] as grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({iter_}-{originalts})/({next_ts}-{originalts}))')
-
-                v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((iter_ - originalts)/(next_ts-originalts))')
-                v_ord[iter_] = ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
-
-            if iter_ - self._aggregation_step >= 0 and iter_ - self._aggregation_step not in v_ord_keys and not created_zero_array:
-                ind_next_ts = bisect.bisect_left(v_ord_keys, iter_ - self._aggregation_step)
-                next_ts = v_ord_keys[ind_next_ts]
+        if 0 not in v_ord and self._usable_start == 0:
+            self._log('Message 0 not in dataset. Creating it as zero values array')
+            v_ord[0] = np.zeros(shape_iter)
+            v_ord.move_to_end(0, last=False)
+        # steps having a field (from grib or the zero array at step 0), always in ascending order
+        v_ord_keys = list(v_ord.keys())
 
-                if iter_ - self._aggregation_step == 0:
-                    self._log('Message 0 not in dataset. Creating it as zero values array')
-                    v_ord[0] = np.zeros(shape_iter)
-                    originalts = 0  # do not delete: used by numexpr evaluation
-                    created_zero_array = True
-                else:
-                    v_nts_ma = v_ord[next_ts]
-                    ind_originalts = bisect.bisect_right(v_ord_keys, iter_ - self._aggregation_step)
-                    if ind_originalts == ind_next_ts:
-                        ind_originalts -= 1
-                    originalts = v_ord_keys[ind_originalts]
-                    # variables needed for numexpr evaluator namespace
-                    v_ots_ma = v_ord[originalts]
-
-                    if self._logger.isEnabledFor(logging.DEBUG):
-                        self._log(f'Creating message grib[{iter_ - self._aggregation_step}]=grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({iter_}-{originalts})/({next_ts}-{originalts}))')
-                    v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((iter_ - originalts)/(next_ts-originalts))')
-                    v_ord[iter_ - self._aggregation_step] = ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
+        for iter_ in range(self._start, self._end + 1, self._aggregation_step):
+            for step in (iter_, iter_ - self._aggregation_step):
+                if step >= 0 and step not in v_ord:
+                    v_ord[step] = self._create_missing_field(step, v_ord, v_ord_keys)
 
+            # variables needed for numexpr evaluator namespace. DO NOT DELETE!!!
+            v_iter_ma = v_ord[iter_]
             if iter_ - self._aggregation_step == 0 and self._force_zero:
                 # forced ZERO array...instead of taking the grib
                 v_iter_1_ma = np.zeros(shape_iter)
             else:
                 # Take the 0 step grib.
                 # It could be created before as zero-array,
-                # if 0 step is not present in the grib dataset (see line 117)
+                # if 0 step is not present in the grib dataset
                 v_iter_1_ma = v_ord[iter_ - self._aggregation_step]
 
-            # variables needed for numexpr evaluator namespace. DO NOT DELETE!!!
-            # need to create the out array first as zero array, for issue in missing values for certain gribs
-            v_iter_ma = np.zeros(shape_iter)
-            v_iter_ma += v_ord[iter_]
             _unit_time = self._unit_time
             _aggr_step = self._aggregation_step
             key = Step(iter_ - self._aggregation_step, iter_, resolution, self._aggregation_step, level)
@@ -152,6 +117,24 @@ class Aggregator(Loggable):
 
         return out_values
 
+    def _create_missing_field(self, step, v_ord, v_ord_keys):
+        """
+        Field at a step which is not in grib: linear interpolation in time of the previous and next available ones
+        """
+        ind_next_ts = bisect.bisect_left(v_ord_keys, step)
+        next_ts = v_ord_keys[ind_next_ts]
+        originalts = v_ord_keys[ind_next_ts - 1]
+        # variables needed for numexpr evaluator namespace
+        v_nts_ma = v_ord[next_ts]
+        v_ots_ma = v_ord[originalts]
+
+        if self._logger.isEnabledFor(logging.DEBUG):
+            self._log(f'Message {step} not in {v_ord_keys}.')
+            self._log(f'Creating grib[{step}] as grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({step}-{originalts})/({next_ts}-{originalts}))')
+
+        v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((step - originalts)/(next_ts-originalts))')
+        return ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
+
     def _average(self, values):
 
         if self._step_type in [PARAM_CUM]:
-- 
2.43.0


From efa73ef26b03a26a276a522911c46a0d54afe661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 002/100] fix: interpolation of fewer than 250 cells no longer
 divides by zero while reporting progress

---
 src/pyg2p/util/generics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/util/generics.py b/src/pyg2p/util/generics.py
index ef0046a..eda5f87 100644
--- a/src/pyg2p/util/generics.py
+++ b/src/pyg2p/util/generics.py
@@ -20,7 +20,7 @@ def is_callable(v):
 
 
 def progress_step_and_backchar(num_cells):
-    progress_step = int(num_cells / 250)
+    progress_step = max(1, int(num_cells / 250))
     back_char = '\r'
     if not stdout.isatty():
         # out is being redirected
-- 
2.43.0


From 57de4ef9186032df525ef8b6b517dc5c57b6f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 003/100] fix: average from step 0 does not compute a window
 beyond the requested end

---
 src/pyg2p/main/manipulation/aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 9198abc..dbe4bb2 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -150,7 +150,7 @@ class Aggregator(Loggable):
             v_ord = collections.OrderedDict(sorted(dict((k.end_step, v_) for (k, v_) in values.items()).items(), key=lambda k: k))
             if self._start == 0 or self._second_t_res:
                 iter_start = self._start
-                iter_end = self._end - self._aggregation_step + 2       # CR: TODO: check if +2 instead of +1 is actually needed
+                iter_end = self._end - self._aggregation_step + 1
             else:
                 iter_start = self._start - self._aggregation_step
                 iter_end = self._end - self._aggregation_step + 1
-- 
2.43.0


From 34893d85bf4cc9ff41a1fb4cfdeb70332f340d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 004/100] fix: average keeps the missing cells of the fields
 used

---
 src/pyg2p/main/manipulation/aggregator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index dbe4bb2..595865a 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -164,6 +164,7 @@ class Aggregator(Loggable):
                     iter_to = iter_ + self._aggregation_step + 1
                 temp_sum = np.zeros(shape_iter)
                 sum_counter = 0.0
+                used_values = []  # fields used for this window, to mask the result
                 v_ord_keys = list(v_ord.keys())
 
                 if self._aggregation_halfweights:
@@ -187,6 +188,7 @@ class Aggregator(Loggable):
                                     v_ma = v_ord[iterator_avg]*dt1
                                     print("Iterator: {} weight: {}".format(iterator_avg,dt1))
                                     sum_counter += dt1
+                                used_values.append(v_ma)
                                 ne.evaluate('temp_sum + v_ma', out=temp_sum)
                 else:
                     for iterator_avg in range(iter_from, iter_to, 1):
@@ -204,15 +206,14 @@ class Aggregator(Loggable):
                             v_ma = v_ord[next_]
                             sum_counter += 1
                             print("Iterator: {} weight: 1".format(next_))
+                        used_values.append(v_ma)
                         ne.evaluate('temp_sum + v_ma', out=temp_sum)
 
-                # mask result with all maskes from GRIB original values used in average (if existing any)
-                # temp_sum = ma.masked_where(pyg2p.util.numeric.get_masks(v_ord.values()), temp_sum, copy=False)
                 key = Step(iter_, iter_ + self._aggregation_step, resolution_1, self._aggregation_step, level)
                 print("dividing sum by {}".format(sum_counter))
                 res = ne.evaluate('temp_sum/sum_counter')
                 # mask result with all maskes from GRIB original values used in average (if existing any)
-                out_values[key] = ma.masked_where(numeric.get_masks(v_ord.values()), res, copy=False)
+                out_values[key] = ma.masked_where(numeric.get_masks(*used_values), res, copy=False)
                 if self._logger.isEnabledFor(logging.DEBUG):
                     self._log(f'out[{key}] = temp_sum/{sum_counter}')
 
-- 
2.43.0


From 25e2ccc94c13632e6604036e45eb5484025c3862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 005/100] fix: instantaneous extraction keeps missing cells

---
 src/pyg2p/main/manipulation/aggregator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 595865a..312b821 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -240,24 +240,23 @@ class Aggregator(Loggable):
             level = values_keys[0].level
             shape_iter = values[values_keys[0]].shape
             for iter_ in range(start, self._end + 1, self._aggregation_step):
-                res_inst = np.zeros(shape_iter)
                 key = Step(iter_, iter_, resolution_1, self._aggregation_step, level)
                 if iter_ in v_ord_keys:
                     if self._logger.isEnabledFor(logging.DEBUG):
                         self._log(f'out[{key}] = grib[{iter_}]')
-                    res_inst += v_ord[iter_]
+                    res_inst = v_ord[iter_].copy()
                 else:
                     if iter_ == 0:
                         # left out as zero arrays if 0 step is not in the grib
                         if self._logger.isEnabledFor(logging.DEBUG):
                             self._log(f'out[{key}] = zeros')
-                        pass
+                        res_inst = np.zeros(shape_iter)
                     else:
                         ind_next_ = bisect.bisect_right(v_ord_keys, iter_)
                         next_ = list(v_ord_keys)[ind_next_]
                         if self._logger.isEnabledFor(logging.DEBUG):
                             self._log(f'out[{key}] = grib[{next_}]')
-                        res_inst += v_ord[next_]
+                        res_inst = v_ord[next_].copy()
                 out_values[key] = res_inst
 
             return out_values
-- 
2.43.0


From 79abfdd45a0bc192c5e201c932303e871775f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 006/100] fix: negative cut-off keeps missing cells

---
 src/pyg2p/main/manipulation/conversion.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/manipulation/conversion.py b/src/pyg2p/main/manipulation/conversion.py
index 2a3cdd6..d86ffc4 100644
--- a/src/pyg2p/main/manipulation/conversion.py
+++ b/src/pyg2p/main/manipulation/conversion.py
@@ -45,12 +45,19 @@ class Converter(Loggable):
         self._log('Cutting off negative values...')
         if isinstance(xs, dict):
             for timestep, values in xs.items():
-                xs[timestep] = ne.evaluate('where(values<0, 0, values)')
+                xs[timestep] = self._cut_off(values)
         else:
-            values = xs
-            xs = ne.evaluate('where(values<0, 0, values)')
+            xs = self._cut_off(xs)
         return xs
 
+    @staticmethod
+    def _cut_off(values):
+        res = ne.evaluate('where(values<0, 0, values)')
+        # preserve maskes as numexpr just ignores them
+        if isinstance(values, ma.core.MaskedArray):
+            res = ma.masked_where(values.mask, res, copy=False)
+        return res
+
     def __str__(self):
         log_mess = "\nConverting values from units {}. " \
                    "\nFunction: {}" \
-- 
2.43.0


From b42e152e36f2469212a0ceccff788e0735698096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 007/100] fix: scipy interpolation keeps missing source cells
 missing

---
 src/pyg2p/main/interpolation/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 4e7b2f0..9774719 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -144,7 +144,7 @@ class Interpolator(Loggable):
         # It gives (last_index + 1) from original values when value can't be computed.
         # These "last_index + 1" indexes are stored in intertable so we artificially add a missing value
         # v[last_index + 1] = mv
-        v = np.append(v, self.mv_output)
+        v = ma.append(v, self.mv_output) if isinstance(v, ma.core.MaskedArray) else np.append(v, self.mv_output)
         orig_mask = False if not isinstance(v, ma.core.MaskedArray) else v.mask
         if nnear == 1:
             if isinstance(orig_mask, np.ndarray):
-- 
2.43.0


From 554ef53d93b43e6d11daaa4123bca7b78e0c04b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 008/100] fix: netCDF output with a clone map having no missing
 cells

---
 src/pyg2p/main/writers/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 1702511..a798067 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -32,7 +32,7 @@ class NetCDFWriter(Writer):
         
         # add mask from clone map
         self.area = ma.masked_values(self.area, area.mv)
-        self._mask = ma.getmask(self.area)
+        self._mask = ma.getmaskarray(self.area)
         
         if lats_map.endswith('.nc'):
             if (lats_map!=lons_map):
-- 
2.43.0


From 99e63f136033a92d9ce9c375d0ba5c211e50d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 009/100] fix: missing cells are written as missing in both
 formats, whatever the missing value of the target maps

---
 src/pyg2p/main/api.py                    | 3 +++
 src/pyg2p/main/interpolation/__init__.py | 6 ++++++
 src/pyg2p/main/writers/__init__.py       | 5 ++---
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index aaf78de..93a3415 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -3,6 +3,7 @@ from functools import partial
 from pathlib import Path
 from types import MethodType
 
+import numpy as np
 import numpy.ma as ma
 
 from . import Controller, Configuration
@@ -307,6 +308,8 @@ class Pyg2pApi:
             if self.context.must_do_correction:
                 corrector = Corrector.get_instance(self.context, grid_id)
                 out_v = corrector.correct(out_v)
+            out_v = self.interpolator.missing_as_nan(out_v)
+            out_v[np.isnan(out_v)] = self.mv
             out_v = self._mask_values(out_v)
             out[timestep] = out_v
         out = collections.OrderedDict(sorted(out.items(), key=lambda item: int(item[0].end_step)))
diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 9774719..255f86d 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -390,6 +390,12 @@ class Interpolator(Loggable):
         self._aux_2nd_res_gid = aux_g2
         self._aux_2nd_res_val = aux_v2
 
+    def missing_as_nan(self, values):
+        # missing cells, masked or equal to the missing value of target maps, are NaN for writers
+        values = ma.filled(values, np.nan)
+        values[values == self.mv_output] = np.nan
+        return values
+
     @property
     def mv_output(self):
         return self.mv_out
diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 41c20f3..471c71e 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -65,8 +65,7 @@ class OutputWriter(Loggable):
             if self.ctx.must_do_correction:
                 corrector = Corrector.get_instance(self.ctx, grid_id)
                 out_v = corrector.correct(out_v)
-            out_v[out_v == self.interpolator.mv_output] = np.nan
-            out_values.append(out_v)
+            out_values.append(self.interpolator.missing_as_nan(out_v))
             time_values.append(timestep.end_step)
         # prepare values for netcdf writing
         time_values = np.array(time_values, dtype=np.int32)
@@ -106,7 +105,7 @@ class OutputWriter(Loggable):
             if self.ctx.must_do_correction:
                 corrector = Corrector.get_instance(self.ctx, grid_id)
                 out_v = corrector.correct(out_v)
-            self.writer.write(self._name_pcr_map(i), out_v)
+            self.writer.write(self._name_pcr_map(i), self.interpolator.missing_as_nan(out_v))
 
     def write_maps(self, values, messages, change_res_step=None):
         write_method = getattr(self, f"_write_maps_{self.ctx.get('outMaps.format')}")
-- 
2.43.0


From 72e82cf4fa21edcb7b2883555bffbb70d4b6df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 010/100] fix: reference time of GRIB data at hours other than
 10 to 23

---
 src/pyg2p/__init__.py          | 4 ++--
 src/pyg2p/main/readers/grib.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/__init__.py b/src/pyg2p/__init__.py
index 463f295..3756f53 100644
--- a/src/pyg2p/__init__.py
+++ b/src/pyg2p/__init__.py
@@ -145,7 +145,7 @@ class GribGridDetails(Loggable):
 
 class Messages(Loggable):
 
-    def __init__(self, values, mv, unit, type_of_level, type_of_step, step_units, grid_details, val_2nd=None, data_date=None, data_time='0'):
+    def __init__(self, values, mv, unit, type_of_level, type_of_step, step_units, grid_details, val_2nd=None, data_date=None, data_time=0):
         super().__init__()
         self.values_first_or_single_res = values
         self.values_second_res = val_2nd or {}
@@ -154,7 +154,7 @@ class Messages(Loggable):
         self.type_of_level = type_of_level
         self.unit = unit
         self.missing_value = mv
-        self.data_date = datetime.strptime(f'{data_date}{data_time}', '%Y%m%d%H')
+        self.data_date = datetime.strptime(f'{data_date}{data_time:04d}', '%Y%m%d%H%M')
 
         self.grid_details = grid_details
         # order key list to get first step
diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index a4abd63..e834a1c 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -208,7 +208,7 @@ class GRIBReader(Loggable):
             if grid2:
                 key_2nd_spatial_res = min(all_values_second_res.keys())
                 grid.set_2nd_resolution(grid2, key_2nd_spatial_res)
-            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=str(data_time)[:2])
+            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=data_time)
         # no messages found
         else:
             raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {kwargs}')
-- 
2.43.0


From 9aa2057fae0208e1d7f744fd61036edae1347082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 011/100] fix: grib_nearest and grib_invdist use gzipped
 interpolation tables

---
 src/pyg2p/main/interpolation/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 255f86d..d6ac7d0 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -100,6 +100,10 @@ class Interpolator(Loggable):
                 self._logger.warning(f'An entry in configuration was found for {filename} but intertable does not exist.')
         return intertable_id, tbl_fullpath
 
+    @staticmethod
+    def _intertable_exists(tbl_fullpath):
+        return pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')
+
     def _read_intertable(self, tbl_fullpath):
 
         if tbl_fullpath not in self._LOADED_INTERTABLES:
@@ -219,7 +223,7 @@ class Interpolator(Loggable):
         nnear = self.scipy_modes_nnear[self._mode]
 
         if (not DEBUG_ADW_INTERPOLATION) and \
-            (pyg2p.util.files.exists(intertable_name) or pyg2p.util.files.exists(intertable_name + '.gz')):
+            self._intertable_exists(intertable_name):
                 indexes, weights = self._read_intertable(intertable_name)
                 result = self._interpolate_scipy_append_mv(v, weights, indexes, nnear)
 
@@ -272,7 +276,7 @@ class Interpolator(Loggable):
             intertable_id, intertable_name = self._intertable_filename(grid_id)
         result = np.empty(self._target_coords.lons.shape)
         result.fill(self.mv_out)
-        if gid == -1 and not pyg2p.util.files.exists(intertable_name):
+        if gid == -1 and not self._intertable_exists(intertable_name):
             # calling recursive grib_nearest
             # aux_gid and aux_values are only used to create the interlookuptable
             if is_second_res:
@@ -283,7 +287,7 @@ class Interpolator(Loggable):
                 self.grib_nearest(self._aux_val, self._aux_gid, grid_id,
                                   intertable_name=intertable_name, intertable_id=intertable_id)
 
-        if pyg2p.util.files.exists(intertable_name):
+        if self._intertable_exists(intertable_name):
             # interpolation using intertables
             xs, ys, idxs = self._read_intertable(intertable_name)
 
@@ -320,7 +324,7 @@ class Interpolator(Loggable):
         result.fill(self.mv_out)
 
         # check if gid is due to the recursive call
-        if gid == -1 and not pyg2p.util.files.exists(intertable_name):
+        if gid == -1 and not self._intertable_exists(intertable_name):
             # aux_gid and aux_values are only used to create the interlookuptable
             # since manipulated values messages don't have gid reference to grib file any longer
             aux_gid = self._aux_gid
@@ -331,7 +335,7 @@ class Interpolator(Loggable):
             self.grib_inverse_distance(aux_val, aux_gid, grid_id, intertable_name=intertable_name,
                                        intertable_id=intertable_id, is_second_res=is_second_res)
 
-        if pyg2p.util.files.exists(intertable_name):
+        if self._intertable_exists(intertable_name):
             # interpolation using intertables
             xs, ys, idxs1, idxs2, idxs3, idxs4, coeffs1, coeffs2, coeffs3, coeffs4 = self._read_intertable(intertable_name)
         elif self.create_if_missing:
-- 
2.43.0


From c0704545f9f1bb174ce20d3abde5f7284dc7813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 012/100] fix: a registered interpolation table whose file is
 gone is recreated or reported without global data folder

---
 src/pyg2p/main/interpolation/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index d6ac7d0..550d45b 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -88,12 +88,13 @@ class Interpolator(Loggable):
         if self._logger.isEnabledFor(logging.DEBUG):
             self._logger.debug(f'Using {tbl_fullpath} for id {intertable_id}')
         if not tbl_fullpath or not (pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')):
-            tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['global'], filename))
-            if not (pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')):
+            global_dir = self._intertable_dirs.get('global')
+            tbl_fullpath = None if not global_dir else os.path.normpath(os.path.join(global_dir, filename))
+            if not tbl_fullpath or not (pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')):
                 # will create a new intertable but with same filename/id
                 # as an existing configuration was already found but file is missing for some reasons
                 if not self.create_if_missing:
-                    raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=f'Tried to create {tbl_fullpath}')
+                    raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=f'Tried to create {filename}')
                 self.intertables_config.check_write()
                 tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
                 tbl_fullpath = tbl_fullpath if tbl_fullpath.endswith('.gz') else tbl_fullpath + '.gz'
-- 
2.43.0


From 6fbee1b3506d2bebdfd1baf699160236d66534cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 013/100] fix: grib_invdist on a grid point depends on that
 point only

---
 src/pyg2p/main/interpolation/grib_interpolation_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 6f4febb..7324468 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -134,9 +134,9 @@ def _compute_coeffs_and_idxs(n_nearest):
     inv3 = (1 / n_nearest[2]['distance']) if not exact_position else 0
     inv4 = (1 / n_nearest[3]['distance']) if not exact_position else 0
     idx1 = n_nearest[0]['index'] if not exact_position else n_nearest[exact_position_idx]['index']
-    idx2 = n_nearest[1]['index'] if not exact_position else 0
-    idx3 = n_nearest[2]['index'] if not exact_position else 0
-    idx4 = n_nearest[3]['index'] if not exact_position else 0
+    idx2 = n_nearest[1]['index'] if not exact_position else idx1
+    idx3 = n_nearest[2]['index'] if not exact_position else idx1
+    idx4 = n_nearest[3]['index'] if not exact_position else idx1
     return inv1, inv2, inv3, inv4, idx1, idx2, idx3, idx4
 
 
-- 
2.43.0


From 85694c36577abe3afa58ef144e7db114672e1662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 014/100] fix: an interpolation table replaced on disk is not
 served from memory

---
 src/pyg2p/main/interpolation/__init__.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 550d45b..6d6224a 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -105,9 +105,20 @@ class Interpolator(Loggable):
     def _intertable_exists(tbl_fullpath):
         return pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')
 
+    @staticmethod
+    def _intertable_stamp(tbl_fullpath):
+        for path in (tbl_fullpath, tbl_fullpath + '.gz'):
+            if pyg2p.util.files.exists(path):
+                info = os.stat(path)
+                return path, info.st_mtime_ns, info.st_size, info.st_ino
+        return None
+
     def _read_intertable(self, tbl_fullpath):
 
-        if tbl_fullpath not in self._LOADED_INTERTABLES:
+        # a table can be replaced on disk between two runs in the same process
+        stamp = self._intertable_stamp(tbl_fullpath)
+        loaded = self._LOADED_INTERTABLES.get(tbl_fullpath)
+        if not loaded or loaded[0] != stamp:
             f = tbl_fullpath
             if tbl_fullpath.endswith('.gz'):
                 f = gzip.GzipFile(tbl_fullpath, 'r')
@@ -123,10 +134,10 @@ class Interpolator(Loggable):
                     f = gzip.GzipFile(f, 'r')
                     intertable = np.load(f)
                     f.close()
-            self._LOADED_INTERTABLES[tbl_fullpath] = intertable
+            self._LOADED_INTERTABLES[tbl_fullpath] = (stamp, intertable)
             self._log(f'Using interpolation table: {tbl_fullpath}', 'INFO')
         else:
-            intertable = self._LOADED_INTERTABLES[tbl_fullpath]
+            intertable = loaded[1]
 
         if self._mode == 'grib_nearest':
             # grib nearest neighbour table
@@ -376,7 +387,7 @@ class Interpolator(Loggable):
         return result
 
     def update_intertable_conf(self, intertable, intertable_id, intertable_name, source_shape):
-        self._LOADED_INTERTABLES[intertable_name] = intertable
+        self._LOADED_INTERTABLES[intertable_name] = (self._intertable_stamp(intertable_name), intertable)
         new_intertable_conf_item = {'filename': pyg2p.util.files.filename(intertable_name),
                                     'method': self._mode,
                                     'source_shape': source_shape,
-- 
2.43.0


From 30ae569938d40437b234dff1c8e4a3cf77526568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 015/100] fix: altitude correction of a run does not reuse
 formulas and maps of a previous run

---
 src/pyg2p/main/manipulation/correction.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 2d17d40..4321f1e 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -1,4 +1,5 @@
 import logging
+import weakref
 
 import numexpr as ne
 import numpy as np
@@ -18,22 +19,18 @@ from ..interpolation.scipy_interpolation_lib import DEBUG_BILINEAR_INTERPOLATION
 
 class Corrector(Loggable):
 
-    instances = {}
+    # correctors live as long as the execution context they belong to
+    instances = weakref.WeakKeyDictionary()
 
     def __repr__(self):
         return f'Corrector<{self.grid_id} {self.geo_file}>'
 
     @classmethod
     def get_instance(cls, ctx, grid_id):
-        geo_file_ = ctx.geo_file(grid_id)
-        dem_map = ctx.get('correction.demMap')
-        key = f'{grid_id}{dem_map}'
-        if key in cls.instances:
-            return cls.instances[key]
-        else:
-            instance = Corrector(ctx, grid_id, geo_file_)
-            cls.instances[key] = instance
-            return instance
+        correctors = cls.instances.setdefault(ctx, {})
+        if grid_id not in correctors:
+            correctors[grid_id] = Corrector(ctx, grid_id, ctx.geo_file(grid_id))
+        return correctors[grid_id]
 
     def __init__(self, ctx, grid_id, geo_file):
         super().__init__()
-- 
2.43.0


From c0434005bb303e96b512b3065de8b9d5c20175c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 016/100] fix: altitude correction keeps missing values,
 geopotentials and altitudes missing

---
 src/pyg2p/main/interpolation/__init__.py  |  2 +-
 src/pyg2p/main/manipulation/correction.py | 19 +++++++++----------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 6d6224a..d966b5c 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -408,7 +408,7 @@ class Interpolator(Loggable):
 
     def missing_as_nan(self, values):
         # missing cells, masked or equal to the missing value of target maps, are NaN for writers
-        values = ma.filled(values, np.nan)
+        values = np.array(ma.filled(values, np.nan))
         values[values == self.mv_output] = np.nan
         return values
 
diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 4321f1e..73b055d 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -11,8 +11,6 @@ from pyg2p.main.interpolation.latlong import Dem
 from pyg2p.main.readers.grib import GRIBReader
 
 from pyg2p.main.config import GeopotentialsConfiguration
-import pyg2p.util.numeric
-from netCDF4 import default_fillvals
 
 from ..interpolation.scipy_interpolation_lib import DEBUG_BILINEAR_INTERPOLATION, \
                                         DEBUG_MIN_LAT, DEBUG_MIN_LON, DEBUG_MAX_LAT, DEBUG_MAX_LON
@@ -40,7 +38,7 @@ class Corrector(Loggable):
         self._dem_missing_value, self._dem_values = self._read_dem(dem_map)
         self._formula = ctx.get('correction.formula')
         self._gem_formula = ctx.get('correction.gemFormula')
-        self._numexpr_eval = f'where((dem!=dem_mv) & (p!=mv) & (gem!=gem_mv), {self._formula}, mv)'
+        self._numexpr_eval = f'where((dem!=dem_mv) & (p==p) & (gem!=mv) & (gem==gem), {self._formula}, mv)'
         self._numexpr_eval_gem = f'where(z != mv, {self._gem_formula}, mv)'
 
         log_message = f"""
@@ -51,7 +49,7 @@ class Corrector(Loggable):
         """
         self._log(log_message, 'INFO')
 
-        self._gem_missing_value, self._gem_values = self._read_geo(geo_file, ctx)
+        self._interpolator, self._gem_values = self._read_geo(geo_file, ctx)
 
     def correct(self, values):
         with np.errstate(over='ignore'):
@@ -68,14 +66,13 @@ class Corrector(Loggable):
                     assert(False)
             else:
                 dem = self._dem_values
-            p = values
+            p = self._interpolator.missing_as_nan(values)
             gem = self._gem_values
             dem_mv = self._dem_missing_value
-            gem_mv = self._gem_missing_value
-            mv = default_fillvals[values.dtype.str[1:]] # take missing values from the default netCDF fillvals values
+            mv = self._interpolator.mv_output
             values = ne.evaluate(self._numexpr_eval)
             # mask out values (here is already output values with destination shape)
-            values = ma.masked_where(pyg2p.util.numeric.get_masks(p), values)
+            values = ma.masked_where(values == mv, values)
         return values
 
     def _read_geo(self, grib_file, ctx):
@@ -93,7 +90,9 @@ class Corrector(Loggable):
         # variables below are used by numexpr evaluation namespace: DO NOT DELETE!
         mv = missing
         z = values
-        ne.evaluate(self._numexpr_eval_gem, out=values)
+        values = ne.evaluate(self._numexpr_eval_gem)
+        if isinstance(z, ma.core.MaskedArray):
+            values = ma.masked_where(z.mask, values, copy=False)
 
         if is_grib_interpolation:
             values_resampled = interpolator.interpolate_grib(values, -1, self.grid_id)
@@ -102,7 +101,7 @@ class Corrector(Loggable):
             lats, lons = geopotential_gribs.latlons
             values_resampled = interpolator.interpolate_scipy(lats, lons, values, self.grid_id, geopotential_gribs.grid_details)
         reader.close()
-        return missing, values_resampled
+        return interpolator, interpolator.missing_as_nan(values_resampled)
 
     @staticmethod
     def _read_dem(dem_map):
-- 
2.43.0


From 244d9df186dee310b940b8fb837ebed84bb5b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 017/100] fix: start, end and data time of 0 are honoured

---
 src/pyg2p/main/api.py        | 6 +++---
 src/pyg2p/main/context.py    | 8 ++++----
 src/pyg2p/main/controller.py | 4 +++-
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 93a3415..f94193b 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -204,11 +204,11 @@ class ApiContext(Context):
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
-        if self._vars['parameter.tstart'] is None and self.api_conf['Parameter'].get('tstart'):
+        if self._vars['parameter.tstart'] is None and self.api_conf['Parameter'].get('tstart') not in (None, ''):
             self._vars['parameter.tstart'] = int(self.api_conf['Parameter']['tstart'])
-        if self._vars['parameter.tend'] is None and self.api_conf['Parameter'].get('tend'):
+        if self._vars['parameter.tend'] is None and self.api_conf['Parameter'].get('tend') not in (None, ''):
             self._vars['parameter.tend'] = int(self.api_conf['Parameter']['tend'])
-        if self._vars['parameter.dataTime'] is None and self.api_conf['Parameter'].get('dataTime'):
+        if self._vars['parameter.dataTime'] is None and self.api_conf['Parameter'].get('dataTime') not in (None, ''):
             self._vars['parameter.dataTime'] = int(self.api_conf['Parameter']['dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and self.api_conf['Parameter'].get('dataDate'):
             self._vars['parameter.dataDate'] = int(self.api_conf['Parameter']['dataDate'])  # date
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 92be2fc..04f9cc3 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -125,7 +125,7 @@ class Context:
             self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
 
             # check tstart<=tend
-            if self._vars['parameter.tstart'] and self._vars['parameter.tend'] and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
+            if self._vars['parameter.tstart'] is not None and self._vars['parameter.tend'] is not None and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
                 raise ApplicationException.get_exc(1500)
 
             # check both correction params are present
@@ -403,11 +403,11 @@ class ExecutionContext(Context):
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
-        if self._vars['parameter.tstart'] is None and exec_conf['Parameter'].get('@tstart'):
+        if self._vars['parameter.tstart'] is None and exec_conf['Parameter'].get('@tstart') not in (None, ''):
             self._vars['parameter.tstart'] = int(exec_conf['Parameter']['@tstart'])
-        if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend'):
+        if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend') not in (None, ''):
             self._vars['parameter.tend'] = int(exec_conf['Parameter']['@tend'])
-        if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime'):
+        if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime') not in (None, ''):
             self._vars['parameter.dataTime'] = int(exec_conf['Parameter']['@dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and exec_conf['Parameter'].get('@dataDate'):
             self._vars['parameter.dataDate'] = int(exec_conf['Parameter']['@dataDate'])  # date
diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index c1325c4..2cc62ae 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -37,7 +37,9 @@ class Controller(Loggable):
 
         # read grib messages
         start_step = self.ctx.get('parameter.tstart') or 0
-        end_step = self.ctx.get('parameter.tend') or grib_info.end
+        end_step = self.ctx.get('parameter.tend')
+        if end_step is None:
+            end_step = grib_info.end
 
         if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
             self.ctx.set_input_file_with_geopotential()
-- 
2.43.0


From 639d3c2eee6f24a09681e2c2300218371c9e7156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 018/100] fix: level given as a number in the command file

---
 src/pyg2p/main/context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 04f9cc3..a6c4463 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -118,9 +118,10 @@ class Context:
 
             # check all numbers
 
-            if self._vars['parameter.level'] and not self._vars['parameter.level'].isdigit():
+            level = self._vars.get('parameter.level')
+            if level not in (None, '') and not str(level).isdigit():
                 raise ApplicationException.get_exc(NOT_A_NUMBER, 'Parameter level')
-            self._vars['parameter.level'] = int(self._vars['parameter.level']) if self._vars.get('parameter.level') else None
+            self._vars['parameter.level'] = int(level) if level not in (None, '') else None
 
             self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
 
-- 
2.43.0


From 7cb55a0867269aa783158d42aecb08339a77af86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 019/100] fix: perturbationNumber of the command file is used
 as documented

---
 src/pyg2p/main/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index a6c4463..0ae8074 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -412,6 +412,8 @@ class ExecutionContext(Context):
             self._vars['parameter.dataTime'] = int(exec_conf['Parameter']['@dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and exec_conf['Parameter'].get('@dataDate'):
             self._vars['parameter.dataDate'] = int(exec_conf['Parameter']['@dataDate'])  # date
+        if self._vars['parameter.perturbationNumber'] is None and exec_conf['Parameter'].get('@perturbationNumber') not in (None, ''):
+            self._vars['parameter.perturbationNumber'] = int(exec_conf['Parameter']['@perturbationNumber'])  # eps member
 
         self._vars['parameter.level'] = exec_conf['Parameter'].get('@level')  # number
 
-- 
2.43.0


From 13f50bbe462cbd79ee44fe95d03ca4382e9a82a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 020/100] fix: first map number and extension step of 1 given
 on the command line win over the command file

---
 src/pyg2p/main/api.py     | 4 ++--
 src/pyg2p/main/context.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index f94193b..6379838 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -197,9 +197,9 @@ class ApiContext(Context):
             self._vars['outMaps.valueFormat'] = self.api_conf['OutMaps'].get('valueFormat')
         if self._vars['outMaps.outputStepUnits'] is None:
             self._vars['outMaps.outputStepUnits'] = self.api_conf['OutMaps'].get('outputStepUnits')
-        if self._vars['outMaps.fmap'] == 1:
+        if self._vars['outMaps.fmap'] is None:
             self._vars['outMaps.fmap'] = self.api_conf['OutMaps'].get('fmap') or 1
-        if self._vars['outMaps.ext'] == 1:
+        if self._vars['outMaps.ext'] is None:
             self._vars['outMaps.ext'] = self.api_conf['OutMaps'].get('ext') or 1
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 0ae8074..07e8ece 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -274,12 +274,12 @@ class ExecutionContext(Context):
                             type=int, metavar='data_date')
 
         # output file naming (first extension number, extension number step, prefix
-        parser.add_argument('-f', '--fmap', help='First map number', type=int, default=1, metavar='fmap')
+        parser.add_argument('-f', '--fmap', help='First map number', type=int, metavar='fmap')
         # output file format
         parser.add_argument('-F', '--format', metavar='format',
                             default='notset', choices=['netcdf', 'pcraster', 'notset'],
                             help='Output format. Available options: netcdf,  pcraster. Default pcraster')
-        parser.add_argument('-x', '--ext', help='Extension number step', type=int, default=1, metavar='extension_step')
+        parser.add_argument('-x', '--ext', help='Extension number step', type=int, metavar='extension_step')
         parser.add_argument('-n', '--namePrefix', help='Prefix name for maps', metavar='outfiles_prefix')
         parser.add_argument('-O', '--offset', help='Map offset', metavar='offset')
         parser.add_argument('-S', '--scaleFactor', help='Map scale factor', metavar='scale_factor')
@@ -394,9 +394,9 @@ class ExecutionContext(Context):
             self._vars['outMaps.valueFormat'] = exec_conf['OutMaps'].get('@valueFormat')
         if self._vars['outMaps.outputStepUnits'] is None:
             self._vars['outMaps.outputStepUnits'] = exec_conf['OutMaps'].get('@outputStepUnits')
-        if self._vars['outMaps.fmap'] == 1:
+        if self._vars['outMaps.fmap'] is None:
             self._vars['outMaps.fmap'] = exec_conf['OutMaps'].get('@fmap') or 1
-        if self._vars['outMaps.ext'] == 1:
+        if self._vars['outMaps.ext'] is None:
             self._vars['outMaps.ext'] = exec_conf['OutMaps'].get('@ext') or 1
         if self._vars['outMaps.format'] == 'notset':
             # default out format to pcraster if not set from commandline nor in execution command json
-- 
2.43.0


From 03ed1a76db3bdec1be9253eb7a6ae6f44b97b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 021/100] fix: a missing second input file is reported before
 running

---
 src/pyg2p/main/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 07e8ece..c0dd7c8 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -94,6 +94,9 @@ class Context:
             if not files.exists(self._vars['input.file']):
                 raise ApplicationException.get_exc(NOT_EXISTING_INPUT_GRIB, self._vars['input.file'])
 
+            if self._vars.get('input.file2') and not files.exists(self._vars['input.file2']):
+                raise ApplicationException.get_exc(NOT_EXISTING_INPUT_GRIB, self._vars['input.file2'])
+
             if not files.exists(self._vars['interpolation.lonMap']) or not files.exists(self._vars['interpolation.latMap']):
                 raise ApplicationException.get_exc(
                     NOT_EXISTING_MAPS,
-- 
2.43.0


From 3c62e62d820775b6929cd7a7a81d9cc03689174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 022/100] fix: configuration commands -g, -W and -K

---
 src/pyg2p/main/__init__.py | 4 ++--
 src/pyg2p/main/api.py      | 2 +-
 src/pyg2p/main/context.py  | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 7febe4f..02e6325 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -61,7 +61,7 @@ def config_command(exc_ctx):
     if exc_ctx.to_download_conf:  # -W
         # download configuration
         dataset = exc_ctx.get('download_configuration')
-        conf.download_data(dataset, logger)
+        conf.download_data(dataset)
         logger.info('Configuration downloaded.')
 
     elif exc_ctx.to_add_geopotential:  # -g
@@ -72,4 +72,4 @@ def config_command(exc_ctx):
 
     elif exc_ctx.to_check_conf:  # -K
         # check unused intertables (intertables that are not in configuration and can be deleted
-        conf.to_check_conf()
+        conf.check_conf()
diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 6379838..7321411 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -123,7 +123,7 @@ class ApiContext(Context):
         self._vars['input.file2'] = self.api_conf.get('inputFile2')
         self._vars['input.two_resolution'] = bool(self._vars['input.file2'])
         self._vars['geopotential'] = self.api_conf.get('addGeopotential')
-        self._to_add_geopotential = bool(self._vars['geopotential'])
+        self.to_add_geopotential = bool(self._vars['geopotential'])
         self._vars['download_configuration'] = self.api_conf.get('downloadConf')
         self._vars['under_api'] = True
         self._vars['check_conf'] = self.api_conf.get('checkConf')
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index c0dd7c8..aa42330 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -86,7 +86,7 @@ class Context:
             if not files.exists(self._vars['geopotential']):
                 raise ApplicationException.get_exc(7001, self._vars['geopotential'])
 
-        else:
+        elif not self.is_config_command:
 
             if not self._vars.get('input.file'):
                 raise ApplicationException.get_exc(MISSING_INPUT_GRIB)
@@ -244,7 +244,7 @@ class ExecutionContext(Context):
         self._vars['input.file2'] = parsed_args['inputFile2']
         self._vars['input.two_resolution'] = bool(self._vars['input.file2'])
         self._vars['geopotential'] = parsed_args['addGeopotential']
-        self._to_add_geopotential = bool(self._vars['geopotential'])
+        self.to_add_geopotential = bool(self._vars['geopotential'])
         self._vars['download_configuration'] = parsed_args['downloadConf']
         self._vars['under_api'] = parsed_args['underApi']
         self._vars['check_conf'] = parsed_args['checkConf']
-- 
2.43.0


From 2a70517f7973fbfc3badd2645b4754ad92610e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 023/100] fix: a failed run in netCDF format ends with its own
 error

---
 src/pyg2p/main/__init__.py       | 3 ++-
 src/pyg2p/main/writers/netcdf.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 02e6325..df64b4e 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -51,7 +51,8 @@ def execute(exc_ctx):
         if not err.code == NO_MESSAGES:
             ret_value = 1
     finally:
-        ctrl.close()
+        if ctrl:
+            ctrl.close()
     return ret_value
 
 
diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index a798067..fc5dc96 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -183,5 +183,6 @@ class NetCDFWriter(Writer):
         return masked
 
     def close(self):
-        self.nf.close()
-        self._log(f'{self.filepath} written!', 'INFO')
+        if self.nf:
+            self.nf.close()
+            self._log(f'{self.filepath} written!', 'INFO')
-- 
2.43.0


From 813c8eed44ebd91f44f87cfb169fe6b852a09015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 024/100] fix: values with an equal sign in .conf files are
 kept whole

---
 src/pyg2p/main/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index f7d4f81..deab2f2 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -58,7 +58,7 @@ class UserConfiguration(pyg2p.Loggable):
             for line in f:
                 line = line.strip()
                 if line and not line.startswith(self.comment_char):
-                    key_value = line.split(self.sep)
+                    key_value = line.split(self.sep, 1)
                     props[key_value[0].strip()] = key_value[1].strip('" \t')
         return props
 
-- 
2.43.0


From b6dbaa5521728aee5f01390a8a88d5ae7277e273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 025/100] fix: an undefined path variable is reported by name

---
 src/pyg2p/main/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index deab2f2..4956926 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -30,7 +30,7 @@ class UserConfiguration(pyg2p.Loggable):
     sep = '='
     comment_char = '#'
     conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap')
-    re_var = re.compile(r'{(?P<var>[a-zA-Z_]+)}')
+    re_var = re.compile(r'{(?P<var>[a-zA-Z_][a-zA-Z0-9_]*)}')
     geopotentials_path_var = 'GEOPOTENTIALS'
     intertables_path_var = 'INTERTABLES'
 
@@ -74,7 +74,7 @@ class UserConfiguration(pyg2p.Loggable):
         vars_with_variables = [var for var in self.conf_to_interpolate if self.re_var.search(ctx.get(var, ''))]
         for var in vars_with_variables:
             # we can have multiple variables {CONF_DIR}/{MAPS_DIR}lat.map
-            ctx[var] = ctx[var].format(**self.vars)
+            ctx[var] = self.re_var.sub(lambda m: self.vars.get(m.group('var'), m.group(0)), ctx[var])
             if self.re_var.search(ctx[var]):
                 # some variables where not string-interpolated so they are missing in user configuration
                 vars_not_defined = self.re_var.findall(ctx[var])
-- 
2.43.0


From 21fd90febceee47f5f231a2bd6b39da4e3925f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 026/100] fix: an empty user configuration is written as an
 empty object

---
 src/pyg2p/main/config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 4956926..793c685 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -141,8 +141,7 @@ class BaseConfiguration(pyg2p.Loggable):
 
     def dump(self):
         with open(self.config_file, 'w') as f:
-            user_vars = self.user_vars or '{}'
-            f.write(json.dumps(user_vars, sort_keys=True, indent=4))
+            f.write(json.dumps(self.user_vars, sort_keys=True, indent=4))
 
     def check_write(self):
         if not self.data_path:
-- 
2.43.0


From 85034a889d09664cd39fd7046424f431119def75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 027/100] fix: a configuration file that is not a JSON object
 is reported

---
 src/pyg2p/main/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 793c685..8f7f8de 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -135,6 +135,8 @@ class BaseConfiguration(pyg2p.Loggable):
         except ValueError as e:
             raise ApplicationException.get_exc(JSON_ERROR, details=f'{e} {self.config_file}')
         else:
+            if not isinstance(content, dict):
+                raise ApplicationException.get_exc(JSON_ERROR, details=f'Not a JSON object: {self.config_file}')
             return content
         finally:
             f.close()
-- 
2.43.0


From c3fbccabfb62a784366106ff4985a36be1f38d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 028/100] fix: geopotential registry keeps one file per grid
 and is up to date after adding and removing

---
 src/pyg2p/main/config.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 8f7f8de..65613ab 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -240,14 +240,23 @@ class GeopotentialsConfiguration(BaseConfiguration):
         name = file_util.filename(filepath)
         self.check_write()
 
-        file_util.copy(filepath, self.data_path)
+        # never overwrite the file of another grid
+        stem, ext = os.path.splitext(name)
+        i = 1
+        while name in self.vars.values():
+            name = f'{stem}_{i}{ext}'
+            i += 1
+
+        file_util.copy(filepath, os.path.join(self.data_path, name))
         self.user_vars[id_] = name
+        self.vars[id_] = name
         self.dump()
 
     def remove(self, filename):
         for g in self.user_vars.keys():
             if self.user_vars[g] == filename:
                 del self.user_vars[g]
+                self.vars.pop(g, None)
                 self.dump()
                 break
 
-- 
2.43.0


From f2fbc5f21161954439e3c2ff06416fe491a37e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 029/100] fix: adding a geopotential file without geopotential
 messages is reported

---
 src/pyg2p/main/readers/grib.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index e834a1c..4973702 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -50,7 +50,12 @@ class GRIBReader(Loggable):
     def get_id(cls, grib_file, reader_args):
         reader = GRIBReader(grib_file)
         gribs_for_id = reader._get_gids(**reader_args)
+        if not gribs_for_id:
+            reader.close()
+            raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {reader_args} in {grib_file}')
         grid = GribGridDetails(gribs_for_id[0])
+        for g in gribs_for_id:
+            codes_release(g)
         reader.close()
         return grid.grid_id
 
-- 
2.43.0


From 7b7ed8f199bcd4521d9b0fda87c65e2c09626d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 030/100] fix: results do not depend on the order of messages
 in the GRIB file

---
 src/pyg2p/main/readers/grib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 4973702..f789c14 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -147,6 +147,8 @@ class GRIBReader(Loggable):
             if (len(gribs) == 0) and ('startStep' in kwargs and utils.is_callable(kwargs['startStep']) and not kwargs['startStep'](0)):
                 kwargs['startStep'] = lambda s: s >= 0
                 gribs = self.scan_grib(**kwargs)
+            # same results whatever the order of messages in the file
+            gribs.sort(key=lambda g: codes_get(g, 'endStep'))
             return gribs
         except ValueError:
             raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {kwargs}')
@@ -205,9 +207,9 @@ class GRIBReader(Loggable):
                     bitmap = codes_get_array(g, 'bitmap', int)
                     values = ma.masked_where(bitmap == 0, values, copy=False)
 
-                if not grid2:
+                if points_meridian == grid.num_points_along_meridian:
                     all_values[step_key] = values
-                elif points_meridian != grid.num_points_along_meridian:
+                else:
                     all_values_second_res[step_key] = values
 
             if grid2:
-- 
2.43.0


From f84df1ba840c524ae831e5e62717a45b7757b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 031/100] fix: input step and last step are those of the
 messages matching level, date and time

---
 src/pyg2p/main/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index aa42330..fdb6e0c 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -174,6 +174,9 @@ class Context:
     def create_select_cmd_for_aggregation_attrs(self):
 
         reader_arguments = {'shortName': str(self._vars['parameter.shortName'])}
+        for key in ('level', 'dataTime', 'dataDate'):
+            if self._vars.get(f'parameter.{key}') is not None:
+                reader_arguments[key] = self._vars[f'parameter.{key}']
         if self.has_perturbation_number:
             reader_arguments['perturbationNumber'] = self._vars['parameter.perturbationNumber']
         return reader_arguments
-- 
2.43.0


From 3c93bbde47d0d8cc8e1c1ec80f711545300cc501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 032/100] fix: geopotential lookup in input files with
 perturbation number or without index

---
 src/pyg2p/main/readers/grib.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index f789c14..fde89be 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -90,22 +90,12 @@ class GRIBReader(Loggable):
         has_geo = False
         from pyg2p.main.config import GeopotentialsConfiguration
         v_selected = GeopotentialsConfiguration.short_names
-        if self._grbindx:
-            for v in v_selected:
-                codes_index_select(self._grbindx, 'shortName', str(v))
-                while 1:
-                    gid = codes_new_from_index(self._grbindx)
-                    if gid is None:
-                        break
-                    has_geo = True
-                    codes_release(gid)
-
-        elif self._file_handler:
-            while 1:
-                gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
+        with open(self._grib_file, 'rb') as grib:
+            while not has_geo:
+                gid = codes_new_from_file(grib, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
                     break
-                has_geo = True
+                has_geo = codes_get(gid, 'shortName') in v_selected
                 codes_release(gid)
         return has_geo
 
@@ -130,6 +120,7 @@ class GRIBReader(Loggable):
                         # release unused grib
                         codes_release(gid)
         elif self._file_handler:
+            self._file_handler.seek(0)
             while 1:
                 gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
-- 
2.43.0


From 734583f05b3aa53e954fd1946c845c795c1f3169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 033/100] fix: aggregation reads the messages around first and
 last step when these are not in the file

---
 src/pyg2p/main/controller.py              |  5 ++++-
 src/pyg2p/main/manipulation/aggregator.py |  2 +-
 src/pyg2p/main/readers/grib.py            | 10 ++++++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 2cc62ae..a0f8e0e 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -56,7 +56,10 @@ class Controller(Loggable):
                                     unit_time=self.ctx.get('outMaps.unitTime'),
                                     force_zero_array=self.ctx.get('aggregation.forceZeroArray'))
             start_step, end_step = aggregator.get_real_start_end_steps()
-        selector_params = self.ctx.create_select_cmd_for_reader(start_step, end_step)
+            # aggregation uses also the messages before and after the steps which are not in the file
+            selector_params = self.ctx.create_select_cmd_for_reader(*self.grib_reader.steps_covering(start_step, end_step))
+        else:
+            selector_params = self.ctx.create_select_cmd_for_reader(start_step, end_step)
         return grib_info, selector_params, end_step, aggregator
 
     def second_res_manipulation(self, start_step, end_step, input_step, messages, mv_grib, values):
diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 312b821..b3247c4 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -83,7 +83,7 @@ class Aggregator(Loggable):
             self._log('start 0: change to the first timestep {}'.format(self._aggregation_step))
             self._start = self._aggregation_step
 
-        if 0 not in v_ord and self._usable_start == 0:
+        if 0 not in v_ord and self._start - self._aggregation_step < min(v_ord):
             self._log('Message 0 not in dataset. Creating it as zero values array')
             v_ord[0] = np.zeros(shape_iter)
             v_ord.move_to_end(0, last=False)
diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index fde89be..03320c0 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -45,6 +45,7 @@ class GRIBReader(Loggable):
         self._change_step_at = ''
         self._gid_main_res = None
         self._gid_ext_res = None
+        self._available_steps = []
 
     @classmethod
     def get_id(cls, grib_file, reader_args):
@@ -247,6 +248,7 @@ class GRIBReader(Loggable):
             start_grib, end_grib, self._step_grib, self._step_grib2, self._change_step_at = self._find_start_end_steps(_gribs_for_utils)
             self._log("Grib input step %d [type of step: %s]" % (self._step_grib, type_of_step))
             self._log('Gribs from %d to %d' % (start_grib, end_grib))
+            self._available_steps = [(codes_get(g, 'startStep'), codes_get(g, 'endStep')) for g in _gribs_for_utils]
             for g in _gribs_for_utils:
                 codes_release(g)
             _gribs_for_utils = None
@@ -259,6 +261,14 @@ class GRIBReader(Loggable):
         else:
             raise ApplicationException.get_exc(NO_MESSAGES, details="using " + str(select_args))
 
+    def steps_covering(self, start, end):
+        """
+        Steps to read to have (or to create) fields at start and end, which can be between two messages
+        """
+        before = [start_step for start_step, _ in self._available_steps if start_step <= start]
+        after = [end_step for _, end_step in self._available_steps if end_step >= end]
+        return max(before) if before else start, min(after) if after else end
+
     def get_gids_for_grib_intertable(self):
         # returns gids of messages to use to create interpolation tables
         val = codes_get_double_array(self._gid_main_res, 'values')
-- 
2.43.0


From 33ebdd506bbbf71377b005bfe29cc93b0052e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 034/100] fix: one consistent series of maps when messages
 change spatial resolution

---
 src/pyg2p/main/controller.py              | 76 ++++++++++++++++-------
 src/pyg2p/main/manipulation/aggregator.py | 15 +++++
 2 files changed, 68 insertions(+), 23 deletions(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index a0f8e0e..5e8585c 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -1,7 +1,7 @@
 import collections
 
 from .. import Loggable
-from ..main.manipulation.aggregator import Aggregator
+from ..main.manipulation.aggregator import Aggregator, INSTANTANEOUS, AVERAGE
 from ..main.readers.grib import GRIBReader
 from ..main.writers import OutputWriter
 
@@ -38,8 +38,11 @@ class Controller(Loggable):
         # read grib messages
         start_step = self.ctx.get('parameter.tstart') or 0
         end_step = self.ctx.get('parameter.tend')
+        if self.ctx.is_2_input_files:
+            self.grib_reader2 = GRIBReader(self.ctx.get('input.file2'), w_perturb=self.ctx.has_perturbation_number)
+            grib_info2 = self.grib_reader2.get_grib_info(self.ctx.create_select_cmd_for_aggregation_attrs())
         if end_step is None:
-            end_step = grib_info.end
+            end_step = max(grib_info.end, grib_info2.end) if self.ctx.is_2_input_files else grib_info.end
 
         if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
             self.ctx.set_input_file_with_geopotential()
@@ -73,14 +76,41 @@ class Controller(Loggable):
                         end_step=end_step, unit_time=self.ctx.get('outMaps.unitTime'), mv_grib=mv_grib,
                         force_zero_array=self.ctx.get('aggregation.forceZeroArray'))
         values2 = m2.do_manipulation(messages.second_resolution_values())
-        values.update(values2)
-        # overwrite change_step resolution because of manipulation
-        change_step = sorted(values2.keys(), key=lambda k: int(k.end_step))[0]
+        return self.merge_resolutions(values, values2)
+
+    @staticmethod
+    def merge_resolutions(values, values2):
+        # the second resolution replaces the first one from its first step
+        change_step = min(values2.keys(), key=lambda k: int(k.end_step), default=None)
+        if change_step is not None:
+            values = {k: v for k, v in values.items() if int(k.end_step) < int(change_step.end_step)}
+            values.update(values2)
         return change_step, values
 
-    def read_2nd_res_messages(self, cmd_args, messages):
+    def resolution_limits(self, messages, aggregator):
+        """
+        Return last step to aggregate at first resolution (None if there are no messages for it)
+        and step from which the aggregation continues at second resolution
+        """
+        change = int(messages.change_resolution_step().end_step)
+        instantaneous = self.ctx.get('aggregation.type') == INSTANTANEOUS
+        steps = [int(k.end_step) for k in messages.first_resolution_values()
+                 if int(k.end_step) < change or (int(k.end_step) == change and not instantaneous)]
+        last = max(steps, default=None)
+        if instantaneous:
+            # second resolution is used from its first message and before, if not available at first resolution
+            start2 = last + 1 if last is not None else 0
+        elif self.ctx.get('aggregation.type') == AVERAGE and not self.ctx.get('aggregation.halfweights') and last is not None:
+            # the beginning of the window is not used
+            start2 = last
+        else:
+            start2 = change
+        return last, aggregator.start_step_from(start2)
+
+    def read_2nd_res_messages(self, cmd_args, messages, aggregator=None):
         # append messages
-        self.grib_reader2 = GRIBReader(self.ctx.get('input.file2'), w_perturb=self.ctx.has_perturbation_number)
+        if aggregator:
+            cmd_args = self.ctx.create_select_cmd_for_reader(*self.grib_reader2.steps_covering(*aggregator.get_real_start_end_steps()))
         # messages.change_resolution() returns True after Messages.append_2nd_res_messages()
         mess_2nd_res = self.grib_reader2.select_messages(**cmd_args)
         messages.append_2nd_res_messages(mess_2nd_res)
@@ -95,7 +125,7 @@ class Controller(Loggable):
 
         if self.ctx.is_2_input_files:
             # two files as input (-i and -I input arguments were given)
-            self.read_2nd_res_messages(grib_select_cmd, messages)
+            self.read_2nd_res_messages(grib_select_cmd, messages, aggregator)
             # inject aux attributes for interpolation into main reader, to use later
             self.grib_reader.set_2nd_aux(self.grib_reader2.get_main_aux())
 
@@ -115,22 +145,22 @@ class Controller(Loggable):
 
         values = messages.first_resolution_values()
 
-        # First resolution manipulation
-        if self.ctx.must_do_aggregation:
-            if messages.have_resolution_change():
-                change_res_step = messages.change_resolution_step()
-                # First resolution manipulation by setting end step as start step of the first message at 2nd resolution
-                aggregator.change_end_step(int(change_res_step.start_step))
-            values = aggregator.do_manipulation(values)
-
         change_res_step = None
-        if messages.have_resolution_change():
-            change_res_step = messages.change_resolution_step()
-            start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
-            # we need GRIB lats and lons only for scipy interpolation
-            if self.ctx.must_do_aggregation and end_step > start_step2:
-                # second resolution manipulation
-                change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
+        if not messages.have_resolution_change():
+            if self.ctx.must_do_aggregation:
+                values = aggregator.do_manipulation(values)
+        elif self.ctx.must_do_aggregation:
+            # First resolution manipulation, until the last step before second resolution
+            end_step1, start_step2 = self.resolution_limits(messages, aggregator)
+            if end_step1 is None:
+                values = {}
+            else:
+                aggregator.change_end_step(min(end_step, end_step1))
+                values = aggregator.do_manipulation(values)
+            # second resolution manipulation
+            change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
+        else:
+            change_res_step, values = self.merge_resolutions(values, messages.second_resolution_values())
 
         # cutoff after interpolation
         if converter and converter.must_cut_off:
diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index b3247c4..6712981 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -59,6 +59,21 @@ class Aggregator(Loggable):
     def get_real_start_end_steps(self):
         return self._usable_start, self._end
 
+    def start_step_from(self, step):
+        """
+        Start step to continue this aggregation with values available only from step
+        (i.e. with its first window beginning, or its first instantaneous map, at step or after)
+        """
+        if self._aggregation == INSTANTANEOUS:
+            first = self._find_start()
+        else:
+            first = (self._start or self._aggregation_step) - self._aggregation_step
+        while first < step:
+            first += self._aggregation_step
+        if self._aggregation == INSTANTANEOUS and self._step_type == PARAM_AVG:
+            return first - self._input_step
+        return first + self._aggregation_step
+
     def do_manipulation(self, values):
         log_message = f'\nAggregation {self._aggregation} with step {self._aggregation_step} '\
                       f'for {self._step_type} values from {self._start} to {self._end} '\
-- 
2.43.0


From 515da4bd5c1e9b409dd45546fbecee5c24d0c542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 035/100] fix: commands built from strings keep flags and
 values, and a command can be created empty

---
 src/pyg2p/main/api.py     |  3 ++-
 src/pyg2p/util/strings.py | 22 ++++++++++++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 7321411..1524b8b 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -1,4 +1,5 @@
 import collections
+import re
 from functools import partial
 from pathlib import Path
 from types import MethodType
@@ -53,7 +54,7 @@ class Command:
         return self
 
     def __init__(self, cmd_string=None, **params):
-        cmd_string = cmd_string.lstrip('pyg2p').strip()
+        cmd_string = re.sub(r'^pyg2p(\.py)?(\s+|$)', '', (cmd_string or '').strip())
         if params:
             opts = params.copy()
             # string interpolation
diff --git a/src/pyg2p/util/strings.py b/src/pyg2p/util/strings.py
index 0c2231e..f47ccda 100644
--- a/src/pyg2p/util/strings.py
+++ b/src/pyg2p/util/strings.py
@@ -29,8 +29,26 @@ def to_argv(string_):
 
 
 def to_argdict(string_):
-    c = re.split(' |=', string_.strip(), maxsplit=0)
-    return dict(zip(c[0::2], c[1::2]))
+    args = {}
+    name = None  # argument waiting for its value
+    for token in string_.split():
+        is_option = token.startswith('-') and not re.match(r'^-\d+$|^-\d*\.\d+$', token)
+        if name is not None:
+            if not is_option:
+                args[name] = token
+                name = None
+                continue
+            if name.startswith('-'):
+                # flag: option without a value
+                args[name] = ''
+        name = token
+        if is_option and '=' in token:
+            name, args_value = token.split('=', 1)
+            args[name] = args_value
+            name = None
+    if name is not None and name.startswith('-'):
+        args[name] = ''
+    return args
 
 
 FALSE_STRINGS = ['FALSE', 'F', 'f', 'False', 'false', 'NO', 'no', 'No', '0', 'off', 'OFF', 'Off', 'nO']
-- 
2.43.0


From 9f1c0e4682a7230ab3e88c8b600c15841bca38fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 036/100] fix: API contexts honour halfweights, and start and
 end are optional

---
 src/pyg2p/main/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 1524b8b..ce0a467 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -101,8 +101,8 @@ class ApiContext(Context):
         self._vars['logger.level'] = self.api_conf.get('loggerLevel', 'INFO')
 
         self._vars['input.file'] = self.api_conf['inputFile']
-        self._vars['parameter.tstart'] = self.api_conf['start']
-        self._vars['parameter.tend'] = self.api_conf['end']
+        self._vars['parameter.tstart'] = self.api_conf.get('start')
+        self._vars['parameter.tend'] = self.api_conf.get('end')
         self._vars['parameter.dataTime'] = self.api_conf.get('dataTime')
         self._vars['parameter.dataDate'] = self.api_conf.get('dataDate')
         self._vars['interpolation.dir'] = self.api_conf.get('intertableDir')
@@ -219,6 +219,7 @@ class ApiContext(Context):
         if self.api_conf.get('Aggregation'):
             self._vars['aggregation.step'] = self.api_conf['Aggregation'].get('step')
             self._vars['aggregation.type'] = self.api_conf['Aggregation'].get('type')
+            self._vars['aggregation.halfweights'] = bool(self.api_conf['Aggregation'].get('halfweights'))
 
             self._vars['execution.doAggregation'] = bool(self._vars.get('aggregation.step')) and bool(self._vars.get('aggregation.type'))
             self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION and self.api_conf['Aggregation'].get('forceZeroArray', 'False').lower() not in strings.FALSE_STRINGS
-- 
2.43.0


From da30cc59a22a0e9f7bce867c14a2e20848bc0517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 037/100] fix: API executions can create tables of grib
 interpolation modes

---
 src/pyg2p/main/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index ce0a467..f840ba4 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -293,6 +293,9 @@ class Pyg2pApi:
         values, self.messages, self.change_res_step = ctrl.execute(write_results=False)
         # need interpolation and correction
         self.interpolator = Interpolator(self.context, grib_info.mv)
+        if self.context.is_with_grib_interpolation:
+            # to create interpolation tables
+            self.interpolator.aux_for_intertable_generation(*ctrl.grib_reader.get_gids_for_grib_intertable())
         is_second_res = False
         lats, longs = self.messages.latlons
         geodetic_info = self.messages.grid_details
-- 
2.43.0


From f49a9ce33176e79ed10c992f929ef0d339521e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 038/100] fix: forceZeroArray can be a boolean

---
 src/pyg2p/main/api.py     | 2 +-
 src/pyg2p/main/context.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index f840ba4..4eb30fb 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -222,7 +222,7 @@ class ApiContext(Context):
             self._vars['aggregation.halfweights'] = bool(self.api_conf['Aggregation'].get('halfweights'))
 
             self._vars['execution.doAggregation'] = bool(self._vars.get('aggregation.step')) and bool(self._vars.get('aggregation.type'))
-            self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION and self.api_conf['Aggregation'].get('forceZeroArray', 'False').lower() not in strings.FALSE_STRINGS
+            self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION and str(self.api_conf['Aggregation'].get('forceZeroArray', 'False')).lower() not in strings.FALSE_STRINGS
 
         # string interpolation for custom user configurations (i.e. dataset folders)
         self.configuration.user.interpolate_strings(self)
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index fdb6e0c..4ec345d 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -431,7 +431,7 @@ class ExecutionContext(Context):
             self._vars['execution.doAggregation'] = bool(self._vars.get('aggregation.step')) \
                 and bool(self._vars.get('aggregation.type'))
             self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION \
-                and exec_conf['Aggregation'].get('@forceZeroArray', 'False').lower() not in strings.FALSE_STRINGS
+                and str(exec_conf['Aggregation'].get('@forceZeroArray', 'False')).lower() not in strings.FALSE_STRINGS
 
         # string interpolation for custom user configurations (i.e. dataset folders)
         self.configuration.user.interpolate_strings(self)
-- 
2.43.0


From 1129eaa3b06628fac4b0203b6d272ef38e2d56a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 039/100] fix: details of a parameter whose conversion does not
 define cutOffNegative

---
 src/pyg2p/main/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 4eb30fb..57aed44 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -256,7 +256,7 @@ class Pyg2pApi:
             conversions = [conversions]
         for c in conversions:
             out += '\n'
-            out += f"Conversion id: {c['@id']} unit {c['@unit']} {c['@function']} [cut negative: {c['@cutOffNegative']}]"
+            out += f"Conversion id: {c['@id']} unit {c['@unit']} {c['@function']} [cut negative: {c.get('@cutOffNegative', False)}]"
         return out
 
     def __init__(self, api_ctx):
-- 
2.43.0


From d7075cc367697be6a4caef6b3f54a1cb7eaaa870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 040/100] fix: interpolation in splits gives the results of the
 plain one

---
 .../interpolation/scipy_interpolation_lib.py  | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 7760424..52450ba 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -570,6 +570,9 @@ class ScipyInterpolation(object):
             self.min_upper_bound = np.max(distances) + np.max(distances) * 4 / self.geodetic_info.get('Nj')
 
     def interpolate(self, lonefas, latefas):        
+        # CDD maps refer to the whole target
+        self.all_target_lons = lonefas
+        self.all_target_lats = latefas
         if (self.num_of_splits is not None):
             ref_radius = None
             if self.mode == 'adw' and self.nnear == 11:
@@ -586,7 +589,7 @@ class ScipyInterpolation(object):
                 stdout.write('KDtree find radius time (sec): {}\n'.format(checktime - start))
 
             # Define the size of the subsets, only in lonm
-            subset_size = lonefas.shape[0]//self.num_of_splits
+            subset_size = max(1, lonefas.shape[0]//self.num_of_splits)
 
             # Initialize empty arrays to store the results
             weights = np.empty((lonefas.shape[0]*lonefas.shape[1],self.nnear),dtype=lonefas.dtype)
@@ -599,7 +602,7 @@ class ScipyInterpolation(object):
                 subset_latefas = latefas[i:i+subset_size, :]
 
                 # Call the interpolate function for the subset
-                subset_result, subset_weights, subset_indexes = self.interpolate_split(subset_lonefas, subset_latefas, ref_radius)
+                subset_result, subset_weights, subset_indexes = self.interpolate_split(subset_lonefas, subset_latefas, ref_radius, slice(i*lonefas.shape[1], (i+subset_size)*lonefas.shape[1]))
 
                 # Collect the results back into the weights and indexes arrays
                 weights[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1],:] = subset_weights
@@ -612,7 +615,7 @@ class ScipyInterpolation(object):
         return result, weights, indexes
 
 
-    def interpolate_split(self, target_lons, target_lats, ref_radius=None):        
+    def interpolate_split(self, target_lons, target_lats, ref_radius=None, target_cells=slice(None)):        
         # Target coordinates  HAVE to be rotated coords in case GRIB grid is rotated
         # Example of target rotated coords are COSMO lat/lon/dem PCRASTER maps
         self.target_latsOR=target_lats
@@ -641,7 +644,8 @@ class ScipyInterpolation(object):
                 result, weights, indexes = self._build_weights_invdist(distances, indexes, self.nnear, adw_type='Shepard', use_broadcasting=self.use_broadcasting, ref_radius=ref_radius)             
             elif self.mode == 'cdd':
                 result, weights, indexes = self._build_weights_invdist(distances, indexes, self.nnear, adw_type='CDD', use_broadcasting=self.use_broadcasting, ref_radius=None,
-                                                                       cdd_map=self.cdd_map, cdd_mode=self.cdd_mode, cdd_options=self.cdd_options)
+                                                                       cdd_map=self.cdd_map, cdd_mode=self.cdd_mode, cdd_options=self.cdd_options,
+                                                                       target_cells=target_cells)
             elif self.mode == 'bilinear' and self.nnear == 4: # bilinear interpolation only supported with nnear = 4
                 # BILINEAR INTERPOLATION
                 result, weights, indexes = self._build_weights_bilinear(distances, indexes, efas_locations, self.nnear) 
@@ -772,7 +776,7 @@ class ScipyInterpolation(object):
     # if adw_type == None -> simple IDW 
     # if adw_type == Shepard -> Shepard 1968 original formulation
     def _build_weights_invdist(self, distances, indexes, nnear, adw_type = None, use_broadcasting = False, ref_radius = None, 
-                               cdd_map='', cdd_mode='', cdd_options=None):
+                               cdd_map='', cdd_mode='', cdd_options=None, target_cells=slice(None)):
         if DEBUG_ADW_INTERPOLATION:
             if adw_type != "Shepard":
                 self.min_upper_bound = 1000000000
@@ -867,7 +871,7 @@ class ScipyInterpolation(object):
                 weights_mode = 'All'
                 #weights_mode = 'OnlyTOP10'
                 if (CDDmode == 'Hofstra'):
-                    CDD_map = CDD_map.ravel()
+                    CDD_map = CDD_map.ravel()[target_cells]
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
@@ -878,7 +882,7 @@ class ScipyInterpolation(object):
                     s = np.zeros_like(distances)       
                     s = cdd_hofstra_compute_weights_from_cutoff_distances(distances, CDD_map, s)
                 elif CDDmode == 'MixHofstraShepard':
-                    CDD_map = CDD_map.ravel()
+                    CDD_map = CDD_map.ravel()[target_cells]
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
@@ -900,10 +904,10 @@ class ScipyInterpolation(object):
                     cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map, nnear, s, m_const, min_num_of_station, radius_ratio)
                 elif CDDmode == 'NewEtAl':
                     s = np.zeros_like(distances)  
-                    TargetLonRes=self.target_lonsOR[0,0]-self.target_lonsOR[0,1]
-                    TargetLatRes=self.target_latsOR[0,0]-self.target_latsOR[1,0]
-                    LonOrigin=self.target_lonsOR[0,0]
-                    LatOrigin=self.target_latsOR[0,0]
+                    TargetLonRes=self.all_target_lons[0,0]-self.all_target_lons[0,1]
+                    TargetLatRes=self.all_target_lats[0,0]-self.all_target_lats[1,0]
+                    LonOrigin=self.all_target_lons[0,0]
+                    LatOrigin=self.all_target_lats[0,0]
                     s = cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, self.longrib, self.latgrib, 
                                                                         TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s)
                 else:
-- 
2.43.0


From b54dca5afd933444a0e983f617c8f205583ee215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 041/100] fix: CDD maps and modes which cannot be used are
 reported

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 52450ba..d01c30e 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -553,7 +553,7 @@ class ScipyInterpolation(object):
         try:
             assert len(source_locations) == len(source_values), "len(coordinates) {} != len(values) {}".format(len(source_locations), len(source_values))
         except AssertionError as e:
-            ApplicationException.get_exc(WEIRD_STUFF, details=str(e))
+            raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e))
 
         stdout.write('Building KDTree...\n')
         self.tree = KDTree(source_locations, leafsize=30)  # build the tree
@@ -875,7 +875,7 @@ class ScipyInterpolation(object):
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
-                        ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
+                        raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
 
                     stdout.write('\nEvaluating cutoffs...')
                     
@@ -886,7 +886,7 @@ class ScipyInterpolation(object):
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
-                        ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
+                        raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
 
                     if DEBUG_ADW_INTERPOLATION:
                         stdout.write('\nEvaluating cutoffs...')
@@ -911,7 +911,7 @@ class ScipyInterpolation(object):
                     s = cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, self.longrib, self.latgrib, 
                                                                         TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s)
                 else:
-                    ApplicationException.get_exc(WEIRD_STUFF, "\nCDD mode unknown={}".format(CDDmode))
+                    raise ApplicationException.get_exc(WEIRD_STUFF, "\nCDD mode unknown={}".format(CDDmode))
 
                 # consider only TOP 10 weights instead of all:
                 if weights_mode == "OnlyTOP10":
-- 
2.43.0


From 30000957548426a38bf5659ba41397a999f20ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 042/100] fix: triangulation of southern grids, of targets
 whose rows are not parallels, and at the borders of global maps

---
 .../interpolation/scipy_interpolation_lib.py    | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index d01c30e..ad69cd7 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1396,22 +1396,21 @@ class ScipyInterpolation(object):
             for i in range(gribpoints_scaled.shape[0]):
                 gribpoints_scaled[i,0], error = quad(integrand, 0, np.radians(gribpoints_scaled[i,0]))
 
-            gribpoints_scaled[:,0] = gribpoints_scaled[:,0]*90*10/max(gribpoints_scaled[:,0])
+            lat_scale = 90*10/max(abs(gribpoints_scaled[:,0]))
+            gribpoints_scaled[:,0] = gribpoints_scaled[:,0]*lat_scale
 
         tri = Delaunay(gribpoints_scaled)        
         #tri = Delaunay(gribpoints)
         p = np.stack((self.target_latsOR[:,:].ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
-        target_latsORscaled = self.target_latsOR[:,0].copy()
+        target_latsORscaled = self.target_latsOR.ravel().astype(float)
         # In case of non rotated grib files, the grid has variable number of points according to the latitude, 
         # so adjust the grid spaces for an effective triangulation
         # In case of rotated grid, instead, use the original grid points, that is fine for the spece even if it is rotaded
         if self.source_grid_is_rotated == False:
-            for i in range(target_latsORscaled[:].shape[0]):
-                target_latsORscaled[i], error = quad(integrand, 0, np.radians(target_latsORscaled[i]))
-            target_latsORscaled[:] = target_latsORscaled[:]*90*10/max(quad(integrand, 0, np.radians(max(gribpoints[:,0]))))
-        
-        target_latsORscaled = np.ones((1, self.target_latsOR.shape[1])) * target_latsORscaled.reshape(-1,1)
-        p_scaled = np.stack((target_latsORscaled.ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
+            lats, positions = np.unique(target_latsORscaled, return_inverse=True)
+            target_latsORscaled = np.array([quad(integrand, 0, np.radians(lat))[0]*lat_scale for lat in lats])[positions]
+
+        p_scaled = np.stack((target_latsORscaled,self.target_lonsOR[:,:].ravel()),axis=-1)
 
         result = mask_it(np.empty((p.shape[0],) +
                          np.shape(z[0])), self._mv_target, 1)
@@ -1514,7 +1513,7 @@ class ScipyInterpolation(object):
                         weights[nn] = np.append(np.append(np.transpose(b),1 - b.sum(axis=0)),np.zeros(nnear-3))
                         result[nn] = weights[nn,0]*z[idxs[nn,0]] + weights[nn,1]*z[idxs[nn,1]] + weights[nn,2]*z[idxs[nn,2]]
         if (is_global_map==True):
-            idxs[idxs>len(self.latgrib)]=original_indexes[idxs[idxs>len(self.latgrib)]-len(self.latgrib)]
+            idxs[idxs>=len(self.latgrib)]=original_indexes[idxs[idxs>=len(self.latgrib)]-len(self.latgrib)]
         stdout.write('{}{:>100}'.format(back_char, ' '))
         stdout.write('{}Building coeffs: {}/{} [outs: {}] (100%)\n'.format(back_char, num_cells, num_cells, outs))
         if use_bilinear:
-- 
2.43.0


From cea039ed4a309dba9b6532ad050034b11b8ff2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 043/100] fix: position of rotated targets

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index ad69cd7..9e1e97c 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -677,9 +677,10 @@ class ScipyInterpolation(object):
         if to_regular:
             teta = - radians((90 + self.geodetic_info.get('latitudeOfSouthernPoleInDegrees')))
             fi = - radians(self.geodetic_info.get('longitudeOfSouthernPoleInDegrees'))
-            x = ne.evaluate('(cos(teta) * cos(fi) * ({x})) + (sin(fi)  * ({y})) + (sin(teta) * cos(fi) * ({z}))'.format(x=x_formula, y=y_formula, z=z_formula))
-            y = ne.evaluate('(cos(teta) * sin(fi) * ({x})) + (cos(fi)  * ({y})) - (sin(teta) * sin(fi) * ({z}))'.format(x=x_formula, y=y_formula, z=z_formula))
-            z = ne.evaluate('(-sin(teta) * ({x})) + (cos(teta) * ({z}))'.format(x=x_formula, z=z_formula))
+            r = self.geodetic_info.get('radius')
+            x = ne.evaluate('r * ((cos(teta) * cos(fi) * ({x})) + (sin(fi)  * ({y})) + (sin(teta) * cos(fi) * ({z})))'.format(x=x_formula, y=y_formula, z=z_formula))
+            y = ne.evaluate('r * ((-cos(teta) * sin(fi) * ({x})) + (cos(fi)  * ({y})) - (sin(teta) * sin(fi) * ({z})))'.format(x=x_formula, y=y_formula, z=z_formula))
+            z = ne.evaluate('r * ((-sin(teta) * ({x})) + (cos(teta) * ({z})))'.format(x=x_formula, z=z_formula))
         elif rotate:
             teta = radians((90 + self.geodetic_info.get('latitudeOfSouthernPoleInDegrees')))
             fi = radians(self.geodetic_info.get('longitudeOfSouthernPoleInDegrees'))
-- 
2.43.0


From 365ea855aa8fa045795c008e8de1ae8338ebf80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 044/100] fix: bilinear and triangulation when source and
 target longitudes differ by 360 degrees

---
 .../main/interpolation/scipy_interpolation_lib.py  | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 9e1e97c..68c415d 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1227,7 +1227,7 @@ class ScipyInterpolation(object):
 
                     # in non-global maps, skip all points falling outside the grib min and max values
                     if is_global_map==False and \
-                        (self.lat_in>latgrib_max or self.lat_in<latgrib_min or self.lon_in>longrib_max or self.lon_in<longrib_min):
+                        (self.lat_in>latgrib_max or self.lat_in<latgrib_min or (self.lon_in-longrib_min)%360>longrib_max-longrib_min):
                             quadrilateral_is_ok = True
                             outs += 1
                             weights[nn] = np.array([np.nan, 0., 0., 0.])
@@ -1359,6 +1359,10 @@ class ScipyInterpolation(object):
         normalized_latgrib=self.latgrib.copy()
         normalized_longrib=self.longrib.copy()
         normalized_longrib[normalized_longrib>180]-=360
+        if np.ptp(self.longrib) < np.ptp(normalized_longrib):
+            # area across the 180 meridian
+            normalized_longrib=self.longrib.copy()
+        target_lons=self.target_lonsOR.copy()
         z=self.z.copy()
 
         longrib_max = normalized_longrib.max()
@@ -1382,7 +1386,11 @@ class ScipyInterpolation(object):
             normalized_longrib = padded_longrib
             normalized_latgrib = padded_latgrib
             z=padded_z
+            target_lons[target_lons>180]-=360
         else:
+            # target longitudes as in the source
+            target_lons[target_lons<longrib_min]+=360
+            target_lons[target_lons>longrib_max]-=360
             stdout.write('Finding nearest neighbor to exclude outside triangles\n')
             x_tmp, y_tmp, z_tmp = self.to_3d(self.target_lonsOR[:,:], self.target_latsOR[:,:], to_regular=self.target_grid_is_rotated)
             efas_locations = np.vstack((x_tmp.ravel(), y_tmp.ravel(), z_tmp.ravel())).T
@@ -1402,7 +1410,7 @@ class ScipyInterpolation(object):
 
         tri = Delaunay(gribpoints_scaled)        
         #tri = Delaunay(gribpoints)
-        p = np.stack((self.target_latsOR[:,:].ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
+        p = np.stack((self.target_latsOR[:,:].ravel(),target_lons.ravel()),axis=-1)
         target_latsORscaled = self.target_latsOR.ravel().astype(float)
         # In case of non rotated grib files, the grid has variable number of points according to the latitude, 
         # so adjust the grid spaces for an effective triangulation
@@ -1411,7 +1419,7 @@ class ScipyInterpolation(object):
             lats, positions = np.unique(target_latsORscaled, return_inverse=True)
             target_latsORscaled = np.array([quad(integrand, 0, np.radians(lat))[0]*lat_scale for lat in lats])[positions]
 
-        p_scaled = np.stack((target_latsORscaled,self.target_lonsOR[:,:].ravel()),axis=-1)
+        p_scaled = np.stack((target_latsORscaled,target_lons.ravel()),axis=-1)
 
         result = mask_it(np.empty((p.shape[0],) +
                          np.shape(z[0])), self._mv_target, 1)
-- 
2.43.0


From 356c15b57fab98b9ee92e51a00e7fa3e4831a09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 045/100] fix: target cells without coordinates are missing
 with scipy interpolation modes

---
 src/pyg2p/main/interpolation/__init__.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index d966b5c..b5daa4f 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -177,9 +177,23 @@ class Interpolator(Loggable):
                 result = ma.masked_where(mask, result, copy=False)
         return result
 
+    def _target_locations(self):
+        # target cells can have no coordinates: tables are computed with the ones of their row and column
+        # or, if missing, of any other cell
+        lats, lons = self._target_coords.lats, self._target_coords.lons
+        no_coords = ~np.isfinite(lats) | ~np.isfinite(lons) | (lats == self._target_coords.mv) | (lons == self._target_coords.mv)
+        if no_coords.any() and not no_coords.all():
+            lats, lons = lats.copy(), lons.copy()
+            for i, j in np.argwhere(no_coords):
+                in_row, in_col = np.flatnonzero(~no_coords[i]), np.flatnonzero(~no_coords[:, j])
+                lats[i, j] = lats[i, in_row[0]] if in_row.size else lats[~no_coords][0]
+                lons[i, j] = lons[in_col[0], j] if in_col.size else lons[~no_coords][0]
+        elif no_coords.all():
+            lats, lons = np.zeros_like(lats), np.zeros_like(lons)
+        return lats, lons, no_coords
+
     def interpolate_scipy(self, latgrib, longrib, v, grid_id, grid_details=None):
-        lonefas = self._target_coords.lons
-        latefas = self._target_coords.lats
+        latefas, lonefas, no_coords = self._target_locations()
         if DEBUG_BILINEAR_INTERPOLATION:
             # target_lats=target_lats[1800-(9*20):1800-(-16*20), 3600+(-15*20):3600+(16*20)]
             # target_lons=target_lons[1800-(9*20):1800-(-16*20), 3600+(-15*20):3600+(16*20)]
@@ -277,6 +291,8 @@ class Interpolator(Loggable):
 
         # reshape to target (e.g. efas, glofas...)
         grid_data = result.reshape(lonefas.shape)
+        if no_coords.any():
+            grid_data = ma.masked_where(no_coords, grid_data, copy=False)
         return grid_data
 
     # #### GRIB API INTERPOLATION ####################
-- 
2.43.0


From 5f96f688646269ca8d519e7606414f68dc4882ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 046/100] fix: bilinear interpolation does not depend on the
 size of the target, and cells with no source points around are missing

---
 .../interpolation/scipy_interpolation_lib.py  | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 68c415d..0fe57d1 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1084,7 +1084,7 @@ class ScipyInterpolation(object):
     def replaceIndex(self, indexes_to_replace, indexes, nn, additional_points):
         additional_points += len(indexes_to_replace)
         # replace the unwanted index with next one:
-        _, replacement_indexes = self.tree.query(self.target_location, k=self.nnear+additional_points, workers=self.njobs) 
+        _, replacement_indexes = self.tree.query(self.target_location, k=min(self.nnear+additional_points, self.tree.n), workers=self.njobs) 
         # print("replacement_indexes: {}".format(replacement_indexes))
 
         # delete all the current indexes from the replaceent_indexes 
@@ -1093,8 +1093,8 @@ class ScipyInterpolation(object):
         for i in indexes[nn, 0:4]:
             replacement_indexes = np.delete(replacement_indexes, np.where(replacement_indexes == i))
         
-        # get rid of the wrong point and add the farthest among the new selected points
-        for n,i in enumerate(indexes_to_replace):
+        # get rid of the wrong point and add the farthest among the new selected points (as many as the source has)
+        for n,i in enumerate(indexes_to_replace[:len(replacement_indexes)]):
             indexes[nn, indexes[nn, 0:4] == i] = replacement_indexes[-(n+1)]
         if len(np.unique(indexes[nn, 0:4]))!=4:
             print("Less then 4 distinct point!")
@@ -1152,8 +1152,8 @@ class ScipyInterpolation(object):
         outs = 0            # number of points falling outside the min_upper_bound distance
         not_in_quad = 0     # number of points falling outside quadrilaterals after max_retries
 
-        # max number of retry equals to a full lenght of lon coordinates
-        max_retries = self.target_lonsOR.shape[0]        
+        # max number of retries to find the points around a cell. It must not depend on the size of the target
+        max_retries = 20 if self.source_grid_is_rotated else 1000
         max_used_additional_points = 0
         nn_max_used_additional_points = -1
 
@@ -1199,13 +1199,14 @@ class ScipyInterpolation(object):
                 self.target_location = efas_locations[nn]
                 additional_points = 0
                 quadrilateral_is_ok = False
+                retries = 0
                 # additional checks only if source_grid_is_rotated is False
                 if self.source_grid_is_rotated == False:
                     additional_checks_completed = False
                 else:
                     additional_checks_completed = True
-                    max_retries = 20
-                while quadrilateral_is_ok == False and additional_points<max_retries:  
+                while quadrilateral_is_ok == False and retries<max_retries:  
+                    retries += 1
                     # find the 4 corners
                     i1, i2, i3, i4 = indexes[nn, 0:4]
                     idxs[nn, :] = indexes[nn, 0:4]
@@ -1306,6 +1307,14 @@ class ScipyInterpolation(object):
                             else:
                                 quadrilateral_is_ok = True
 
+                if quadrilateral_is_ok == False:
+                    # no source points around the cell
+                    not_in_quad += 1
+                    outs += 1
+                    weights[nn] = np.array([np.nan, 0., 0., 0.])
+                    result[nn] = empty_array
+                    skip_current_point = True
+
                 if skip_current_point == False:
                     if max_used_additional_points<additional_points:
                         max_used_additional_points = additional_points
@@ -1316,10 +1325,6 @@ class ScipyInterpolation(object):
                         assert(len(np.unique(indexes[nn, 0:4]))==4) 
                     except AssertionError as e:
                         ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nLess then 4 distinct point! nn={} lat={} lon={}".format(nn, self.lat_in, self.lon_in))
-                    
-                    if quadrilateral_is_ok==False:
-                        #print("\nError: quadrilateral_is_ok is False, failed to find a correct quadrilateral: nn is {}, lat={} lon={}".format(nn, self.lat_in, self.lon_in))
-                        not_in_quad+=1
 
                     [alpha, beta] = np.clip(opt.fsolve(self._functionAlphaBeta, (0.5, 0.5)), 0, 1)
                     weight1[nn] = (1-alpha)*(1-beta)
-- 
2.43.0


From 4ccdf96be854b26716a9029b65d9f060d8b99121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 047/100] fix: bilinear_delaunay fails when the triangles of
 the target have no neighbours with a higher index

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 0fe57d1..7dcd3d5 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1454,7 +1454,7 @@ class ScipyInterpolation(object):
             # add the fourth point to each idxs[nn] from the near triangle on the longest side
             idxs = np.column_stack((idxs,empty(idxs.shape[0],-1,dtype=idxs.dtype)))
             idxs_tri_neighbors = tri.neighbors[idxs_tri]
-            idxs_tri_neighbors_to_use = empty(idxs_tri_neighbors.max()+1,-1,dtype=idxs_tri.dtype)
+            idxs_tri_neighbors_to_use = empty(len(tri.simplices),-1,dtype=idxs_tri.dtype)
 
         for nn in range(len(idxs_tri)):
             if nn % progress_step == 0:
-- 
2.43.0


From 31868ebc4cfbe0ffd46d61034bb520d70b37b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 048/100] fix: average with half weights of averaged parameters
 uses the field at the beginning of the first window

---
 src/pyg2p/main/readers/grib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 03320c0..6353445 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -265,9 +265,11 @@ class GRIBReader(Loggable):
         """
         Steps to read to have (or to create) fields at start and end, which can be between two messages
         """
-        before = [start_step for start_step, _ in self._available_steps if start_step <= start]
+        # fields are identified by their end step
+        first = max((end_step for _, end_step in self._available_steps if end_step <= start), default=start)
+        before = [start_step for start_step, end_step in self._available_steps if end_step >= first]
         after = [end_step for _, end_step in self._available_steps if end_step >= end]
-        return max(before) if before else start, min(after) if after else end
+        return min(before + [start]), min(after) if after else end
 
     def get_gids_for_grib_intertable(self):
         # returns gids of messages to use to create interpolation tables
-- 
2.43.0


From c6bbd0b945a687157b607127cf52046f9c37cfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 049/100] fix: netCDF maps with a single row or column

---
 src/pyg2p/main/readers/netcdf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/readers/netcdf.py b/src/pyg2p/main/readers/netcdf.py
index e27b95c..cb0cf2a 100644
--- a/src/pyg2p/main/readers/netcdf.py
+++ b/src/pyg2p/main/readers/netcdf.py
@@ -26,8 +26,8 @@ class NetCDFReader(Loggable):
 
         self._origX = self._dataset.variables[self.label_lon][:].min()
         self._origY = self._dataset.variables[self.label_lat][:].min()
-        self._pxlW = self._dataset.variables[self.label_lon][1]-self._dataset.variables[self.label_lon][0]
-        self._pxlH = self._dataset.variables[self.label_lat][1]-self._dataset.variables[self.label_lat][0]       
+        self._pxlW = self._cell_size(self.label_lon)
+        self._pxlH = self._cell_size(self.label_lat)
         self.lat_min = self._dataset.variables[self.label_lat][:].min()
         self.lon_min = self._dataset.variables[self.label_lon][:].min()
         self.lat_max = self._dataset.variables[self.label_lat][:].max()
@@ -41,6 +41,10 @@ class NetCDFReader(Loggable):
                 dtype = self._dataset.variables[self.var_name].dtype
                 self.mv = default_fillvals[dtype.str[1:]] if np.issubdtype(dtype, np.integer) else np.nan
 
+    def _cell_size(self, label):
+        coordinates = self._dataset.variables[label]
+        return coordinates[1] - coordinates[0] if len(coordinates) > 1 else 0
+
     def find_main_var(self, path):
         variable_names = [k for k in self._dataset.variables if len(self._dataset.variables[k].dimensions) >= 2]
         if len(variable_names) > 1:
-- 
2.43.0


From 74f10e970a5ccea91e4301926be32cebc940bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 050/100] fix: netCDF output with a clone map whose missing
 value is NaN

---
 src/pyg2p/main/writers/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index fc5dc96..b0a2d85 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -31,7 +31,7 @@ class NetCDFWriter(Writer):
             self.area = area.values
         
         # add mask from clone map
-        self.area = ma.masked_values(self.area, area.mv)
+        self.area = ma.masked_invalid(ma.masked_values(self.area, area.mv))
         self._mask = ma.getmaskarray(self.area)
         
         if lats_map.endswith('.nc'):
-- 
2.43.0


From ec07efd5133883f43347f5fd2152f3886a7a6689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:09 +0000
Subject: [PATCH 051/100] fix: valid values equal to the missing code are
 converted and corrected as any other

---
 src/pyg2p/main/manipulation/conversion.py | 7 +++++--
 src/pyg2p/main/manipulation/correction.py | 5 ++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/manipulation/conversion.py b/src/pyg2p/main/manipulation/conversion.py
index d86ffc4..c4531d2 100644
--- a/src/pyg2p/main/manipulation/conversion.py
+++ b/src/pyg2p/main/manipulation/conversion.py
@@ -18,7 +18,11 @@ class Converter(Loggable):
             if self._function_str == 'x=x':
                 self._identity = True
             else:
-                self._numexpr_eval = 'where(x!=mv, {}, mv)'.format(self._function_str.replace('x=', ''))
+                func_str = self._function_str
+                if func_str.startswith('x=') and not func_str.startswith('x=='):
+                    func_str = func_str[2:]
+                # missing values are masked: any other value is converted, even if equal to the missing code
+                self._numexpr_eval = 'where(x==x, {}, x)'.format(func_str)
 
     def set_unit_to_convert(self, unit):
         self._initial_unit = unit
@@ -32,7 +36,6 @@ class Converter(Loggable):
 
     def convert(self, x):
         if not self._identity:
-            mv = self._mv
             res = ne.evaluate(self._numexpr_eval)
             # preserve maskes as numexpr just ignores them
             if isinstance(x, ma.core.MaskedArray):
diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 73b055d..37f93c0 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -39,7 +39,7 @@ class Corrector(Loggable):
         self._formula = ctx.get('correction.formula')
         self._gem_formula = ctx.get('correction.gemFormula')
         self._numexpr_eval = f'where((dem!=dem_mv) & (p==p) & (gem!=mv) & (gem==gem), {self._formula}, mv)'
-        self._numexpr_eval_gem = f'where(z != mv, {self._gem_formula}, mv)'
+        self._numexpr_eval_gem = f'where(z == z, {self._gem_formula}, z)'
 
         log_message = f"""
         Correction
@@ -87,8 +87,7 @@ class Corrector(Loggable):
         interpolator.aux_for_intertable_generation(aux_g, aux_v, aux_g2, aux_v2)
 
         # get temp from geopotential. will be gem in the formula
-        # variables below are used by numexpr evaluation namespace: DO NOT DELETE!
-        mv = missing
+        # variable below is used by numexpr evaluation namespace: DO NOT DELETE!
         z = values
         values = ne.evaluate(self._numexpr_eval_gem)
         if isinstance(z, ma.core.MaskedArray):
-- 
2.43.0


From d98b34c19f08338e34c7f94c40e291aa7560b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 052/100] fix: CDD mode NewEtAl cannot be compiled

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 7dcd3d5..b14e9b3 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -451,7 +451,7 @@ def cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map
     return s
 
 
-@njit(parallel=True, fastmath=False, cache=True)
+# not compiled: numba does not support the look-up of CDD values
 def cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, longrib, latgrib, TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s):
     # New et al. 2000 
     # no search radius applied
-- 
2.43.0


From b879e1a8875723165788160f84277cd434ffc999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 053/100] fix: angles and CDD look-up when longitudes of
 stations and target differ by 360 degrees

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index b14e9b3..a2edef4 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -464,8 +464,11 @@ def cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexe
         
     #   [e^(−x/CDD)]^m       when 0  < d <= CDD
 
+    # longitudes of stations and map can differ by 360 degrees
+    lon_centre = LonOrigin - TargetLonRes * CDD_map.shape[1] / 2
+    lon_stations = longrib[indexes] - 360 * np.floor((longrib[indexes] - lon_centre) / 360 + 0.5)
     CDD_values = CDD_map[np.clip(((LatOrigin-latgrib[indexes])/TargetLatRes).astype(int),0,CDD_map.shape[0]-1), \
-                                        np.clip(((LonOrigin-longrib[indexes])/TargetLonRes).astype(int),0,CDD_map.shape[1]-1)]
+                                        np.clip(((LonOrigin-lon_stations)/TargetLonRes).astype(int),0,CDD_map.shape[1]-1)]
     dist_leq_CDD = distances <= CDD_values
     s.ravel()[dist_leq_CDD.ravel()] = np.exp(-distances*m_const/CDD_values).ravel()[dist_leq_CDD.ravel()]
         
@@ -485,6 +488,8 @@ def adw_and_cdd_compute_weights_directional_in_broadcasting(
     # Compute xi_diff and yi_diff for all elements
     xi_diff = lat_inALL.reshape(-1,1) - xi.reshape(-1,k)
     yi_diff = lon_inALL.reshape(-1,1) - yi.reshape(-1,k)
+    # longitudes can differ by 360 degrees
+    yi_diff = yi_diff - 360 * np.floor(yi_diff / 360 + 0.5)
     # Compute Di for all elements
     Di = np.sqrt(xi_diff**2 + yi_diff**2)
     # Compute cos_theta for all elements
@@ -948,6 +953,8 @@ class ScipyInterpolation(object):
                 for i in range(nnear):
                     xj_diff = self.lat_inALL[:, np.newaxis] - self.latgrib[indexes]
                     yj_diff = self.lon_inALL[:, np.newaxis] - self.longrib[indexes]
+                    # longitudes can differ by 360 degrees
+                    yj_diff = yj_diff - 360 * np.floor(yj_diff / 360 + 0.5)
                     
                     Dj = np.sqrt(xj_diff**2 + yj_diff**2)
                     # we could use "distances", but we are actually evaluating the cos funcion on lat and lon values, that 
-- 
2.43.0


From 0089bae18cd2364ce2e22416cebff239e1717c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 054/100] fix: CDD option OnlyTOP10 discards the stations with
 the lowest weights

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index a2edef4..e56436d 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -926,7 +926,7 @@ class ScipyInterpolation(object):
                     #   rows = np.arange(s.shape[0])[:, None]
                     #   s[rows, idx[:, :-10]] = 0
                     # all in one row:
-                    s[np.arange(s.shape[0])[:, None], np.argpartition(s, 10, axis=1)[:, :-10]] = 0
+                    s[np.arange(s.shape[0])[:, None], np.argpartition(s, s.shape[1] - 10, axis=1)[:, :-10]] = 0
 
 
                 
-- 
2.43.0


From 0ae8d0675f8a57498e628dc3efa7e70f4ab6eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:53 +0000
Subject: [PATCH 055/100] fix: parallel creation of tables of grib
 interpolation modes

---
 .../main/interpolation/grib_interpolation_lib.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 7324468..04afdd3 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -11,7 +11,7 @@ from sys import stdout
 import eccodes
 import numexpr as ne
 import numpy as np
-from dask import bag
+from dask import bag, config as dask_config
 from dask.diagnostics import ProgressBar
 
 from ...util.generics import progress_step_and_backchar
@@ -167,9 +167,7 @@ def grib_nearest_parallel(gid, target_lats, target_lons, mv):
     nchunks = target_lats.shape[0]
     apply_to_chunk_part = partial(apply_nearest_to_chunk, gid=gid, mv=mv)
     result = init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons)
-    progress = ProgressBar(dt=10)
-    with progress:
-        result = result.compute()
+    result = compute_parallel(result)
     idxs, xs, ys = concatenate_nearest_result(nchunks, result)
     return xs, ys, idxs
 
@@ -213,9 +211,7 @@ def grib_invdist_parallel(gid, target_lats, target_lons, mv):
     nchunks = target_lats.shape[0]
     result = init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons)
 
-    progress = ProgressBar(dt=10)
-    with progress:
-        result = result.compute()
+    result = compute_parallel(result)
     idxs1, idxs2, idxs3, idxs4, xs, ys, invs1, invs2, invs3, invs4 = concatenate_invdist_result(nchunks, result)
 
     sums = ne.evaluate('invs1 + invs2 + invs3 + invs4')
@@ -268,3 +264,9 @@ def init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons):
     nearest_bag = bag.from_sequence(chunks, npartitions=npartitions)
     result = nearest_bag.map(apply_to_chunk_part)
     return result
+
+
+def compute_parallel(result):
+    # gid is only valid in this process and in the ones forked from it
+    with dask_config.set({'multiprocessing.context': 'fork'}), ProgressBar(dt=10):
+        return result.compute()
-- 
2.43.0


From 6802a2ee601d4d897b48bc2fdef9329ed9a7da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:25 +0000
Subject: [PATCH 056/100] fix: bilinear cells at longitudes beyond 180 were
 missing

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index e56436d..9eda3d3 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1147,7 +1147,8 @@ class ScipyInterpolation(object):
         empty_array = empty(z[0].shape, self._mv_target)
 
         self.lat_inALL = self.target_latsOR.ravel()
-        self.lon_inALL = self.target_lonsOR.ravel()
+        self.lon_inALL = self.target_lonsOR.ravel().copy()
+        self.lon_inALL[self.lon_inALL > 180] -= 360
 
         num_cells = result.size
         back_char, progress_step = progress_step_and_backchar(num_cells)
-- 
2.43.0


From a61f8a3fe2b0242a1781385fdeaff815a075e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:25 +0000
Subject: [PATCH 057/100] fix: bilinear on areas across the zero meridian
 extrapolated the cells outside

---
 .../main/interpolation/scipy_interpolation_lib.py     | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 9eda3d3..25d14ec 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1167,12 +1167,17 @@ class ScipyInterpolation(object):
 
         latgrib_max = self.latgrib.max()
         latgrib_min = self.latgrib.min()
-        longrib_max = self.longrib.max()
-        longrib_min = self.longrib.min()
+        # area across the 0 or the 180 meridian: use the narrowest range of longitudes
+        longrib_180 = np.where(self.longrib > 180, self.longrib - 360, self.longrib)
+        longrib_360 = np.where(self.longrib < 0, self.longrib + 360, self.longrib)
+        normalized_longrib = min(longrib_180, longrib_360, key=np.ptp)
+        longrib_max = normalized_longrib.max()
+        longrib_min = normalized_longrib.min()
         # evaluate an approx_grib_resolution by using 10 times the first longidure values 
         # to check if the whole globe is covered
-        approx_grib_resolution = abs(self.longrib[0]-self.longrib[1])*1.5
+        approx_grib_resolution = abs(normalized_longrib[0]-normalized_longrib[1])*1.5
         is_global_map = (360-(longrib_max-longrib_min))<approx_grib_resolution
+        eps = 1e-9  # cells on the border can be out of it because of rounding
         # for nn in range(25898400,len(indexes)):
         for nn in range(len(indexes)):
             skip_current_point = False
-- 
2.43.0


From bd56bdd2208d9b1969a7990e2af47f30b4e752bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:25 +0000
Subject: [PATCH 058/100] fix: bilinear_delaunay with quadrilaterals which are
 not convex

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 25d14ec..f3d60ff 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1514,7 +1514,8 @@ class ScipyInterpolation(object):
                         if idxs_tri_neighbors_to_use[idxs_tri[nn]]>-1:
                             idxs[nn]=np.unique(np.append(idxs[nn,0:3],tri.simplices[idxs_tri_neighbors_to_use[idxs_tri[nn]]]))
                     
-                    if len(idxs[nn][idxs[nn]>=0])==4:
+                    has_quadrilateral = len(idxs[nn][idxs[nn]>=0])==4
+                    if has_quadrilateral:
                         self.lat_in, self.lon_in = p[nn]
                         lats = normalized_latgrib[idxs[nn]]
                         lons = normalized_longrib[idxs[nn]]
@@ -1524,6 +1525,12 @@ class ScipyInterpolation(object):
                             [lats[2], lons[2], z[idxs[nn,2]], idxs[nn,2]],
                             [lats[3], lons[3], z[idxs[nn,3]], idxs[nn,3]]])
                         self.p1, self.p2, self.p3, self.p4 = get_clockwise_points(corners_points)
+                        if not isConvexQuadrilateral(self.p1[0:2], self.p2[0:2], self.p3[0:2], self.p4[0:2]):
+                            # bilinear coordinates are not defined everywhere: use the triangle
+                            has_quadrilateral = False
+                            idxs[nn] = np.append(tri.simplices[idxs_tri[nn]], -1)
+
+                    if has_quadrilateral:
                         [alpha, beta] = np.clip(opt.fsolve(self._functionAlphaBeta, (0.5, 0.5)), 0, 1)
                         weight1 = (1-alpha)*(1-beta)
                         weight2 = alpha*(1-beta)
-- 
2.43.0


From 44e95509837bdfd43820ab5534d055cc27204a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:25 +0000
Subject: [PATCH 059/100] fix: bilinear cells on the first source row and on
 sides of source cells

---
 .../main/interpolation/scipy_interpolation_lib.py   | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index f3d60ff..19f4c8e 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -297,8 +297,10 @@ def isPointInTriangle(pt, v1, v2, v3):
     d2 = sign(pt, v2, v3)
     d3 = sign(pt, v3, v1)
 
-    has_neg = (d1 < 0) or (d2 < 0) or (d3 < 0)
-    has_pos = (d1 > 0) or (d2 > 0) or (d3 > 0)
+    # points on a side can be out of it because of rounding
+    eps = 1e-12
+    has_neg = (d1 < -eps) or (d2 < -eps) or (d3 < -eps)
+    has_pos = (d1 > eps) or (d2 > eps) or (d3 > eps)
 
     return not(has_neg and has_pos)
 
@@ -1189,6 +1191,11 @@ class ScipyInterpolation(object):
             ix = indexes[nn]
             self.lat_in = self.lat_inALL[nn]
             self.lon_in = self.lon_inALL[nn]
+            if abs(self.lat_in-latgrib_max) < eps:
+                # on the first row of source points: its points have to be found above, the ones of the second row below
+                self.lat_in = np.nextafter(latgrib_max, latgrib_min)
+            elif abs(self.lat_in-latgrib_min) < eps:
+                self.lat_in = latgrib_min
 
             # if DEBUG_BILINEAR_INTERPOLATION:
             #     # # if nn==14753:
@@ -1241,7 +1248,7 @@ class ScipyInterpolation(object):
 
                     # in non-global maps, skip all points falling outside the grib min and max values
                     if is_global_map==False and \
-                        (self.lat_in>latgrib_max or self.lat_in<latgrib_min or (self.lon_in-longrib_min)%360>longrib_max-longrib_min):
+                        (self.lat_in>latgrib_max or self.lat_in<latgrib_min or (self.lon_in-longrib_min+eps)%360>longrib_max-longrib_min+2*eps):
                             quadrilateral_is_ok = True
                             outs += 1
                             weights[nn] = np.array([np.nan, 0., 0., 0.])
-- 
2.43.0


From cef1760d2e56f3e0b621eaae1d13ca74ba87904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 060/100] fix: triangulation cells on the east border missing
 because of rounding

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 19f4c8e..88c9c77 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1413,9 +1413,9 @@ class ScipyInterpolation(object):
             z=padded_z
             target_lons[target_lons>180]-=360
         else:
-            # target longitudes as in the source
-            target_lons[target_lons<longrib_min]+=360
-            target_lons[target_lons>longrib_max]-=360
+            # target longitudes as in the source (cells on its border can be out of it because of rounding)
+            target_lons[target_lons<longrib_min-1e-9]+=360
+            target_lons[target_lons>longrib_max+1e-9]-=360
             stdout.write('Finding nearest neighbor to exclude outside triangles\n')
             x_tmp, y_tmp, z_tmp = self.to_3d(self.target_lonsOR[:,:], self.target_latsOR[:,:], to_regular=self.target_grid_is_rotated)
             efas_locations = np.vstack((x_tmp.ravel(), y_tmp.ravel(), z_tmp.ravel())).T
@@ -1456,7 +1456,7 @@ class ScipyInterpolation(object):
         # plt.show()
 
         # store in idxs_tri the nr of triangle of the grib in which each p is in, from p[0] to p[max]
-        idxs_tri=tri.find_simplex(p_scaled)  
+        idxs_tri=tri.find_simplex(p_scaled, tol=1e-9)  # cells on the border can be out of it because of rounding
         #idxs contains the indexes of the grib vertex of the triagles that contain p
         # e.g. idxs[nn] contains the indexes of the grib vertex containing p[nn]
         idxs = tri.simplices[idxs_tri]
-- 
2.43.0


From 1c993e89160a5a5e9f03d7feee2874dd26cc62dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 061/100] fix: bilinear on quadrilaterals which are not convex
 or degenerate

---
 .../interpolation/scipy_interpolation_lib.py  | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 88c9c77..01231c5 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -302,7 +302,10 @@ def isPointInTriangle(pt, v1, v2, v3):
     has_neg = (d1 < -eps) or (d2 < -eps) or (d3 < -eps)
     has_pos = (d1 > eps) or (d2 > eps) or (d3 > eps)
 
-    return not(has_neg and has_pos)
+    # points on the line of a degenerate triangle can be beyond its vertexes
+    in_range = all(min(v1[i], v2[i], v3[i]) - eps <= pt[i] <= max(v1[i], v2[i], v3[i]) + eps for i in (0, 1))
+
+    return in_range and not(has_neg and has_pos)
 
 # if a quadrilateral is convex, check if point pt is inside the quatrilater
 # n.b: is the quadrilateral is not convex, just switch the vertex in this way:
@@ -1351,6 +1354,9 @@ class ScipyInterpolation(object):
                     weight2[nn] = alpha*(1-beta)
                     weight3[nn] = alpha*beta
                     weight4[nn] = (1-alpha)*beta
+                    if np.max(np.abs(self._functionAlphaBeta((alpha, beta)))) > 1e-6:
+                        # no bilinear coordinates, as the quadrilateral is not convex
+                        weight1[nn], weight2[nn], weight3[nn], weight4[nn] = self._triangle_weights()
 
                     weights[nn, 0:4] = np.array([weight1[nn], weight2[nn], weight3[nn], weight4[nn]])
                     idxs[nn, 0:4] = np.array([self.p1[3], self.p2[3], self.p3[3], self.p4[3]])
@@ -1372,6 +1378,22 @@ class ScipyInterpolation(object):
             1-beta)*self.p2[1]+alpha*beta*self.p3[1]+(1-alpha)*beta*self.p4[1]-self.lon_in
         return [first_eq, second_eq]
 
+    def _triangle_weights(self):
+        # barycentric weights in the triangle, made of 3 of the corners, which is around the cell
+        best = np.array([1., 0., 0., 0.])
+        best_min = -np.inf
+        for corners in ([0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]):
+            points = np.array([self.p1, self.p2, self.p3, self.p4])[corners]
+            matrix = np.array([points[:, 0], points[:, 1], np.ones(3)], dtype=float)
+            if abs(np.linalg.det(matrix)) < 1e-12:
+                continue
+            barycentric = np.linalg.solve(matrix, [self.lat_in, self.lon_in, 1.])
+            if barycentric.min() > best_min:
+                best_min = barycentric.min()
+                best = np.zeros(4)
+                best[corners] = np.clip(barycentric, 0, 1)
+        return best / best.sum()
+
     def _build_weights_triangulation(self, use_bilinear = False):
         # The interpolant is constructed by triangulating the input data with Qhull, 
         # and on each triangle performing linear barycentric interpolation
-- 
2.43.0


From d77edec589d595aae72fa9d1e0f86fd518d931e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 062/100] fix: netCDF value formats i8, u1, u2, u4 and u8

---
 src/pyg2p/main/writers/__init__.py | 2 +-
 src/pyg2p/main/writers/netcdf.py   | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 471c71e..d03148b 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -82,7 +82,7 @@ class OutputWriter(Loggable):
                         value_format=self.ctx.get('outMaps.valueFormat'),
                         offset=self.ctx.get('outMaps.offset'),
                         scale_factor=self.ctx.get('outMaps.scaleFactor'))
-        self.writer.init_dataset(out_filename)
+        self.writer.init_dataset(out_filename, self.ctx.get('outMaps.valueFormat'))
 
         self.writer.write(out_values, time_values, **var_args)
 
diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index b0a2d85..bd52bb5 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -49,8 +49,10 @@ class NetCDFWriter(Writer):
             self.lats[self.lats == coordinates_mv] = np.nan
             self.lons[self.lons == coordinates_mv] = np.nan
 
-    def init_dataset(self, out_filename):
-        self.nf = Dataset(out_filename, 'w', format='NETCDF4_CLASSIC')
+    def init_dataset(self, out_filename, value_format=None):
+        # the classic data model does not have unsigned and 64 bits integers
+        data_model = 'NETCDF4' if value_format in ('i8', 'u1', 'u2', 'u4', 'u8') else 'NETCDF4_CLASSIC'
+        self.nf = Dataset(out_filename, 'w', format=data_model)
         self.filepath = out_filename
         time_created = time.ctime(time.time())
         self.nf.history = f'Created {time_created}'
-- 
2.43.0


From e0cecbcff5423c79e18a8841af2aa76a3a973c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 063/100] fix: missing values of netCDF maps in 64 bits
 integers

---
 src/pyg2p/main/writers/netcdf.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index bd52bb5..12df1bc 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -145,12 +145,16 @@ class NetCDFWriter(Writer):
             values_nc.valid_min = (np.float64(varargs.get('valid_min', None)) - np.float64(varargs.get('offset', '0.0'))) / np.float64(varargs.get('scale_factor', '1.0'))
         if varargs.get('valid_max', None) is not None:            
             values_nc.valid_max = (np.float64(varargs.get('valid_max', None)) - np.float64(varargs.get('offset', '0.0'))) / np.float64(varargs.get('scale_factor', '1.0'))
-        values_nc.set_auto_maskandscale(True)         
-        
-        # adjust missing values when scale_factor and offset are not 1.0 - 0.0 
-        mv_scaled = np.float64(missing_value_to_use) * np.float64(varargs.get('scale_factor', '1.0')) + np.float64(varargs.get('offset', '0.0'))
-        values = self._mask_values(values, mv_scaled)
-        values[np.isnan(values)] = mv_scaled
+        # values are packed here: 64 bits fill values can't be scaled and offset without losing them
+        values_nc.set_auto_maskandscale(False)
+        values = self._mask_values(values, np.nan)
+        missing = np.isnan(values)
+        values[missing] = 0.0
+        values = (values - values_nc.add_offset) / values_nc.scale_factor
+        if not value_format.startswith('f'):
+            values = np.rint(values)
+        values = values.astype(value_format)
+        values[missing] = missing_value_to_use
 
         for t in range(len(time_values)):
             if DEBUG_BILINEAR_INTERPOLATION:
-- 
2.43.0


From 9814af2aac607c40567d56c0e73681357d039985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 064/100] fix: netCDF values out of the valid range when the
 limits are not exact in the value format

---
 src/pyg2p/main/writers/netcdf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 12df1bc..6b1377e 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -149,6 +149,11 @@ class NetCDFWriter(Writer):
         values_nc.set_auto_maskandscale(False)
         values = self._mask_values(values, np.nan)
         missing = np.isnan(values)
+        # values out of the valid range are set to nodata
+        if varargs.get('valid_min', None) is not None:
+            missing |= values < np.float64(varargs.get('valid_min'))
+        if varargs.get('valid_max', None) is not None:
+            missing |= values > np.float64(varargs.get('valid_max'))
         values[missing] = 0.0
         values = (values - values_nc.add_offset) / values_nc.scale_factor
         if not value_format.startswith('f'):
-- 
2.43.0


From 51659ad5d2bbc89c9786e109a341427b0e47ee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 065/100] fix: new intertables took the file name registered
 for another table which is in a different folder

---
 src/pyg2p/main/interpolation/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index b5daa4f..0f9b75e 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -75,7 +75,9 @@ class Interpolator(Loggable):
             filename = self.format_intertablename(prognum='')
             tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
             i = 1
-            while pyg2p.util.files.exists(tbl_fullpath):
+            # neither existing files nor names of other tables, which can be in another folder
+            used = {item.get('filename') for item in self.intertables_config.vars.values() if isinstance(item, dict)}
+            while pyg2p.util.files.exists(tbl_fullpath) or not used.isdisjoint((filename, filename[:-len('.gz')])):
                 filename = self.format_intertablename(prognum='_{}'.format(i))
                 tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
                 i += 1
-- 
2.43.0


From 5ad37ed49c34197b8d377cd39063ccefaeeddc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 066/100] fix: intertables dir given with -N was not the one
 checked for existence and permissions

---
 src/pyg2p/main/config.py                 | 13 +++++++------
 src/pyg2p/main/interpolation/__init__.py |  8 ++++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 65613ab..2b70fed 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -145,14 +145,15 @@ class BaseConfiguration(pyg2p.Loggable):
         with open(self.config_file, 'w') as f:
             f.write(json.dumps(self.user_vars, sort_keys=True, indent=4))
 
-    def check_write(self):
-        if not self.data_path:
+    def check_write(self, data_path=None):
+        data_path = data_path or self.data_path
+        if not data_path:
             # user hasn't defined his own data folder for geopotentials.
             raise ApplicationException.get_exc(NO_VAR_DEFINED, self.data_path_var)
-        if not file_util.exists(self.data_path, is_folder=True):
-            raise ApplicationException.get_exc(NOT_EXISTING_PATH, self.data_path)
-        if not file_util.can_write(self.data_path):
-            raise ApplicationException.get_exc(NO_WRITE_PERMISSIONS, self.data_path)
+        if not file_util.exists(data_path, is_folder=True):
+            raise ApplicationException.get_exc(NOT_EXISTING_PATH, data_path)
+        if not file_util.can_write(data_path):
+            raise ApplicationException.get_exc(NO_WRITE_PERMISSIONS, data_path)
 
 
 class GlobalConf(BaseConfiguration):
diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 0f9b75e..5abc007 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -71,7 +71,7 @@ class Interpolator(Loggable):
             # return a new intertable filename to create
             if not self.create_if_missing:
                 raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=f'Using {intertable_id}')
-            self.intertables_config.check_write()
+            self.intertables_config.check_write(self._intertable_dirs.get('user'))
             filename = self.format_intertablename(prognum='')
             tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
             i = 1
@@ -97,7 +97,7 @@ class Interpolator(Loggable):
                 # as an existing configuration was already found but file is missing for some reasons
                 if not self.create_if_missing:
                     raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=f'Tried to create {filename}')
-                self.intertables_config.check_write()
+                self.intertables_config.check_write(self._intertable_dirs.get('user'))
                 tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
                 tbl_fullpath = tbl_fullpath if tbl_fullpath.endswith('.gz') else tbl_fullpath + '.gz'
                 self._logger.warning(f'An entry in configuration was found for {filename} but intertable does not exist.')
@@ -256,7 +256,7 @@ class Interpolator(Loggable):
                 result = self._interpolate_scipy_append_mv(v, weights, indexes, nnear)
 
         elif self.create_if_missing:
-            self.intertables_config.check_write()
+            self.intertables_config.check_write(self._intertable_dirs.get('user'))
             if latgrib is None:
                 self._log('Trying to interpolate without grib lat/lons. Probably a malformed grib!', 'ERROR')
                 raise ApplicationException.get_exc(5000)
@@ -324,7 +324,7 @@ class Interpolator(Loggable):
         elif self.create_if_missing:
             if gid == -1:
                 raise ApplicationException.get_exc(6000, details='GRIB message reference was not found.')
-            self.intertables_config.check_write()
+            self.intertables_config.check_write(self._intertable_dirs.get('user'))
             self._log('\nInterpolating table not found\n Id: {}\nWill create file: {}'.format(intertable_id, intertable_name), 'WARN')
             xs, ys, idxs = getattr(grib_interpolation_lib, 'grib_nearest{}'.format('' if not self.parallel else '_parallel'))(gid, self._target_coords.lats, self._target_coords.lons, self._target_coords.mv)
             intertable = np.asarray([xs, ys, idxs])
-- 
2.43.0


From 24537d5a1ddeaca17bea97238fbbb8a01ecf1a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 067/100] fix: changes of the global configuration were ignored
 by later runs in the same process

---
 src/pyg2p/main/config.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 2b70fed..c7872e3 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -88,7 +88,6 @@ class BaseConfiguration(pyg2p.Loggable):
     description = ''
     init_dict = {}
     only_global_conf = False
-    instance = None
     GLOBAL_CONFIG_DIR = 'configuration/'  # data dir in package to read as resource stream
 
     def __init__(self, user_configuration):
@@ -164,10 +163,8 @@ class GlobalConf(BaseConfiguration):
 
     @classmethod
     def get_instance(cls, user_configuration):
-        if cls.instance:
-            return cls.instance
-        cls.instance = GlobalConf(user_configuration)
-        return cls.instance
+        # not kept: it can change between two runs in the same process
+        return GlobalConf(user_configuration)
 
     @property
     def geopotential_path(self):
-- 
2.43.0


From beb3bfa2ce33629ba479c48581203334bcdf0549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 068/100] fix: values were corrected with the geopotential of
 the input file taken as if on their grid

With two resolutions in input, the geopotential can be available for one of them only.
---
 src/pyg2p/main/manipulation/correction.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 37f93c0..4ba845c 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -81,10 +81,17 @@ class Corrector(Loggable):
         kwargs = {'shortName': GeopotentialsConfiguration.short_names}
         geopotential_gribs = reader.select_messages(**kwargs)
         missing = geopotential_gribs.missing_value
-        values = geopotential_gribs.first_resolution_values()[geopotential_gribs.first_step_range]
         aux_g, aux_v, aux_g2, aux_v2 = reader.get_gids_for_grib_intertable()
+        # the grid is the one of the geopotential: values of another resolution can be corrected with it
+        grid_details = geopotential_gribs.grid_details
+        all_values = geopotential_gribs.first_resolution_values()
+        if geopotential_gribs.have_resolution_change() and geopotential_gribs.grid2_id == self.grid_id:
+            grid_details = grid_details.get_2nd_resolution()
+            all_values = geopotential_gribs.second_resolution_values()
+            aux_g, aux_v = aux_g2, aux_v2
+        values = all_values[min(all_values, key=lambda k: int(k.end_step))]
         interpolator = Interpolator(ctx, missing)
-        interpolator.aux_for_intertable_generation(aux_g, aux_v, aux_g2, aux_v2)
+        interpolator.aux_for_intertable_generation(aux_g, aux_v, None, None)
 
         # get temp from geopotential. will be gem in the formula
         # variable below is used by numexpr evaluation namespace: DO NOT DELETE!
@@ -94,11 +101,11 @@ class Corrector(Loggable):
             values = ma.masked_where(z.mask, values, copy=False)
 
         if is_grib_interpolation:
-            values_resampled = interpolator.interpolate_grib(values, -1, self.grid_id)
+            values_resampled = interpolator.interpolate_grib(values, -1, grid_details.grid_id)
         else:
             # FOR GEOPOTENTIALS, SOME GRIBS COME WITHOUT LAT/LON GRIDS!
-            lats, lons = geopotential_gribs.latlons
-            values_resampled = interpolator.interpolate_scipy(lats, lons, values, self.grid_id, geopotential_gribs.grid_details)
+            lats, lons = grid_details.latlons
+            values_resampled = interpolator.interpolate_scipy(lats, lons, values, grid_details.grid_id, grid_details)
         reader.close()
         return interpolator, interpolator.missing_as_nan(values_resampled)
 
-- 
2.43.0


From 3bcd6cc74a0d4a04cfaf4fbed696062f51b83894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 069/100] fix: values were corrected where the DEM is missing,
 if its missing values are NaN

---
 src/pyg2p/main/manipulation/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 4ba845c..7b94994 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -38,7 +38,7 @@ class Corrector(Loggable):
         self._dem_missing_value, self._dem_values = self._read_dem(dem_map)
         self._formula = ctx.get('correction.formula')
         self._gem_formula = ctx.get('correction.gemFormula')
-        self._numexpr_eval = f'where((dem!=dem_mv) & (p==p) & (gem!=mv) & (gem==gem), {self._formula}, mv)'
+        self._numexpr_eval = f'where((dem!=dem_mv) & (dem==dem) & (p==p) & (gem!=mv) & (gem==gem), {self._formula}, mv)'
         self._numexpr_eval_gem = f'where(z == z, {self._gem_formula}, z)'
 
         log_message = f"""
-- 
2.43.0


From 2f16a186f83fd19f62fa3f904decc6195865f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 070/100] fix: the output folder was created for requests which
 are then rejected

---
 src/pyg2p/main/context.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 4ec345d..b295c99 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -109,16 +109,6 @@ class Context:
             if not self._vars['interpolation.mode'] in self.allowed_interp_methods:
                 raise ApplicationException.get_exc(INVALID_INTERPOL_METHOD, details=self._vars['interpolation.mode'])
 
-            # create out dir if not existing
-            try:
-                if self._vars['outMaps.outDir'] != './':
-                    if not self._vars['outMaps.outDir'].endswith('/'):
-                        self._vars['outMaps.outDir'] += '/'
-                    if not files.exists(self._vars['outMaps.outDir'], is_folder=True):
-                        files.create_dir(self._vars['outMaps.outDir'])
-            except Exception as exc:
-                raise ApplicationException(exc, None, str(exc))
-
             # check all numbers
 
             level = self._vars.get('parameter.level')
@@ -140,6 +130,16 @@ class Context:
             if self._vars['execution.doCorrection'] and not files.exists(self._vars['correction.demMap']):
                 raise ApplicationException.get_exc(4200, self._vars['correction.demMap'])
 
+            # create out dir if not existing
+            try:
+                if self._vars['outMaps.outDir'] != './':
+                    if not self._vars['outMaps.outDir'].endswith('/'):
+                        self._vars['outMaps.outDir'] += '/'
+                    if not files.exists(self._vars['outMaps.outDir'], is_folder=True):
+                        files.create_dir(self._vars['outMaps.outDir'])
+            except Exception as exc:
+                raise ApplicationException(exc, None, str(exc))
+
     def geo_file(self, grid_id):
         path = self.input_file_with_geopotential
         if not path:
-- 
2.43.0


From fda09341570816278a9a2cd676d88d07d3c37925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 071/100] fix: correction was silently not done when only some
 of its mandatory attributes are set

The error for this case existed already but could not happen.
---
 src/pyg2p/main/api.py     | 9 +++++----
 src/pyg2p/main/context.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 57aed44..e6c84c0 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -159,11 +159,12 @@ class ApiContext(Context):
             self._vars['parameter.conversionFunction'] = conversion['@function']
             self._vars['parameter.cutoffnegative'] = strings.to_boolean(conversion.get('@cutOffNegative'))
 
-        if self.api_conf['Parameter'].get('correctionFormula') and self.api_conf['Parameter'].get('gem') and self.api_conf['Parameter'].get('demMap'):
+        if self.api_conf['Parameter'].get('correctionFormula') or self.api_conf['Parameter'].get('gem') or self.api_conf['Parameter'].get('demMap'):
+            # the three attributes are mandatory (see _check_exec_params)
             self._vars['execution.doCorrection'] = True
-            self._vars['correction.formula'] = self.api_conf['Parameter']['correctionFormula']
-            self._vars['correction.gemFormula'] = self.api_conf['Parameter']['gem']
-            self._vars['correction.demMap'] = self.api_conf['Parameter']['demMap']
+            self._vars['correction.formula'] = self.api_conf['Parameter'].get('correctionFormula') or ''
+            self._vars['correction.gemFormula'] = self.api_conf['Parameter'].get('gem') or ''
+            self._vars['correction.demMap'] = self.api_conf['Parameter'].get('demMap') or ''
             if not self._vars['geopotential.dir'] and self.api_conf.get('geopotentialDir'):
                 self._vars['geopotential.dirs']['user'] = self.api_conf['geopotentialDir']
 
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index b295c99..0de5886 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -357,12 +357,13 @@ class ExecutionContext(Context):
             self._vars['parameter.conversionFunction'] = conversion['@function']
             self._vars['parameter.cutoffnegative'] = strings.to_boolean(conversion.get('@cutOffNegative'))
 
-        if exec_conf['Parameter'].get('@correctionFormula') and exec_conf['Parameter'].get('@gem') and exec_conf[
+        if exec_conf['Parameter'].get('@correctionFormula') or exec_conf['Parameter'].get('@gem') or exec_conf[
             'Parameter'].get('@demMap'):
+            # the three attributes are mandatory (see _check_exec_params)
             self._vars['execution.doCorrection'] = True
-            self._vars['correction.formula'] = exec_conf['Parameter']['@correctionFormula']
-            self._vars['correction.gemFormula'] = exec_conf['Parameter']['@gem']
-            self._vars['correction.demMap'] = exec_conf['Parameter']['@demMap']
+            self._vars['correction.formula'] = exec_conf['Parameter'].get('@correctionFormula') or ''
+            self._vars['correction.gemFormula'] = exec_conf['Parameter'].get('@gem') or ''
+            self._vars['correction.demMap'] = exec_conf['Parameter'].get('@demMap') or ''
 
         self._vars['outMaps.clone'] = exec_conf['OutMaps']['@cloneMap']
         interpolation_conf = exec_conf['OutMaps']['Interpolation']
-- 
2.43.0


From 94f898b1dd2ed6b7c1ac531b50fae1c9630ba2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 072/100] fix: first map number 0 of the command file was
 ignored, numbers given as strings were concatenated

---
 src/pyg2p/main/api.py     | 5 +++--
 src/pyg2p/main/context.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index e6c84c0..0ebf28f 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -200,9 +200,10 @@ class ApiContext(Context):
         if self._vars['outMaps.outputStepUnits'] is None:
             self._vars['outMaps.outputStepUnits'] = self.api_conf['OutMaps'].get('outputStepUnits')
         if self._vars['outMaps.fmap'] is None:
-            self._vars['outMaps.fmap'] = self.api_conf['OutMaps'].get('fmap') or 1
+            fmap = self.api_conf['OutMaps'].get('fmap')
+            self._vars['outMaps.fmap'] = int(fmap) if fmap not in (None, '') else 1
         if self._vars['outMaps.ext'] is None:
-            self._vars['outMaps.ext'] = self.api_conf['OutMaps'].get('ext') or 1
+            self._vars['outMaps.ext'] = int(self.api_conf['OutMaps'].get('ext') or 1)
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 0de5886..b5c4140 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -402,9 +402,10 @@ class ExecutionContext(Context):
         if self._vars['outMaps.outputStepUnits'] is None:
             self._vars['outMaps.outputStepUnits'] = exec_conf['OutMaps'].get('@outputStepUnits')
         if self._vars['outMaps.fmap'] is None:
-            self._vars['outMaps.fmap'] = exec_conf['OutMaps'].get('@fmap') or 1
+            fmap = exec_conf['OutMaps'].get('@fmap')
+            self._vars['outMaps.fmap'] = int(fmap) if fmap not in (None, '') else 1
         if self._vars['outMaps.ext'] is None:
-            self._vars['outMaps.ext'] = exec_conf['OutMaps'].get('@ext') or 1
+            self._vars['outMaps.ext'] = int(exec_conf['OutMaps'].get('@ext') or 1)
         if self._vars['outMaps.format'] == 'notset':
             # default out format to pcraster if not set from commandline nor in execution command json
             self._vars['outMaps.format'] = exec_conf['OutMaps'].get('@format') or 'pcraster'
-- 
2.43.0


From d14143aff53c3cfb8caf5f636661835e7ec14032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 073/100] fix: path variables were not replaced in the cdd map
 and in tables and geopotentials folders

---
 src/pyg2p/main/config.py  | 20 ++++++++++++--------
 src/pyg2p/main/context.py |  4 ++--
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index c7872e3..977373d 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -29,7 +29,8 @@ class UserConfiguration(pyg2p.Loggable):
     config_dir = f'{os.path.expanduser("~")}/.pyg2p/'
     sep = '='
     comment_char = '#'
-    conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap')
+    conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap',
+                           'interpolation.cdd_map')
     re_var = re.compile(r'{(?P<var>[a-zA-Z_][a-zA-Z0-9_]*)}')
     geopotentials_path_var = 'GEOPOTENTIALS'
     intertables_path_var = 'INTERTABLES'
@@ -70,15 +71,18 @@ class UserConfiguration(pyg2p.Loggable):
 
         :param ctx instance of Context
         """
-        ctx.get(self.conf_to_interpolate[0], '')
         vars_with_variables = [var for var in self.conf_to_interpolate if self.re_var.search(ctx.get(var, ''))]
         for var in vars_with_variables:
-            # we can have multiple variables {CONF_DIR}/{MAPS_DIR}lat.map
-            ctx[var] = self.re_var.sub(lambda m: self.vars.get(m.group('var'), m.group(0)), ctx[var])
-            if self.re_var.search(ctx[var]):
-                # some variables where not string-interpolated so they are missing in user configuration
-                vars_not_defined = self.re_var.findall(ctx[var])
-                raise ApplicationException.get_exc(NO_VAR_DEFINED, str(vars_not_defined))
+            ctx[var] = self.interpolate(ctx[var])
+
+    def interpolate(self, path):
+        # we can have multiple variables {CONF_DIR}/{MAPS_DIR}lat.map
+        path = self.re_var.sub(lambda m: self.vars.get(m.group('var'), m.group(0)), path)
+        if self.re_var.search(path):
+            # some variables where not string-interpolated so they are missing in user configuration
+            vars_not_defined = self.re_var.findall(path)
+            raise ApplicationException.get_exc(NO_VAR_DEFINED, str(vars_not_defined))
+        return path
 
 
 class BaseConfiguration(pyg2p.Loggable):
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index b5c4140..0919f16 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -376,10 +376,10 @@ class ExecutionContext(Context):
         self._vars['interpolation.rotated_target'] = interpolation_conf.get('@rotated_target', False)
         if not self._vars['interpolation.dir'] and interpolation_conf.get('@intertableDir'):
             # get from JSON
-            self._vars['interpolation.dirs']['user'] = interpolation_conf['@intertableDir']
+            self._vars['interpolation.dirs']['user'] = self.configuration.user.interpolate(interpolation_conf['@intertableDir'])
         if not self._vars['geopotential.dir'] and interpolation_conf.get('@geopotentialDir'):
             # get from JSON
-            self._vars['geopotential.dirs']['user'] = interpolation_conf['@geopotentialDir']
+            self._vars['geopotential.dirs']['user'] = self.configuration.user.interpolate(interpolation_conf['@geopotentialDir'])
         self._vars['interpolation.latMap'] = interpolation_conf['@latMap']
         self._vars['interpolation.lonMap'] = interpolation_conf['@lonMap']
 
-- 
2.43.0


From 34c1befce3b1ee773eb1027be786b35622f02930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 074/100] fix: failures other than application errors ended in
 an unhandled exception in place of status 1

E.g. missing cdd map, maps which can't be read or written.
---
 src/pyg2p/main/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index df64b4e..0c1c7ad 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -32,6 +32,9 @@ def pyg2p_exe(*args):
         except ApplicationException as err:
             logger.error(f'\nError while running a configuration command: {err}\n\n')
             return 1
+        except Exception as err:
+            logger.error(f'\nError while running a configuration command: {err}\n\n', exc_info=True)
+            return 1
     else:
         # normal execution flow
         logger.setLevel(exc_ctx.get('logger.level'))
@@ -50,6 +53,10 @@ def execute(exc_ctx):
         logger.error(f'\n\nError: {err}')
         if not err.code == NO_MESSAGES:
             ret_value = 1
+    except Exception as err:
+        # e.g. unreadable maps
+        logger.error(f'\n\nError: {err}', exc_info=True)
+        ret_value = 1
     finally:
         if ctrl:
             ctrl.close()
-- 
2.43.0


From 7eadb3e7d8261584bc200eca82062adaac652290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 075/100] fix: PCRaster maps overwrote each other when prefix
 and number exceed the length of names

---
 src/pyg2p/main/writers/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index d03148b..f17ceb1 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -5,6 +5,7 @@ import collections
 import numpy as np
 
 from pyg2p import Loggable
+from pyg2p.exceptions import ApplicationException, WRONG_ARGS
 from pyg2p.main.interpolation import Interpolator
 from pyg2p.main.manipulation.correction import Corrector
 
@@ -92,6 +93,11 @@ class OutputWriter(Loggable):
         geodetic_info = messages.grid_details
         grid_id = messages.grid_id
 
+        names = [self._name_pcr_map(i) for i in range(1, len(values) + 1)]
+        if len(set(names)) < len(names):
+            # PCRaster names are truncated to 11 characters
+            raise ApplicationException.get_exc(WRONG_ARGS, f"Maps would overwrite each other: {names[0]}. Check prefix and map numbers")
+
         for i, (timestep, v) in enumerate(values.items(), start=1):
             # note: timestep and change_res_step are instances of pyg2p.Step class
             # writing map i
-- 
2.43.0


From 81859176deb0c320ea3bdfeac296a81b74a8d927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 076/100] fix: the run succeeded when a PCRaster map could not
 be written

---
 src/pyg2p/main/writers/pcr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyg2p/main/writers/pcr.py b/src/pyg2p/main/writers/pcr.py
index ea55173..e5a5259 100644
--- a/src/pyg2p/main/writers/pcr.py
+++ b/src/pyg2p/main/writers/pcr.py
@@ -2,6 +2,7 @@ from osgeo import gdal
 import numpy.ma as ma
 import numpy as np
 
+from pyg2p.exceptions import ApplicationException, WEIRD_STUFF
 from pyg2p.main.writers import Writer
 
 
@@ -30,6 +31,8 @@ class PCRasterWriter(Writer):
         self._mask = ma.getmask(rs)
 
     def write(self, output_map_name, values):
+        if values.shape != (self._src_ds.RasterYSize, self._src_ds.RasterXSize):
+            raise ApplicationException.get_exc(WEIRD_STUFF, f'Shape of values {values.shape} is not the one of the clone map {self._clone_map}')
         values[np.isnan(values)]=self.mv
         drv = gdal.GetDriverByName(self.FORMAT)
         masked_values = self._mask_values(values)
@@ -37,6 +40,9 @@ class PCRasterWriter(Writer):
         self._mem_ds.GetRasterBand(1).SetNoDataValue(self.mv)
         self._mem_ds.GetRasterBand(1).WriteArray(masked_values)
         out_ds = drv.CreateCopy(output_map_name.encode('utf-8'), self._mem_ds)
+        if out_ds is None:
+            # GDAL doesn't raise exceptions
+            raise ApplicationException.get_exc(WEIRD_STUFF, f'Cannot write {output_map_name}: {gdal.GetLastErrorMsg()}')
         self._log(f'{output_map_name} written!', 'INFO')
         out_ds = None
         del out_ds
-- 
2.43.0


From d8a85d1d26194db18e12bd22303f8805204e0574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 077/100] fix: runs failed when no output step is left for the
 second resolution

---
 src/pyg2p/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/__init__.py b/src/pyg2p/__init__.py
index 3756f53..c76e8da 100644
--- a/src/pyg2p/__init__.py
+++ b/src/pyg2p/__init__.py
@@ -41,6 +41,8 @@ class Step:
         return hash((self.start_step, self.end_step, self.resolution, self.input_step, self.level))
 
     def __eq__(self, other):
+        if not isinstance(other, Step):
+            return NotImplemented
         return (self.start_step, self.end_step, self.resolution, self.input_step, self.level) == (
                (other.start_step, other.end_step, other.resolution, other.input_step, other.level))
 
-- 
2.43.0


From 55760d305a2ab15f4aaa0bbf0ee83af644290320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 078/100] fix: steps were lost when the first one is the change
 of resolution, depending on the order of messages

---
 src/pyg2p/main/readers/grib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 6353445..18d6263 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -46,6 +46,7 @@ class GRIBReader(Loggable):
         self._gid_main_res = None
         self._gid_ext_res = None
         self._available_steps = []
+        self._last_steps = {}  # last available step by resolution
 
     @classmethod
     def get_id(cls, grib_file, reader_args):
@@ -140,7 +141,8 @@ class GRIBReader(Loggable):
                 kwargs['startStep'] = lambda s: s >= 0
                 gribs = self.scan_grib(**kwargs)
             # same results whatever the order of messages in the file
-            gribs.sort(key=lambda g: codes_get(g, 'endStep'))
+            # at the step where both are available, the first resolution is the one which ends first
+            gribs.sort(key=lambda g: (codes_get(g, 'endStep'), self._last_steps.get(codes_get(g, 'Nj'), 0)))
             return gribs
         except ValueError:
             raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {kwargs}')
@@ -249,6 +251,8 @@ class GRIBReader(Loggable):
             self._log("Grib input step %d [type of step: %s]" % (self._step_grib, type_of_step))
             self._log('Gribs from %d to %d' % (start_grib, end_grib))
             self._available_steps = [(codes_get(g, 'startStep'), codes_get(g, 'endStep')) for g in _gribs_for_utils]
+            # messages are ordered by step
+            self._last_steps = {codes_get(g, 'Nj'): codes_get(g, 'endStep') for g in _gribs_for_utils}
             for g in _gribs_for_utils:
                 codes_release(g)
             _gribs_for_utils = None
-- 
2.43.0


From 7d68d3349c231af3d7f2c4ff268c107d5331efa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 079/100] fix: no maps when the second file has none of the
 requested steps, other steps when the first file has none

---
 src/pyg2p/main/controller.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 5e8585c..70d75c5 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -1,6 +1,7 @@
 import collections
 
 from .. import Loggable
+from ..exceptions import ApplicationException, NO_MESSAGES
 from ..main.manipulation.aggregator import Aggregator, INSTANTANEOUS, AVERAGE
 from ..main.readers.grib import GRIBReader
 from ..main.writers import OutputWriter
@@ -112,8 +113,14 @@ class Controller(Loggable):
         if aggregator:
             cmd_args = self.ctx.create_select_cmd_for_reader(*self.grib_reader2.steps_covering(*aggregator.get_real_start_end_steps()))
         # messages.change_resolution() returns True after Messages.append_2nd_res_messages()
-        mess_2nd_res = self.grib_reader2.select_messages(**cmd_args)
-        messages.append_2nd_res_messages(mess_2nd_res)
+        try:
+            mess_2nd_res = self.grib_reader2.select_messages(**cmd_args)
+        except ApplicationException as err:
+            if err.code != NO_MESSAGES:
+                raise
+            self._log(f'No messages to select in the second file {self.grib_reader2}', 'INFO')
+        else:
+            messages.append_2nd_res_messages(mess_2nd_res)
 
     def execute(self, write_results=True):
         converter = None
@@ -160,6 +167,10 @@ class Controller(Loggable):
             # second resolution manipulation
             change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
         else:
+            start_step = self.ctx.get('parameter.tstart') or 0
+            if all(int(k.end_step) < start_step for k in values):
+                # all the steps are in the second file
+                values = {}
             change_res_step, values = self.merge_resolutions(values, messages.second_resolution_values())
 
         # cutoff after interpolation
-- 
2.43.0


From 2036bb04ed3184c7490817d8ff41f6e630e23b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 080/100] fix: first instantaneous map taken from the next step
 when the first of two files has one message

---
 src/pyg2p/main/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 70d75c5..52dc5f9 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -52,7 +52,8 @@ class Controller(Loggable):
             aggregator = Aggregator(aggr_step=self.ctx.get('aggregation.step'),
                                     aggr_type=self.ctx.get('aggregation.type'),
                                     aggr_halfweights=self.ctx.get('aggregation.halfweights'),
-                                    input_step=grib_info.input_step,
+                                    # there is no input step in a file with a single message
+                                    input_step=grib_info.input_step or (grib_info2.input_step if self.ctx.is_2_input_files else 0),
                                     step_type=grib_info.type_of_param,
                                     start_step=start_step,
                                     mv_grib=grib_info.mv,
-- 
2.43.0


From ad0000ab9e7439ef748bdc2fd56245db4b0b2c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 081/100] fix: netCDF clone maps were not readable by the
 in-memory API

---
 src/pyg2p/main/api.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 0ebf28f..f531343 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -13,6 +13,7 @@ from .interpolation import Interpolator
 from .manipulation.aggregator import ACCUMULATION
 from .manipulation.correction import Corrector
 from .readers import GRIBReader, PCRasterReader
+from .readers.netcdf import NetCDFReader
 from ..main import pyg2p_exe
 from ..util import strings
 from ..util.strings import to_argv, to_argdict
@@ -270,10 +271,11 @@ class Pyg2pApi:
         self.messages = None
         self.values = None
         self.change_res_step = None
-        clone = PCRasterReader(self.context.get('outMaps.clone'))
+        clone_map = self.context.get('outMaps.clone')
+        clone = NetCDFReader(clone_map) if str(clone_map).endswith('.nc') else PCRasterReader(clone_map)
         self.mv = clone.mv
-        rs = ma.masked_values(clone.values, self.mv)
-        self._mask = ma.getmask(rs)
+        rs = ma.masked_invalid(ma.masked_values(clone.values, self.mv))
+        self._mask = ma.getmaskarray(rs)
 
     def _mask_values(self, values):
         if isinstance(values, ma.core.MaskedArray):
-- 
2.43.0


From 0b7ca9dd490418c19edc9b434a35d2f37d222f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 082/100] fix: perturbationNumber of the parameter was ignored
 by the in-memory API

---
 src/pyg2p/main/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index f531343..70a7c5a 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -216,6 +216,8 @@ class ApiContext(Context):
             self._vars['parameter.dataTime'] = int(self.api_conf['Parameter']['dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and self.api_conf['Parameter'].get('dataDate'):
             self._vars['parameter.dataDate'] = int(self.api_conf['Parameter']['dataDate'])  # date
+        if self._vars['parameter.perturbationNumber'] is None and self.api_conf['Parameter'].get('perturbationNumber') not in (None, ''):
+            self._vars['parameter.perturbationNumber'] = int(self.api_conf['Parameter']['perturbationNumber'])  # eps member
 
         self._vars['parameter.level'] = self.api_conf['Parameter'].get('level')  # number
 
-- 
2.43.0


From e3cf0d4ec2db0c3b431b38ba71d743ead56eac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 083/100] fix: values starting with a dash, as -1e5, were taken
 as options in commands

---
 src/pyg2p/main/api.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 70a7c5a..9a380e6 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -71,10 +71,17 @@ class Command:
         for method_suffix, opt in self.cmds_map.items():
             setattr(self, f'with_{method_suffix}', MethodType(partial(_a, opt), self))
 
+    @staticmethod
+    def _arg(key, value):
+        if key.startswith('-') and re.match(r'^-(?!\d+$|\d*\.\d+$)', value):
+            # values like -1e5, which would be taken as options
+            return f'{key}={value} '
+        return f'{key} {value} '
+
     def __str__(self):
         cmd = 'pyg2p '
         self._d = collections.OrderedDict(sorted(self._d.items(), key=lambda k: k[0]))
-        args = ''.join(['%s %s ' % (key, value) for (key, value) in self._d.items()]).strip()
+        args = ''.join([self._arg(key, str(value)) for (key, value) in self._d.items()]).strip()
         return cmd + args
 
     def run(self):
-- 
2.43.0


From 01bc71a192fb4615abba56d9b0512c655a01ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 084/100] fix: options passed with their long names were not
 replaced in commands

---
 src/pyg2p/main/api.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 9a380e6..234b0a9 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -1,3 +1,4 @@
+import argparse
 import collections
 import re
 from functools import partial
@@ -8,7 +9,7 @@ import numpy as np
 import numpy.ma as ma
 
 from . import Controller, Configuration
-from .context import Context
+from .context import Context, ExecutionContext
 from .interpolation import Interpolator
 from .manipulation.aggregator import ACCUMULATION
 from .manipulation.correction import Corrector
@@ -63,7 +64,7 @@ class Command:
                 opts[var] = opts[var].as_posix() if isinstance(opts[var], Path) else str(opts[var])  # as string
                 cmd_string = cmd_string.replace('{%s}' % var, opts[var])
         # adding flag underApi
-        self._d = {} if not cmd_string else to_argdict(f'{cmd_string} -A')
+        self._d = {} if not cmd_string else self._short_options(to_argdict(f'{cmd_string} -A'))
         # adding log level
         if '-l' not in self._d.keys():
             self._a('-l', 'ERROR')
@@ -71,6 +72,14 @@ class Command:
         for method_suffix, opt in self.cmds_map.items():
             setattr(self, f'with_{method_suffix}', MethodType(partial(_a, opt), self))
 
+    @staticmethod
+    def _short_options(args):
+        # an option can be passed with its long name too
+        parser = argparse.ArgumentParser(add_help=False)
+        ExecutionContext.add_args(parser)
+        names = {name: action.option_strings[0] for action in parser._actions for name in action.option_strings}
+        return {names.get(key, key): value for key, value in args.items()}
+
     @staticmethod
     def _arg(key, value):
         if key.startswith('-') and re.match(r'^-(?!\d+$|\d*\.\d+$)', value):
-- 
2.43.0


From 21e3ad0cb01df2feb82d1db53cb519b32fc79ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 085/100] fix: geopotentials added by others were lost by the
 next change of the configuration

---
 src/pyg2p/main/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 977373d..02de28f 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -231,7 +231,13 @@ class GeopotentialsConfiguration(BaseConfiguration):
     short_names = ['fis', 'z', 'FIS', 'orog']
     description = 'Config file for geopotentials. Do NOT edit this file!'
 
+    def refresh(self):
+        # the file could have been changed by others
+        self.vars = self.load_global()
+        self.merge_with_user_conf()
+
     def add(self, filepath):
+        self.refresh()
         args = {'shortName': self.short_names}
         id_ = GRIBReader.get_id(filepath, reader_args=args)
         if id_ in self.vars:
@@ -255,11 +261,12 @@ class GeopotentialsConfiguration(BaseConfiguration):
         self.dump()
 
     def remove(self, filename):
+        self.refresh()
         for g in self.user_vars.keys():
             if self.user_vars[g] == filename:
                 del self.user_vars[g]
-                self.vars.pop(g, None)
                 self.dump()
+                self.refresh()
                 break
 
     def get_filepath(self, grid_id, additional=None):
-- 
2.43.0


From 96355e002cce851a7faf37d017e22c92224ef7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 086/100] fix: geopotentials which are already in the data
 folder could not be added

---
 src/pyg2p/main/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 02de28f..9c91718 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -255,7 +255,9 @@ class GeopotentialsConfiguration(BaseConfiguration):
             name = f'{stem}_{i}{ext}'
             i += 1
 
-        file_util.copy(filepath, os.path.join(self.data_path, name))
+        destination = os.path.join(self.data_path, name)
+        if not (file_util.exists(destination) and os.path.samefile(filepath, destination)):
+            file_util.copy(filepath, destination)
         self.user_vars[id_] = name
         self.vars[id_] = name
         self.dump()
-- 
2.43.0


From f527c1156118647bbab0f17411503a343106281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 087/100] fix: interpolation tables added by others were lost
 from the configuration

---
 src/pyg2p/main/config.py                 | 10 +++++-----
 src/pyg2p/main/interpolation/__init__.py |  2 ++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 9c91718..36e4c6c 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -144,6 +144,11 @@ class BaseConfiguration(pyg2p.Loggable):
         finally:
             f.close()
 
+    def refresh(self):
+        # the file could have been changed by others
+        self.vars = self.load_global()
+        self.merge_with_user_conf()
+
     def dump(self):
         with open(self.config_file, 'w') as f:
             f.write(json.dumps(self.user_vars, sort_keys=True, indent=4))
@@ -231,11 +236,6 @@ class GeopotentialsConfiguration(BaseConfiguration):
     short_names = ['fis', 'z', 'FIS', 'orog']
     description = 'Config file for geopotentials. Do NOT edit this file!'
 
-    def refresh(self):
-        # the file could have been changed by others
-        self.vars = self.load_global()
-        self.merge_with_user_conf()
-
     def add(self, filepath):
         self.refresh()
         args = {'shortName': self.short_names}
diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 5abc007..e1a9f54 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -410,6 +410,8 @@ class Interpolator(Loggable):
                                     'method': self._mode,
                                     'source_shape': source_shape,
                                     'target_shape': self._target_coords.lons.shape}
+        # keep the tables added by others
+        self.intertables_config.refresh()
         # update global configuration
         self.intertables_config.vars[intertable_id] = new_intertable_conf_item
 
-- 
2.43.0


From b8849acb3ae2fc86552a66ff5a4587bbb5ed6dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 088/100] fix: lines of .conf files without = gave an obscure
 error

---
 src/pyg2p/exceptions.py  |  2 ++
 src/pyg2p/main/config.py | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/exceptions.py b/src/pyg2p/exceptions.py
index 707a77e..d96d68d 100644
--- a/src/pyg2p/exceptions.py
+++ b/src/pyg2p/exceptions.py
@@ -14,6 +14,7 @@ NOT_IMPLEMENTED = 6100
 NO_VAR_DEFINED = 8000
 NO_INTERTABLE_CREATED = 8100
 JSON_ERROR = 8200
+CONF_ERROR = 8250  # not a NAME=value line
 EXISTING_GEOPOTENTIAL = 8300
 INVALID_INTERPOL_METHOD = 8400
 NO_WRITE_PERMISSIONS = 8500
@@ -59,6 +60,7 @@ class ApplicationException(Exception):
         NO_INTERTABLE_CREATED: 'Interpolation table was not found and needs to be created '
                                'but -B option was not set on command line.',
         JSON_ERROR: 'Error in json configuration file.',
+        CONF_ERROR: 'Error in .conf configuration file.',
         EXISTING_GEOPOTENTIAL: 'Geopotential already existing in configuration with same id',
         INVALID_INTERPOL_METHOD: 'Interpolation method not valid',
         WEIRD_STUFF: 'Cannot continue: weird stuff happening',
diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 36e4c6c..1a18e9e 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -13,7 +13,7 @@ from ..exceptions import (
     SHORTNAME_NOT_FOUND,
     CONVERSION_NOT_FOUND,
     NO_GEOPOTENTIAL,
-    NO_VAR_DEFINED, JSON_ERROR, EXISTING_GEOPOTENTIAL,
+    NO_VAR_DEFINED, JSON_ERROR, CONF_ERROR, EXISTING_GEOPOTENTIAL,
     NO_WRITE_PERMISSIONS, NOT_EXISTING_PATH, NO_FILE_GEOPOTENTIAL)
 
 import pyg2p.util.files as file_util
@@ -56,10 +56,16 @@ class UserConfiguration(pyg2p.Loggable):
     def load_properties(self, filepath):
         props = {}
         with open(filepath, "rt") as f:
-            for line in f:
+            try:
+                lines = f.readlines()
+            except ValueError as e:
+                raise ApplicationException.get_exc(CONF_ERROR, details=f'{e} {filepath}')
+            for line in lines:
                 line = line.strip()
                 if line and not line.startswith(self.comment_char):
                     key_value = line.split(self.sep, 1)
+                    if len(key_value) < 2:
+                        raise ApplicationException.get_exc(CONF_ERROR, details=f'{line} {filepath}')
                     props[key_value[0].strip()] = key_value[1].strip('" \t')
         return props
 
-- 
2.43.0


From f7fef7c1c88867074c1ad5d9631a7bf4901c6008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 089/100] fix: fractional times of netCDF outputs were rounded
 by seconds

---
 src/pyg2p/main/writers/netcdf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 6b1377e..4ecfc98 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -83,8 +83,9 @@ class NetCDFWriter(Writer):
         steps_units_netcdf_name = {'s':'seconds', 'm':'minutes', 'h':'hours', '3h':'3h steps', '6h':'6h steps',
                                     '12h':'12h steps', 'D': 'days', 'M': 'months', 'Y': 'years', '10Y': '10Y steps', 
                                     '30Y':'30Y steps', 'C': 'centuries'}
-        steps_units_conversion_time = {'s':1/3600, 'm':1/60, 'h':1, '3h':3, '6h':6,
-                                    '12h':12, 'D': 24}
+        # in seconds
+        steps_units_conversion_time = {'s':1, 'm':60, 'h':3600, '3h':3*3600, '6h':6*3600,
+                                    '12h':12*3600, 'D': 24*3600}
         
         grib_step_units=varargs.get("grib_step_units")
         if varargs.get('output_step_units', None) is not None:
@@ -96,9 +97,10 @@ class NetCDFWriter(Writer):
                     # we can convert only up to daily step
                     if (output_step_units in steps_units_conversion_time) and \
                         (grib_step_units in steps_units_conversion_time): 
-                        time_values = time_values*steps_units_conversion_time[grib_step_units]/steps_units_conversion_time[output_step_units]
+                        # doubles: seconds of long forecasts would not fit single precision (or 32 bits integers)
+                        time_values = time_values.astype(np.float64)*steps_units_conversion_time[grib_step_units]/steps_units_conversion_time[output_step_units]
                         if np.any(np.mod(time_values, 1) != 0):
-                            time_var_format = 'f4'
+                            time_var_format = 'f8'
                     else:
                         warnings.warn('Conversion from grib stepUnits {} to outputStepUnits: {} not allowed.\nConversion is supported only up to daily time steps. The output format will be "{}"'
                                     .format(grib_step_units, output_step_units,steps_units_netcdf_name[grib_step_units]), 
-- 
2.43.0


From e1e474a3c9d04d83f79b7113699d02fbd2580aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 090/100] fix: messages with fewer values than points or of
 another grid were interpolated as the others

---
 src/pyg2p/__init__.py          | 22 ++++++++++++++++++++++
 src/pyg2p/exceptions.py        |  2 ++
 src/pyg2p/main/readers/grib.py |  5 ++++-
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/__init__.py b/src/pyg2p/__init__.py
index c76e8da..24ee229 100644
--- a/src/pyg2p/__init__.py
+++ b/src/pyg2p/__init__.py
@@ -73,6 +73,10 @@ class GribGridDetails(Loggable):
             ('longitudeOfFirstGridPointInDegrees', 'double'), ('longitudeOfLastGridPointInDegrees', 'double'),
             ('latitudeOfSouthernPoleInDegrees', 'double'), ('longitudeOfSouthernPoleInDegrees', 'double'),
             ('angleOfRotationInDegrees', 'double'))
+    location_keys = ('latitudeOfFirstGridPointInDegrees', 'longitudeOfFirstGridPointInDegrees',
+                     'latitudeOfLastGridPointInDegrees', 'longitudeOfLastGridPointInDegrees',
+                     'iDirectionIncrementInDegrees', 'jDirectionIncrementInDegrees',
+                     'latitudeOfSouthernPoleInDegrees', 'longitudeOfSouthernPoleInDegrees', 'angleOfRotationInDegrees')
     check_for_missing_keys = ('Ni', 'Nj', 'longitudeOfLastGridPointInDegrees')
 
     def __init__(self, gid):
@@ -141,6 +145,24 @@ class GribGridDetails(Loggable):
     def get(self, geo_key):
         return self._geo_keys[geo_key]
 
+    def is_grid_of(self, gid):
+        """Whether points of the message are at the coordinates of this grid"""
+        def both_have(key_):
+            return all(eccodes.codes_is_defined(g, key_) and not eccodes.codes_is_missing(g, key_) for g in (gid, self._gid))
+
+        for key_ in ('gridType', 'Ni', 'Nj', 'N', 'numberOfDataPoints', 'scanningMode'):
+            if both_have(key_) and eccodes.codes_get(gid, key_) != eccodes.codes_get(self._gid, key_):
+                return False
+        if both_have('pl') and list(eccodes.codes_get_array(gid, 'pl')) != list(eccodes.codes_get_array(self._gid, 'pl')):
+            return False
+        for key_ in self.location_keys:
+            if both_have(key_):
+                difference = eccodes.codes_get_double(gid, key_) - eccodes.codes_get_double(self._gid, key_)
+                # editions have different precisions and longitudes can be negative
+                if abs((difference + 180) % 360 - 180) > 0.01:
+                    return False
+        return True
+
     def __str__(self):
         return str(self._geo_keys)
 
diff --git a/src/pyg2p/exceptions.py b/src/pyg2p/exceptions.py
index d96d68d..3c38824 100644
--- a/src/pyg2p/exceptions.py
+++ b/src/pyg2p/exceptions.py
@@ -6,6 +6,7 @@ NOT_EXISTING_MAPS = 1300
 INTERTABLE_DIR_NOT_FOUND = 1320
 NOT_A_NUMBER = 1400
 NO_MESSAGES = 3000  # no messages found in GRIB file with used criteria
+WRONG_MESSAGE = 3100  # message which can't be used with the others
 NO_GEOPOTENTIAL = 4000  # No geopotential item configured in JSON config
 MISSING_FORMULAS_IN_EXEC = 4100
 NO_FILE_GEOPOTENTIAL = 4200  # Geopotential file doesn't exist
@@ -42,6 +43,7 @@ class ApplicationException(Exception):
         1700: 'Unkwon ext mode. Must be number.',
         2000: 'Found Not Handled parameter value',
         NO_MESSAGES: 'No Messages found',
+        WRONG_MESSAGE: 'Message of GRIB file is damaged or not on the grid of the others',
         NO_GEOPOTENTIAL: 'No geopotential configured in geopotentials.json. Add it with -g option',
         NO_FILE_GEOPOTENTIAL: 'Geopotential configured but file is missing',
         MISSING_FORMULAS_IN_EXEC: 'Both correctionFormula, gemFormula and demMap attributes must be present in the Parameter tag',
diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 18d6263..3d82578 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -9,7 +9,7 @@ from eccodes import (codes_is_defined,
 from numpy import ma
 
 from ...util import generics as utils
-from ...exceptions import ApplicationException, NO_MESSAGES
+from ...exceptions import ApplicationException, NO_MESSAGES, WRONG_MESSAGE
 from ... import Loggable, Step, GRIBInfo, GribGridDetails, Messages
 
 
@@ -185,11 +185,14 @@ class GRIBReader(Loggable):
 
                 step_key = Step(start_step, end_step, points_meridian, input_step, level)
 
+                same_grid = grid if points_meridian == grid.num_points_along_meridian else grid2
                 if points_meridian != grid.num_points_along_meridian and grid.get_2nd_resolution() is None:
                     # found second resolution messages
                     grid2 = GribGridDetails(g)
                     self._gid_ext_res = g
                 values = codes_get_double_array(g, 'values')
+                if values.size != codes_get(g, 'numberOfDataPoints') or (same_grid and not same_grid.is_grid_of(g)):
+                    raise ApplicationException.get_exc(WRONG_MESSAGE, details=f'step {start_step}-{end_step} in {self._grib_file}')
 
                 # Handling missing grib values.
                 # If bitmap is present, array will be a masked_array
-- 
2.43.0


From dcecbeee99ca425de858f61550ea68cc3270e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:42 +0000
Subject: [PATCH 091/100] fix: maps could be written out of the output folder
 with prefixes which have a path

---
 src/pyg2p/main/writers/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index f17ceb1..5815ba6 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -121,8 +121,15 @@ class OutputWriter(Loggable):
 
     def _name_netcdf_file(self):
         filename = f"{self.ctx.get('outMaps.namePrefix')}_{self.ctx.get('aggregation.type')}.nc"
-        out_filename = os.path.join(self.ctx.get('outMaps.outDir'), filename)
-        return out_filename
+        return self._in_out_dir(filename)
+
+    def _in_out_dir(self, filename):
+        out_dir = self.ctx.get('outMaps.outDir')
+        full_path = os.path.join(out_dir, filename)
+        # prefixes can have a path
+        if os.path.commonpath([os.path.abspath(out_dir), os.path.abspath(full_path)]) != os.path.abspath(out_dir):
+            raise ApplicationException.get_exc(WRONG_ARGS, f'{full_path} is not in the output folder. Check prefix')
+        return full_path
 
     def _name_pcr_map(self, i_map):
         # Used for pcraster output maps
@@ -134,8 +141,7 @@ class OutputWriter(Loggable):
             filename += '0'
         filename += str(map_number)
         filename = filename[0:8] + '.' + filename[8:11]
-        filename = os.path.join(self.ctx.get('outMaps.outDir'), filename)
-        return filename
+        return self._in_out_dir(filename)
 
     def close(self):
         self.writer.close()
-- 
2.43.0


From 36a012c617266c0cb8135a586ea56bd87b488498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:42 +0000
Subject: [PATCH 092/100] fix: checksums of interpolation tables were not
 verified

---
 src/pyg2p/main/interpolation/__init__.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index e1a9f54..a3eceee 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -115,6 +115,14 @@ class Interpolator(Loggable):
                 return path, info.st_mtime_ns, info.st_size, info.st_ino
         return None
 
+    @staticmethod
+    def _load_compressed(path):
+        with gzip.GzipFile(path, 'r') as f:
+            intertable = np.load(f)
+            # checksums are verified at the end of the file
+            f.read()
+        return intertable
+
     def _read_intertable(self, tbl_fullpath):
 
         # a table can be replaced on disk between two runs in the same process
@@ -123,9 +131,7 @@ class Interpolator(Loggable):
         if not loaded or loaded[0] != stamp:
             f = tbl_fullpath
             if tbl_fullpath.endswith('.gz'):
-                f = gzip.GzipFile(tbl_fullpath, 'r')
-                intertable = np.load(f)
-                f.close()
+                intertable = self._load_compressed(tbl_fullpath)
             else:
                 try:
                     intertable = np.load(tbl_fullpath)
@@ -133,9 +139,7 @@ class Interpolator(Loggable):
                     f = tbl_fullpath + '.gz'
                     if not pyg2p.util.files.exists(f):
                         raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=f'Tried to read both {tbl_fullpath} and {f} but none was found')
-                    f = gzip.GzipFile(f, 'r')
-                    intertable = np.load(f)
-                    f.close()
+                    intertable = self._load_compressed(f)
             self._LOADED_INTERTABLES[tbl_fullpath] = (stamp, intertable)
             self._log(f'Using interpolation table: {tbl_fullpath}', 'INFO')
         else:
-- 
2.43.0


From b1565570c90082dcaabdf2ac9e3cfc1bb65423be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 093/100] fix: runs never ended with infinite or huge
 longitudes

---
 .../interpolation/grib_interpolation_lib.py   | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 04afdd3..54c4a54 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -21,10 +21,15 @@ from ...util.strings import now_string
 warnings.simplefilter(action='ignore', category=FutureWarning)
 
 
+def has_coordinates(lons, mv):
+    # eccodes never ends with longitudes which are not numbers or too large to subtract 360
+    return (np.abs(lons) < 1.0e+10) & (lons != mv)
+
+
 def grib_nearest(gid, target_lats, target_lons, mv):
     num_cells = target_lons.size
     indices = np.indices(target_lons.shape)
-    valid_target_coords = (target_lons > -1.0e+10) & (target_lons != mv)
+    valid_target_coords = has_coordinates(target_lons, mv)
     xs = np.where(valid_target_coords, indices[0], int_fill_value).ravel()
     ys = np.where(valid_target_coords, indices[1], int_fill_value).ravel()
     idxs = empty(num_cells, fill_value=int_fill_value, dtype=int)
@@ -41,7 +46,7 @@ def grib_nearest(gid, target_lats, target_lons, mv):
         if i % progress_step == 0:
             stdout.write(format_progress(back_char, i, num_cells, outs, i * 100. / num_cells))
             stdout.flush()
-        if not (lon <= -1.0e+10 or lon == mv):
+        if has_coordinates(lon, mv):
             try:
                 n_nearest = eccodes.codes_grib_find_nearest(gid, lat.item(), lon.item())
             except eccodes.GribInternalError:
@@ -63,7 +68,7 @@ def grib_nearest(gid, target_lats, target_lons, mv):
 def grib_invdist(gid, target_lats, target_lons, mv):
     num_cells = target_lons.size
     indices = np.indices(target_lons.shape)
-    valid_target_coords = (target_lons > -1.0e+10) & (target_lons != mv)
+    valid_target_coords = has_coordinates(target_lons, mv)
     xs = np.where(valid_target_coords, indices[0], int_fill_value).ravel()
     ys = np.where(valid_target_coords, indices[1], int_fill_value).ravel()
     idxs1 = empty(num_cells, fill_value=int_fill_value, dtype=int)
@@ -87,7 +92,7 @@ def grib_invdist(gid, target_lats, target_lons, mv):
         if i % progress_step == 0:
             stdout.write(format_progress(back_char, i, num_cells, outs, i * 100. / num_cells))
             stdout.flush()
-        if not (lon < -1.0e+10 or lon == mv):
+        if has_coordinates(lon, mv):
 
             try:
                 n_nearest = eccodes.codes_grib_find_nearest(gid, lat.item(), lon.item(), npoints=4)
@@ -152,7 +157,7 @@ def nearest_parallel_step(chunk, gid, mv):
     lat, lon, x, y = chunk
 
     idx = int_fill_value
-    if not (lon <= -1.0e+10 or lon == mv):
+    if has_coordinates(lon, mv):
         try:
             n_nearest = eccodes.codes_grib_find_nearest(gid, lat.item(), lon.item())
         except eccodes.GribInternalError:
@@ -193,7 +198,7 @@ def invdist_parallel_step(chunk, gid, mv):
     lat, lon, x, y = chunk
     idx1 = idx2 = idx3 = idx4 = int_fill_value
     inv1 = inv2 = inv3 = inv4 = np.NaN
-    if not (lon < -1.0e+10 or lon == mv):
+    if has_coordinates(lon, mv):
         try:
             n_nearest = eccodes.codes_grib_find_nearest(gid, lat.item(), lon.item(), npoints=4)
         except eccodes.GribInternalError:
@@ -256,7 +261,7 @@ def concatenate_invdist_result(nchunks, result):
 def init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons):
     indices = np.indices(target_lons.shape)
     npartitions = max(100, int(nchunks / 10))
-    valid_coords_mask = (target_lons > -1.0e+10) & (target_lons != mv)
+    valid_coords_mask = has_coordinates(target_lons, mv)
     xs = np.where(valid_coords_mask, indices[0], int_fill_value).ravel()
     ys = np.where(valid_coords_mask, indices[1], int_fill_value).ravel()
     stack = np.stack((target_lats.flat, target_lons.flat, xs.flat, ys.flat))
-- 
2.43.0


From 077ee4468d6cbda60a552cbc0e9fd56c9f65fa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:34 +0000
Subject: [PATCH 094/100] fix: an interrupted download left a truncated file,
 skipped as existing by the next one

---
 src/pyg2p/main/config.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 1a18e9e..ce405a7 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -1,6 +1,7 @@
 import json
 import os
 import re
+import tempfile
 from copy import deepcopy
 from ftplib import FTP
 import itertools
@@ -353,8 +354,12 @@ class Configuration(pyg2p.Loggable):
                 self._log(f'[{i}/{numfiles}] Skipping existing file {f}', level='INFO')
                 continue
             self._log(f'[{i}/{numfiles}] Downloading {f}')
-            with open(local_filename, 'wb') as local_file:
-                client.retrbinary(f'RETR {f}', local_file.write)
+            # a file not completely downloaded would be skipped next time
+            with tempfile.TemporaryDirectory(prefix='.download', dir=local_path) as temp_path:
+                temp_filename = os.path.join(temp_path, file_util.filename(f))
+                with open(temp_filename, 'wb') as local_file:
+                    client.retrbinary(f'RETR {f}', local_file.write)
+                os.replace(temp_filename, local_filename)
         self._log(f'=== Download finished: {remote_path}')
         client.quit()  # close FTP connection
 
-- 
2.43.0


From 016f3c9244bd846fe65d6d197f1739b160734ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:34 +0000
Subject: [PATCH 095/100] fix: downloads of files listed with their path went
 out of the data folder

---
 src/pyg2p/main/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index ce405a7..d17db76 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -347,16 +347,18 @@ class Configuration(pyg2p.Loggable):
         filenames = client.nlst()
         numfiles = len(filenames)
         for i, f in enumerate(filenames):
-            if f in ('.', '..', 'readme.txt'):
+            # some servers list paths
+            name = file_util.filename(f)
+            if name in ('', '.', '..', 'readme.txt'):
                 continue
-            local_filename = os.path.join(local_path, f)
+            local_filename = os.path.join(local_path, name)
             if file_util.exists(local_filename):
                 self._log(f'[{i}/{numfiles}] Skipping existing file {f}', level='INFO')
                 continue
             self._log(f'[{i}/{numfiles}] Downloading {f}')
             # a file not completely downloaded would be skipped next time
             with tempfile.TemporaryDirectory(prefix='.download', dir=local_path) as temp_path:
-                temp_filename = os.path.join(temp_path, file_util.filename(f))
+                temp_filename = os.path.join(temp_path, name)
                 with open(temp_filename, 'wb') as local_file:
                     client.retrbinary(f'RETR {f}', local_file.write)
                 os.replace(temp_filename, local_filename)
-- 
2.43.0


From b266d42a5d300853d9d608d54564a30fa220dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 096/100] fix: an interrupted run left truncated json files in
 the user configuration

---
 src/pyg2p/main/config.py |  3 ++-
 src/pyg2p/util/files.py  | 17 +++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index d17db76..80fcb68 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -157,7 +157,8 @@ class BaseConfiguration(pyg2p.Loggable):
         self.merge_with_user_conf()
 
     def dump(self):
-        with open(self.config_file, 'w') as f:
+        # an interrupted run would leave a truncated file
+        with file_util.replacing(self.config_file) as temp_file, open(temp_file, 'w') as f:
             f.write(json.dumps(self.user_vars, sort_keys=True, indent=4))
 
     def check_write(self, data_path=None):
diff --git a/src/pyg2p/util/files.py b/src/pyg2p/util/files.py
index 492f73a..9e3b0dd 100644
--- a/src/pyg2p/util/files.py
+++ b/src/pyg2p/util/files.py
@@ -1,6 +1,8 @@
 import re
 import shutil as sh
 import os
+import tempfile
+from contextlib import contextmanager
 from functools import partial
 
 
@@ -88,6 +90,21 @@ def copy(file_, to_dir, backup=False):
     sh.copy(file_, to_dir)
 
 
+@contextmanager
+def replacing(pathname):
+    """
+    Path of a temporary file to write, which replaces the file only when it is complete
+    """
+    pathname = os.path.realpath(pathname)
+    folder, name = dir_filename(pathname)
+    with tempfile.TemporaryDirectory(prefix='.new', dir=folder) as temp_folder:
+        temp_pathname = os.path.join(temp_folder, name)
+        yield temp_pathname
+        if exists(pathname):
+            sh.copymode(pathname, temp_pathname)
+        os.replace(temp_pathname, pathname)
+
+
 def copy_dir(source_dir, target_dir, recreate=False):
     create_dir(target_dir, recreate=recreate)
     if is_dir(source_dir):
-- 
2.43.0


From 6ae84e627c42f9091d68771ac3a7590e750a800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 097/100] fix: an interrupted run left truncated interpolation
 tables

---
 src/pyg2p/main/interpolation/__init__.py | 31 ++++++++++--------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index a3eceee..a40310a 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -285,12 +285,7 @@ class Interpolator(Loggable):
 
             # saving interpolation lookup table
             intertable = np.rec.fromarrays((indexes, weights), names=('indexes', 'coeffs'))
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
+            self._save_intertable(intertable, intertable_name)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
         else:
             raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=intertable_name)
@@ -332,12 +327,7 @@ class Interpolator(Loggable):
             self._log('\nInterpolating table not found\n Id: {}\nWill create file: {}'.format(intertable_id, intertable_name), 'WARN')
             xs, ys, idxs = getattr(grib_interpolation_lib, 'grib_nearest{}'.format('' if not self.parallel else '_parallel'))(gid, self._target_coords.lats, self._target_coords.lons, self._target_coords.mv)
             intertable = np.asarray([xs, ys, idxs])
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
+            self._save_intertable(intertable, intertable_name)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
         else:
             if intertable_id not in self.intertables_config.vars:
@@ -387,12 +377,7 @@ class Interpolator(Loggable):
             coeffs = np.asarray([coeffs1, coeffs2, coeffs3, coeffs4, np.zeros(coeffs1.shape), np.zeros(coeffs1.shape)])
             intertable = np.rec.fromarrays((indexes, coeffs), names=('indexes', 'coeffs'))
             # saving interpolation lookup table
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
+            self._save_intertable(intertable, intertable_name)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
 
         else:
@@ -408,6 +393,16 @@ class Interpolator(Loggable):
         result[xs, ys] = pyg2p.util.numeric.result_masked(res, self.mv_output)
         return result
 
+    @staticmethod
+    def _save_intertable(intertable, intertable_name):
+        # an interrupted run would leave a truncated table
+        with pyg2p.util.files.replacing(intertable_name) as temp_file:
+            if intertable_name.endswith('.gz'):
+                with gzip.GzipFile(temp_file, 'w') as f:
+                    np.save(f, intertable)
+            else:
+                np.save(temp_file, intertable)
+
     def update_intertable_conf(self, intertable, intertable_id, intertable_name, source_shape):
         self._LOADED_INTERTABLES[intertable_name] = (self._intertable_stamp(intertable_name), intertable)
         new_intertable_conf_item = {'filename': pyg2p.util.files.filename(intertable_name),
-- 
2.43.0


From 6bd8a8556863aaedab51f258e77358901294026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:48 +0000
Subject: [PATCH 098/100] fix: netCDF files which could not be completed ended
 in an unhandled exception

---
 src/pyg2p/main/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 0c1c7ad..f0bc522 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -59,7 +59,12 @@ def execute(exc_ctx):
         ret_value = 1
     finally:
         if ctrl:
-            ctrl.close()
+            try:
+                ctrl.close()
+            except Exception as err:
+                # e.g. no space left for the end of the file
+                logger.error(f'\n\nError: {err}', exc_info=True)
+                ret_value = 1
     return ret_value
 
 
-- 
2.43.0


From d802693420533dd65090a70f3df2fbc5b29bfe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:48 +0000
Subject: [PATCH 099/100] fix: runs at the same time took tables of each other,
 and lost entries of registries

---
 src/pyg2p/main/config.py                 | 37 ++++++++++++++++++++----
 src/pyg2p/main/interpolation/__init__.py | 22 ++++++++++----
 src/pyg2p/util/files.py                  | 21 +++++++++++++-
 3 files changed, 67 insertions(+), 13 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 80fcb68..a044211 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -2,6 +2,7 @@ import json
 import os
 import re
 import tempfile
+from contextlib import contextmanager
 from copy import deepcopy
 from ftplib import FTP
 import itertools
@@ -111,6 +112,7 @@ class BaseConfiguration(pyg2p.Loggable):
 
         self.vars = self.load_global()
         self.user_vars = {}
+        self._has_lock = False
         self._log(f'Check configuration: [{self.__class__.__name__}]')
         if self.global_data_path_var:
             self.global_data_path = GlobalConf.get_instance(user_configuration).vars.get(self.global_data_path_var)
@@ -130,12 +132,14 @@ class BaseConfiguration(pyg2p.Loggable):
     def merge_with_user_conf(self):
         # it overwrites global config. If not config file for user is found, it creates an empty one.
         if not file_util.exists(self.config_file):
-            self.user_vars = {'description': self.description}
-            if self.init_dict:
-                self.user_vars.update(self.init_dict)
-            self.dump()
-        else:
-            self.user_vars = self._load()
+            with self.lock():
+                # others could have created it in the meantime
+                if not file_util.exists(self.config_file):
+                    self.user_vars = {'description': self.description}
+                    if self.init_dict:
+                        self.user_vars.update(self.init_dict)
+                    self.dump()
+        self.user_vars = self._load()
         self.vars.update(self.user_vars)
 
     def _load(self, config_file=None):
@@ -156,6 +160,19 @@ class BaseConfiguration(pyg2p.Loggable):
         self.vars = self.load_global()
         self.merge_with_user_conf()
 
+    @contextmanager
+    def lock(self):
+        # changes by other processes wait until the end of this one
+        if self._has_lock:
+            yield
+            return
+        with file_util.locked(self.user_configuration.config_dir):
+            self._has_lock = True
+            try:
+                yield
+            finally:
+                self._has_lock = False
+
     def dump(self):
         # an interrupted run would leave a truncated file
         with file_util.replacing(self.config_file) as temp_file, open(temp_file, 'w') as f:
@@ -245,6 +262,10 @@ class GeopotentialsConfiguration(BaseConfiguration):
     description = 'Config file for geopotentials. Do NOT edit this file!'
 
     def add(self, filepath):
+        with self.lock():
+            self._add(filepath)
+
+    def _add(self, filepath):
         self.refresh()
         args = {'shortName': self.short_names}
         id_ = GRIBReader.get_id(filepath, reader_args=args)
@@ -271,6 +292,10 @@ class GeopotentialsConfiguration(BaseConfiguration):
         self.dump()
 
     def remove(self, filename):
+        with self.lock():
+            self._remove(filename)
+
+    def _remove(self, filename):
         self.refresh()
         for g in self.user_vars.keys():
             if self.user_vars[g] == filename:
diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index a40310a..a37715e 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -285,8 +285,7 @@ class Interpolator(Loggable):
 
             # saving interpolation lookup table
             intertable = np.rec.fromarrays((indexes, weights), names=('indexes', 'coeffs'))
-            self._save_intertable(intertable, intertable_name)
-            self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
+            self._add_intertable(intertable, intertable_id, intertable_name, grid_id, v.shape)
         else:
             raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=intertable_name)
 
@@ -315,6 +314,7 @@ class Interpolator(Loggable):
             else:
                 self.grib_nearest(self._aux_val, self._aux_gid, grid_id,
                                   intertable_name=intertable_name, intertable_id=intertable_id)
+            intertable_id, intertable_name = self._intertable_filename(grid_id)
 
         if self._intertable_exists(intertable_name):
             # interpolation using intertables
@@ -327,8 +327,7 @@ class Interpolator(Loggable):
             self._log('\nInterpolating table not found\n Id: {}\nWill create file: {}'.format(intertable_id, intertable_name), 'WARN')
             xs, ys, idxs = getattr(grib_interpolation_lib, 'grib_nearest{}'.format('' if not self.parallel else '_parallel'))(gid, self._target_coords.lats, self._target_coords.lons, self._target_coords.mv)
             intertable = np.asarray([xs, ys, idxs])
-            self._save_intertable(intertable, intertable_name)
-            self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
+            self._add_intertable(intertable, intertable_id, intertable_name, grid_id, v.shape)
         else:
             if intertable_id not in self.intertables_config.vars:
                 d = {'filename': pyg2p.util.files.filename(intertable_name),
@@ -358,6 +357,7 @@ class Interpolator(Loggable):
                 aux_val = self._aux_2nd_res_val
             self.grib_inverse_distance(aux_val, aux_gid, grid_id, intertable_name=intertable_name,
                                        intertable_id=intertable_id, is_second_res=is_second_res)
+            intertable_id, intertable_name = self._intertable_filename(grid_id)
 
         if self._intertable_exists(intertable_name):
             # interpolation using intertables
@@ -377,8 +377,7 @@ class Interpolator(Loggable):
             coeffs = np.asarray([coeffs1, coeffs2, coeffs3, coeffs4, np.zeros(coeffs1.shape), np.zeros(coeffs1.shape)])
             intertable = np.rec.fromarrays((indexes, coeffs), names=('indexes', 'coeffs'))
             # saving interpolation lookup table
-            self._save_intertable(intertable, intertable_name)
-            self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
+            self._add_intertable(intertable, intertable_id, intertable_name, grid_id, v.shape)
 
         else:
             if intertable_id not in self.intertables_config.vars:
@@ -393,6 +392,17 @@ class Interpolator(Loggable):
         result[xs, ys] = pyg2p.util.numeric.result_masked(res, self.mv_output)
         return result
 
+    def _add_intertable(self, intertable, intertable_id, intertable_name, grid_id, source_shape):
+        with self.intertables_config.lock():
+            if intertable_id.startswith(self._prefix):
+                # while it was computed, others could have taken its name, or created the same table
+                self.intertables_config.refresh()
+                _, intertable_name = self._intertable_filename(grid_id)
+                if self._intertable_exists(intertable_name):
+                    return
+            self._save_intertable(intertable, intertable_name)
+            self.update_intertable_conf(intertable, intertable_id, intertable_name, source_shape)
+
     @staticmethod
     def _save_intertable(intertable, intertable_name):
         # an interrupted run would leave a truncated table
diff --git a/src/pyg2p/util/files.py b/src/pyg2p/util/files.py
index 9e3b0dd..7742401 100644
--- a/src/pyg2p/util/files.py
+++ b/src/pyg2p/util/files.py
@@ -1,3 +1,4 @@
+import fcntl
 import re
 import shutil as sh
 import os
@@ -61,7 +62,8 @@ def can_read(pathnames):
 
 def create_dir(pathname, recreate=False):
     if not os.path.exists(pathname):
-        os.makedirs(pathname)
+        # it could be created by others in the meantime
+        os.makedirs(pathname, exist_ok=True)
     elif recreate:
         delete_files_from_dir(pathname)
         os.rmdir(pathname)
@@ -90,6 +92,23 @@ def copy(file_, to_dir, backup=False):
     sh.copy(file_, to_dir)
 
 
+@contextmanager
+def locked(folder):
+    """
+    Other processes which lock the same folder wait
+    """
+    fd = os.open(folder, os.O_RDONLY)
+    try:
+        try:
+            fcntl.flock(fd, fcntl.LOCK_EX)
+        except OSError:
+            # not all file systems have locks
+            pass
+        yield
+    finally:
+        os.close(fd)
+
+
 @contextmanager
 def replacing(pathname):
     """
-- 
2.43.0


From a7da23c0a9c481d2827ada5036f18993c704f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:49 +0000
Subject: [PATCH 100/100] fix: latitude maps larger than the longitude map were
 accepted

---
 src/pyg2p/main/interpolation/latlong.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/latlong.py b/src/pyg2p/main/interpolation/latlong.py
index dc91d16..1f0a4e6 100644
--- a/src/pyg2p/main/interpolation/latlong.py
+++ b/src/pyg2p/main/interpolation/latlong.py
@@ -1,7 +1,7 @@
 import logging
 
 from pyg2p import Loggable
-from pyg2p.exceptions import ApplicationException, INVALID_INTERPOL_METHOD
+from pyg2p.exceptions import ApplicationException, INVALID_INTERPOL_METHOD, WEIRD_STUFF
 from pyg2p.main.readers.pcr import PCRasterReader
 from pyg2p.main.readers.netcdf import NetCDFReader
 from netCDF4 import default_fillvals
@@ -37,6 +37,8 @@ class LatLong(Loggable):
             self._id = f'{reader.identifier()}_{reader2.identifier()}'
             reader.close()
             reader2.close()
+            if self.lats.shape != self.lons.shape:
+                raise ApplicationException.get_exc(WEIRD_STUFF, f'{lat_map} and {long_map} have different sizes: {self.lats.shape}, {self.lons.shape}')
 
     @property
     def identifier(self):
-- 
2.43.0

