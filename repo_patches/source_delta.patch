From 7dcd734c7c4c660ce29a3420eb3b1691f9844da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 01/89] fix: progress step is never zero, so targets with fewer
 than 250 cells can be interpolated

---
 src/pyg2p/util/generics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/util/generics.py b/src/pyg2p/util/generics.py
index ef0046a..eda5f87 100644
--- a/src/pyg2p/util/generics.py
+++ b/src/pyg2p/util/generics.py
@@ -20,7 +20,7 @@ def is_callable(v):
 
 
 def progress_step_and_backchar(num_cells):
-    progress_step = int(num_cells / 250)
+    progress_step = max(1, int(num_cells / 250))
     back_char = '\r'
     if not stdout.isatty():
         # out is being redirected
-- 
2.43.0


From dc003a39d14b5c1c106003db03117683acbc3c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 02/89] fix: closing a netCDF writer that never opened its
 dataset does not fail

---
 src/pyg2p/main/writers/netcdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 1702511..dc0e503 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -183,5 +183,8 @@ class NetCDFWriter(Writer):
         return masked
 
     def close(self):
+        if self.nf is None:
+            # nothing was written
+            return
         self.nf.close()
         self._log(f'{self.filepath} written!', 'INFO')
-- 
2.43.0


From 48d41d77031f7affe1e9bd827bd018309b725dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 03/89] fix: netCDF output works with a clone map without
 missing cells

---
 src/pyg2p/main/writers/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index dc0e503..b119dc1 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -32,7 +32,7 @@ class NetCDFWriter(Writer):
         
         # add mask from clone map
         self.area = ma.masked_values(self.area, area.mv)
-        self._mask = ma.getmask(self.area)
+        self._mask = ma.getmaskarray(self.area)
         
         if lats_map.endswith('.nc'):
             if (lats_map!=lons_map):
-- 
2.43.0


From 2aec60e37ffc7a0f0bcfbc95413261374a9de8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 04/89] fix: GRIB missing values stay missing through scipy
 interpolation and netCDF output

---
 src/pyg2p/main/interpolation/__init__.py | 9 ++++-----
 src/pyg2p/main/writers/__init__.py       | 4 +++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 4e7b2f0..54a210f 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -144,8 +144,8 @@ class Interpolator(Loggable):
         # It gives (last_index + 1) from original values when value can't be computed.
         # These "last_index + 1" indexes are stored in intertable so we artificially add a missing value
         # v[last_index + 1] = mv
-        v = np.append(v, self.mv_output)
-        orig_mask = False if not isinstance(v, ma.core.MaskedArray) else v.mask
+        orig_mask = np.append(ma.getmaskarray(v), False) if isinstance(v, ma.core.MaskedArray) else False
+        v = np.append(ma.getdata(v), self.mv_output)
         if nnear == 1:
             if isinstance(orig_mask, np.ndarray):
                 result = ma.masked_where(orig_mask[indexes], v[indexes], copy=False)
@@ -155,9 +155,8 @@ class Interpolator(Loggable):
             result = np.einsum('ij,ij->i', weights, v[indexes])
             if isinstance(orig_mask, np.ndarray):
                 # there are masks. logic sum of masks from all values used
-                mask = None
-                for i in range(0, indexes.shape[1]):
-                    mask = orig_mask[indexes.T[i]] if mask is None else mask | orig_mask[indexes.T[i]]
+                # (values with weight zero do not contribute to the result)
+                mask = np.any(orig_mask[indexes] & (weights != 0), axis=1)
                 result = ma.masked_where(mask, result, copy=False)
         return result
 
diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 41c20f3..f93c81f 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -3,6 +3,7 @@ import abc
 import collections
 
 import numpy as np
+import numpy.ma as ma
 
 from pyg2p import Loggable
 from pyg2p.main.interpolation import Interpolator
@@ -70,7 +71,8 @@ class OutputWriter(Loggable):
             time_values.append(timestep.end_step)
         # prepare values for netcdf writing
         time_values = np.array(time_values, dtype=np.int32)
-        out_values = np.array(out_values, dtype=np.float64)
+        # keep masks of missing values
+        out_values = ma.array(out_values, dtype=np.float64)
         out_filename = self._name_netcdf_file()
         var_args = dict(prefix=self.ctx.get('outMaps.namePrefix'),
                         unit=self.ctx.get('parameter.conversionUnit'),
-- 
2.43.0


From ae04bbbc4f87150845a1f4cf3ba2efbd7a4efa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 05/89] fix: bilinear_delaunay tracks neighbours of every
 triangle

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 7760424..06aa231 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1437,7 +1437,7 @@ class ScipyInterpolation(object):
             # add the fourth point to each idxs[nn] from the near triangle on the longest side
             idxs = np.column_stack((idxs,empty(idxs.shape[0],-1,dtype=idxs.dtype)))
             idxs_tri_neighbors = tri.neighbors[idxs_tri]
-            idxs_tri_neighbors_to_use = empty(idxs_tri_neighbors.max()+1,-1,dtype=idxs_tri.dtype)
+            idxs_tri_neighbors_to_use = empty(tri.simplices.shape[0],-1,dtype=idxs_tri.dtype)
 
         for nn in range(len(idxs_tri)):
             if nn % progress_step == 0:
-- 
2.43.0


From 563028c28ef5ccf43418fe1a612459f5ec07ac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 06/89] fix: grib_invdist on an exact grid point does not
 depend on the first grid point

---
 src/pyg2p/main/interpolation/grib_interpolation_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 6f4febb..9852f6f 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -134,9 +134,9 @@ def _compute_coeffs_and_idxs(n_nearest):
     inv3 = (1 / n_nearest[2]['distance']) if not exact_position else 0
     inv4 = (1 / n_nearest[3]['distance']) if not exact_position else 0
     idx1 = n_nearest[0]['index'] if not exact_position else n_nearest[exact_position_idx]['index']
-    idx2 = n_nearest[1]['index'] if not exact_position else 0
-    idx3 = n_nearest[2]['index'] if not exact_position else 0
-    idx4 = n_nearest[3]['index'] if not exact_position else 0
+    idx2 = n_nearest[1]['index'] if not exact_position else n_nearest[exact_position_idx]['index']
+    idx3 = n_nearest[2]['index'] if not exact_position else n_nearest[exact_position_idx]['index']
+    idx4 = n_nearest[3]['index'] if not exact_position else n_nearest[exact_position_idx]['index']
     return inv1, inv2, inv3, inv4, idx1, idx2, idx3, idx4
 
 
-- 
2.43.0


From 52b6201f55ba02882184668b2af09761bfc83fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 07/89] fix: accumulation interpolates the start of an interval
 at that step, not at the end of the interval

---
 src/pyg2p/main/manipulation/aggregator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 640bed6..0883dee 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -125,7 +125,8 @@ class Aggregator(Loggable):
 
                     if self._logger.isEnabledFor(logging.DEBUG):
                         self._log(f'Creating message grib[{iter_ - self._aggregation_step}]=grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({iter_}-{originalts})/({next_ts}-{originalts}))')
-                    v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((iter_ - originalts)/(next_ts-originalts))')
+                    prev_ = iter_ - self._aggregation_step
+                    v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((prev_ - originalts)/(next_ts-originalts))')
                     v_ord[iter_ - self._aggregation_step] = ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
 
             if iter_ - self._aggregation_step == 0 and self._force_zero:
-- 
2.43.0


From 8689d2516a5d77995affcfa4ed0327ff4e6faf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 08/89] fix: accumulation before the first message starts from
 zero at step 0 and keeps steps ordered

---
 src/pyg2p/main/manipulation/aggregator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 0883dee..59db76a 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -84,8 +84,12 @@ class Aggregator(Loggable):
             self._start = self._aggregation_step
 
         created_zero_array = False
+        if self._start - self._aggregation_step < min(v_ord):
+            # steps before the first message: values accumulate from zero at step 0
+            self._log('Message 0 not in dataset. Creating it as zero values array')
+            v_ord[0] = np.zeros(shape_iter)
         for iter_ in range(self._start, self._end + 1, self._aggregation_step):
-            v_ord_keys = list(v_ord.keys())
+            v_ord_keys = sorted(v_ord.keys())
             if iter_ not in v_ord_keys:
 
                 ind_next_ts = bisect.bisect_left(v_ord_keys, iter_)
-- 
2.43.0


From 6effba89ebc3e8db7f5d087dd8c2beb90bb40cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 09/89] fix: aggregated values stay missing where messages are
 missing (accumulation, instantaneous)

---
 src/pyg2p/main/manipulation/aggregator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 59db76a..9d31e48 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -144,8 +144,7 @@ class Aggregator(Loggable):
 
             # variables needed for numexpr evaluator namespace. DO NOT DELETE!!!
             # need to create the out array first as zero array, for issue in missing values for certain gribs
-            v_iter_ma = np.zeros(shape_iter)
-            v_iter_ma += v_ord[iter_]
+            v_iter_ma = np.zeros(shape_iter) + v_ord[iter_]
             _unit_time = self._unit_time
             _aggr_step = self._aggregation_step
             key = Step(iter_ - self._aggregation_step, iter_, resolution, self._aggregation_step, level)
@@ -266,7 +265,7 @@ class Aggregator(Loggable):
                 if iter_ in v_ord_keys:
                     if self._logger.isEnabledFor(logging.DEBUG):
                         self._log(f'out[{key}] = grib[{iter_}]')
-                    res_inst += v_ord[iter_]
+                    res_inst = res_inst + v_ord[iter_]
                 else:
                     if iter_ == 0:
                         # left out as zero arrays if 0 step is not in the grib
@@ -278,7 +277,7 @@ class Aggregator(Loggable):
                         next_ = list(v_ord_keys)[ind_next_]
                         if self._logger.isEnabledFor(logging.DEBUG):
                             self._log(f'out[{key}] = grib[{next_}]')
-                        res_inst += v_ord[next_]
+                        res_inst = res_inst + v_ord[next_]
                 out_values[key] = res_inst
 
             return out_values
-- 
2.43.0


From fc713f67a0b17a77bbfbe950975ea0ab8ea43608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 10/89] fix: average from step 0 does not read past the last
 step

---
 src/pyg2p/main/manipulation/aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 9d31e48..cbafa63 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -171,7 +171,7 @@ class Aggregator(Loggable):
             v_ord = collections.OrderedDict(sorted(dict((k.end_step, v_) for (k, v_) in values.items()).items(), key=lambda k: k))
             if self._start == 0 or self._second_t_res:
                 iter_start = self._start
-                iter_end = self._end - self._aggregation_step + 2       # CR: TODO: check if +2 instead of +1 is actually needed
+                iter_end = self._end - self._aggregation_step + 1
             else:
                 iter_start = self._start - self._aggregation_step
                 iter_end = self._end - self._aggregation_step + 1
-- 
2.43.0


From 1fdfea3c756de18c9a6fb25efe683253ce2bde22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 11/89] fix: averages are missing where the averaged messages
 are missing

---
 src/pyg2p/main/manipulation/aggregator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index cbafa63..27ca772 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -185,6 +185,7 @@ class Aggregator(Loggable):
                     iter_to = iter_ + self._aggregation_step + 1
                 temp_sum = np.zeros(shape_iter)
                 sum_counter = 0.0
+                used = []  # values used in this average
                 v_ord_keys = list(v_ord.keys())
 
                 if self._aggregation_halfweights:
@@ -208,6 +209,7 @@ class Aggregator(Loggable):
                                     v_ma = v_ord[iterator_avg]*dt1
                                     print("Iterator: {} weight: {}".format(iterator_avg,dt1))
                                     sum_counter += dt1
+                                used.append(v_ma)
                                 ne.evaluate('temp_sum + v_ma', out=temp_sum)
                 else:
                     for iterator_avg in range(iter_from, iter_to, 1):
@@ -225,6 +227,7 @@ class Aggregator(Loggable):
                             v_ma = v_ord[next_]
                             sum_counter += 1
                             print("Iterator: {} weight: 1".format(next_))
+                        used.append(v_ma)
                         ne.evaluate('temp_sum + v_ma', out=temp_sum)
 
                 # mask result with all maskes from GRIB original values used in average (if existing any)
@@ -233,7 +236,7 @@ class Aggregator(Loggable):
                 print("dividing sum by {}".format(sum_counter))
                 res = ne.evaluate('temp_sum/sum_counter')
                 # mask result with all maskes from GRIB original values used in average (if existing any)
-                out_values[key] = ma.masked_where(numeric.get_masks(v_ord.values()), res, copy=False)
+                out_values[key] = ma.masked_where(numeric.get_masks(*used), res, copy=False)
                 if self._logger.isEnabledFor(logging.DEBUG):
                     self._log(f'out[{key}] = temp_sum/{sum_counter}')
 
-- 
2.43.0


From 144b58d524745fa88aa9ae0d69547c2ec7307a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 12/89] fix: cutting off negative values keeps missing values

---
 src/pyg2p/main/manipulation/conversion.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/manipulation/conversion.py b/src/pyg2p/main/manipulation/conversion.py
index 2a3cdd6..fdd6c9e 100644
--- a/src/pyg2p/main/manipulation/conversion.py
+++ b/src/pyg2p/main/manipulation/conversion.py
@@ -45,12 +45,19 @@ class Converter(Loggable):
         self._log('Cutting off negative values...')
         if isinstance(xs, dict):
             for timestep, values in xs.items():
-                xs[timestep] = ne.evaluate('where(values<0, 0, values)')
+                xs[timestep] = self._keep_mask(values, ne.evaluate('where(values<0, 0, values)'))
         else:
             values = xs
-            xs = ne.evaluate('where(values<0, 0, values)')
+            xs = self._keep_mask(values, ne.evaluate('where(values<0, 0, values)'))
         return xs
 
+    @staticmethod
+    def _keep_mask(values, res):
+        # preserve maskes as numexpr just ignores them
+        if isinstance(values, ma.core.MaskedArray):
+            res = ma.masked_where(values.mask, res, copy=False)
+        return res
+
     def __str__(self):
         log_mess = "\nConverting values from units {}. " \
                    "\nFunction: {}" \
-- 
2.43.0


From 2ecbc3939e0c7c0b733817d1bed2dde4f240425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 13/89] fix: conversion functions may contain comparisons with
 x

---
 src/pyg2p/main/manipulation/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/conversion.py b/src/pyg2p/main/manipulation/conversion.py
index fdd6c9e..199826d 100644
--- a/src/pyg2p/main/manipulation/conversion.py
+++ b/src/pyg2p/main/manipulation/conversion.py
@@ -18,7 +18,7 @@ class Converter(Loggable):
             if self._function_str == 'x=x':
                 self._identity = True
             else:
-                self._numexpr_eval = 'where(x!=mv, {}, mv)'.format(self._function_str.replace('x=', ''))
+                self._numexpr_eval = 'where(x!=mv, {}, mv)'.format(self._function_str.replace('x=', '', 1))
 
     def set_unit_to_convert(self, unit):
         self._initial_unit = unit
-- 
2.43.0


From b4d0fed10f077785c60131deb3984cc1a12baebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 14/89] fix: a corrector is reused only for the same formulas,
 geopotential and interpolation

---
 src/pyg2p/main/manipulation/correction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 2d17d40..37444a0 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -27,7 +27,9 @@ class Corrector(Loggable):
     def get_instance(cls, ctx, grid_id):
         geo_file_ = ctx.geo_file(grid_id)
         dem_map = ctx.get('correction.demMap')
-        key = f'{grid_id}{dem_map}'
+        # an instance holds the formulas and the geopotential interpolated on the target grid
+        key = (grid_id, dem_map, geo_file_, ctx.get('correction.formula'), ctx.get('correction.gemFormula'),
+               ctx.get('interpolation.mode'), ctx.get('interpolation.latMap'), ctx.get('interpolation.lonMap'))
         if key in cls.instances:
             return cls.instances[key]
         else:
-- 
2.43.0


From cc1d53e06d066ec186f3f9de7a8c3ff9b6565e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 15/89] fix: corrected maps are missing where the dem, the
 values or the geopotential are missing

---
 src/pyg2p/main/manipulation/correction.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 37444a0..119a4e7 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -81,6 +81,10 @@ class Corrector(Loggable):
             values = ne.evaluate(self._numexpr_eval)
             # mask out values (here is already output values with destination shape)
             values = ma.masked_where(pyg2p.util.numeric.get_masks(p), values)
+            # cells missing in the dem, the values or the geopotential are missing whatever the output format
+            for missing in (ma.getdata(values) == mv, ma.getdata(p) == self._mv_interpolated,
+                            ma.getdata(gem) == self._mv_interpolated, ma.getmaskarray(gem)):
+                values = ma.masked_where(missing, values, copy=False)
         return values
 
     def _read_geo(self, grib_file, ctx):
@@ -92,6 +96,7 @@ class Corrector(Loggable):
         values = geopotential_gribs.first_resolution_values()[geopotential_gribs.first_step_range]
         aux_g, aux_v, aux_g2, aux_v2 = reader.get_gids_for_grib_intertable()
         interpolator = Interpolator(ctx, missing)
+        self._mv_interpolated = interpolator.mv_output
         interpolator.aux_for_intertable_generation(aux_g, aux_v, aux_g2, aux_v2)
 
         # get temp from geopotential. will be gem in the formula
-- 
2.43.0


From 5a06804701347e9beff340c3ca30705b74383238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 16/89] fix: option -g adds a geopotential

---
 src/pyg2p/main/api.py     | 2 +-
 src/pyg2p/main/context.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index aaf78de..04707b2 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -122,7 +122,7 @@ class ApiContext(Context):
         self._vars['input.file2'] = self.api_conf.get('inputFile2')
         self._vars['input.two_resolution'] = bool(self._vars['input.file2'])
         self._vars['geopotential'] = self.api_conf.get('addGeopotential')
-        self._to_add_geopotential = bool(self._vars['geopotential'])
+        self.to_add_geopotential = bool(self._vars['geopotential'])
         self._vars['download_configuration'] = self.api_conf.get('downloadConf')
         self._vars['under_api'] = True
         self._vars['check_conf'] = self.api_conf.get('checkConf')
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 92be2fc..3ebc67b 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -240,7 +240,7 @@ class ExecutionContext(Context):
         self._vars['input.file2'] = parsed_args['inputFile2']
         self._vars['input.two_resolution'] = bool(self._vars['input.file2'])
         self._vars['geopotential'] = parsed_args['addGeopotential']
-        self._to_add_geopotential = bool(self._vars['geopotential'])
+        self.to_add_geopotential = bool(self._vars['geopotential'])
         self._vars['download_configuration'] = parsed_args['downloadConf']
         self._vars['under_api'] = parsed_args['underApi']
         self._vars['check_conf'] = parsed_args['checkConf']
-- 
2.43.0


From 04b95d8b96b502d0d0e0a459b7896401835da8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 17/89] fix: options -W and -K run their configuration command

---
 src/pyg2p/main/__init__.py | 4 ++--
 src/pyg2p/main/context.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 7febe4f..02e6325 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -61,7 +61,7 @@ def config_command(exc_ctx):
     if exc_ctx.to_download_conf:  # -W
         # download configuration
         dataset = exc_ctx.get('download_configuration')
-        conf.download_data(dataset, logger)
+        conf.download_data(dataset)
         logger.info('Configuration downloaded.')
 
     elif exc_ctx.to_add_geopotential:  # -g
@@ -72,4 +72,4 @@ def config_command(exc_ctx):
 
     elif exc_ctx.to_check_conf:  # -K
         # check unused intertables (intertables that are not in configuration and can be deleted
-        conf.to_check_conf()
+        conf.check_conf()
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 3ebc67b..052b67c 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -86,7 +86,7 @@ class Context:
             if not files.exists(self._vars['geopotential']):
                 raise ApplicationException.get_exc(7001, self._vars['geopotential'])
 
-        else:
+        elif not (self.to_download_conf or self.to_check_conf):
 
             if not self._vars.get('input.file'):
                 raise ApplicationException.get_exc(MISSING_INPUT_GRIB)
-- 
2.43.0


From 672f8069f3694d1d69755eb4eb9c3c409a9b84a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 18/89] fix: an execution that cannot be set up reports its own
 error

---
 src/pyg2p/main/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 02e6325..df64b4e 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -51,7 +51,8 @@ def execute(exc_ctx):
         if not err.code == NO_MESSAGES:
             ret_value = 1
     finally:
-        ctrl.close()
+        if ctrl:
+            ctrl.close()
     return ret_value
 
 
-- 
2.43.0


From bb43270aa7e8d39826159fff1bd94339608bc5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 19/89] fix: time of data is read for every hour of the day

---
 src/pyg2p/__init__.py          | 4 ++--
 src/pyg2p/main/readers/grib.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/__init__.py b/src/pyg2p/__init__.py
index 463f295..aa9de94 100644
--- a/src/pyg2p/__init__.py
+++ b/src/pyg2p/__init__.py
@@ -145,7 +145,7 @@ class GribGridDetails(Loggable):
 
 class Messages(Loggable):
 
-    def __init__(self, values, mv, unit, type_of_level, type_of_step, step_units, grid_details, val_2nd=None, data_date=None, data_time='0'):
+    def __init__(self, values, mv, unit, type_of_level, type_of_step, step_units, grid_details, val_2nd=None, data_date=None, data_time='0000'):
         super().__init__()
         self.values_first_or_single_res = values
         self.values_second_res = val_2nd or {}
@@ -154,7 +154,7 @@ class Messages(Loggable):
         self.type_of_level = type_of_level
         self.unit = unit
         self.missing_value = mv
-        self.data_date = datetime.strptime(f'{data_date}{data_time}', '%Y%m%d%H')
+        self.data_date = datetime.strptime(f'{data_date}{data_time}', '%Y%m%d%H%M')
 
         self.grid_details = grid_details
         # order key list to get first step
diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index a4abd63..7502c47 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -208,7 +208,7 @@ class GRIBReader(Loggable):
             if grid2:
                 key_2nd_spatial_res = min(all_values_second_res.keys())
                 grid.set_2nd_resolution(grid2, key_2nd_spatial_res)
-            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=str(data_time)[:2])
+            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=f'{int(data_time):04d}')
         # no messages found
         else:
             raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {kwargs}')
-- 
2.43.0


From f2c83cb74cb0c7772b8d4c142cf755bd40ad9eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 20/89] fix: checking the configuration works with the
 description entry and without data folders

---
 src/pyg2p/main/config.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index f7d4f81..e09131a 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -334,13 +334,13 @@ class Configuration(pyg2p.Loggable):
     def check_conf(self):
         # it logs all files in intertables and geopotentials paths that are not used in configuration
 
-        used_intertables = [i['filename'] for i in self.intertables.vars.values()]
+        used_intertables = [i['filename'] for i in self.intertables.vars.values() if isinstance(i, dict)]
         used_geopotentials = self.geopotentials.vars.values()
 
-        intertables_folder_content = file_util.ls(self.intertables.data_path, 'npy')
-        intertables_global_folder_content = file_util.ls(self.intertables.global_data_path, 'npy')
-        geopotentials_folder_content = file_util.ls(self.geopotentials.data_path, 'npy')
-        geopotentials_global_folder_content = file_util.ls(self.geopotentials.global_data_path, 'npy')
+        intertables_folder_content = file_util.ls(self.intertables.data_path, 'npy') if self.intertables.data_path else []
+        intertables_global_folder_content = file_util.ls(self.intertables.global_data_path, 'npy') if self.intertables.global_data_path else []
+        geopotentials_folder_content = file_util.ls(self.geopotentials.data_path, 'npy') if self.geopotentials.data_path else []
+        geopotentials_global_folder_content = file_util.ls(self.geopotentials.global_data_path, 'npy') if self.geopotentials.global_data_path else []
         for f in itertools.chain(intertables_folder_content, intertables_global_folder_content):
             if file_util.filename(f) not in used_intertables:
                 self._log(f'Intertable file is not in configuration: {f} - You could delete it')
@@ -351,8 +351,11 @@ class Configuration(pyg2p.Loggable):
 
         user_intertables = deepcopy(self.intertables.user_vars)
         for k, i in user_intertables.items():
+            if not isinstance(i, dict) or not self.intertables.data_path:
+                # description of the file or folder of tables unknown
+                continue
             fullpath = os.path.join(self.intertables.data_path, i['filename'])
-            if not file_util.exists(fullpath):
+            if not (file_util.exists(fullpath) or file_util.exists(fullpath + '.gz')):
                 self._log(f'{fullpath} - Non existing. Removing item from intertables.json')
                 del self.intertables.user_vars[k]
         self.intertables.dump()
-- 
2.43.0


From bfc91426604b716961649f326a70df614547c789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 21/89] fix: user variables may contain the = character; lines
 without a value are ignored

---
 src/pyg2p/main/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index e09131a..1c25c48 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -58,8 +58,9 @@ class UserConfiguration(pyg2p.Loggable):
             for line in f:
                 line = line.strip()
                 if line and not line.startswith(self.comment_char):
-                    key_value = line.split(self.sep)
-                    props[key_value[0].strip()] = key_value[1].strip('" \t')
+                    key, sep, value = line.partition(self.sep)
+                    if sep:
+                        props[key.strip()] = value.strip('" \t')
         return props
 
     def interpolate_strings(self, ctx):
-- 
2.43.0


From e31d086f86c65338843a63b161ef7f40a0a1653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 22/89] fix: undefined user variables are reported, also with
 digits in the name

---
 src/pyg2p/main/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 1c25c48..cf87c37 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -30,7 +30,7 @@ class UserConfiguration(pyg2p.Loggable):
     sep = '='
     comment_char = '#'
     conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap')
-    re_var = re.compile(r'{(?P<var>[a-zA-Z_]+)}')
+    re_var = re.compile(r'{(?P<var>[a-zA-Z_][a-zA-Z0-9_]*)}')
     geopotentials_path_var = 'GEOPOTENTIALS'
     intertables_path_var = 'INTERTABLES'
 
@@ -75,7 +75,7 @@ class UserConfiguration(pyg2p.Loggable):
         vars_with_variables = [var for var in self.conf_to_interpolate if self.re_var.search(ctx.get(var, ''))]
         for var in vars_with_variables:
             # we can have multiple variables {CONF_DIR}/{MAPS_DIR}lat.map
-            ctx[var] = ctx[var].format(**self.vars)
+            ctx[var] = self.re_var.sub(lambda m: str(self.vars.get(m.group('var'), m.group(0))), ctx[var])
             if self.re_var.search(ctx[var]):
                 # some variables where not string-interpolated so they are missing in user configuration
                 vars_not_defined = self.re_var.findall(ctx[var])
-- 
2.43.0


From 8ebff2df71194cf70d1edd8abbffb023f6261767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 23/89] fix: an interrupted write does not destroy a user
 configuration file

---
 src/pyg2p/main/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index cf87c37..6eaa6be 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -141,9 +141,12 @@ class BaseConfiguration(pyg2p.Loggable):
             f.close()
 
     def dump(self):
-        with open(self.config_file, 'w') as f:
-            user_vars = self.user_vars or '{}'
+        # the file is replaced when completely written, so it is never found truncated
+        tmp_file = f'{self.config_file}.{os.getpid()}.tmp'
+        with open(tmp_file, 'w') as f:
+            user_vars = self.user_vars or {}
             f.write(json.dumps(user_vars, sort_keys=True, indent=4))
+        os.replace(tmp_file, self.config_file)
 
     def check_write(self):
         if not self.data_path:
-- 
2.43.0


From d5b5a59ea4aaeb90a0c7936e9aa9217089516a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 24/89] fix: an interrupted download is not taken as complete
 by the next one

---
 src/pyg2p/main/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 6eaa6be..23a97dd 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -330,8 +330,11 @@ class Configuration(pyg2p.Loggable):
                 self._log(f'[{i}/{numfiles}] Skipping existing file {f}', level='INFO')
                 continue
             self._log(f'[{i}/{numfiles}] Downloading {f}')
-            with open(local_filename, 'wb') as local_file:
+            # existing files are skipped: only complete files can have the final name
+            tmp_filename = f'{local_filename}.tmp'
+            with open(tmp_filename, 'wb') as local_file:
                 client.retrbinary(f'RETR {f}', local_file.write)
+            os.replace(tmp_filename, local_filename)
         self._log(f'=== Download finished: {remote_path}')
         client.quit()  # close FTP connection
 
-- 
2.43.0


From 9e9eaec401672c90ae7332b94e47aabe141c3adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 25/89] fix: adding a geopotential never overwrites the one of
 another grid; added and removed ones are seen at once

---
 src/pyg2p/main/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 23a97dd..e831c57 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -241,9 +241,14 @@ class GeopotentialsConfiguration(BaseConfiguration):
                                                        f'File was not added: {filepath}')
 
         name = file_util.filename(filepath)
+        if name in self.vars.values():
+            # it would overwrite the file of another grid
+            raise ApplicationException.get_exc(EXISTING_GEOPOTENTIAL,
+                                               details=f'{name} is used by another grid. File was not added: {filepath}')
         self.check_write()
 
         file_util.copy(filepath, self.data_path)
+        self.vars[id_] = name
         self.user_vars[id_] = name
         self.dump()
 
@@ -251,6 +256,7 @@ class GeopotentialsConfiguration(BaseConfiguration):
         for g in self.user_vars.keys():
             if self.user_vars[g] == filename:
                 del self.user_vars[g]
+                self.vars.pop(g, None)
                 self.dump()
                 break
 
-- 
2.43.0


From 91a8f0c713f880b5e456aea131ae56f91c820361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 26/89] fix: an interrupted write does not leave a truncated
 interpolation table

---
 src/pyg2p/main/interpolation/__init__.py | 29 +++++++++---------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 54a210f..1d0e298 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -248,12 +248,7 @@ class Interpolator(Loggable):
 
             # saving interpolation lookup table
             intertable = np.rec.fromarrays((indexes, weights), names=('indexes', 'coeffs'))
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
+            self._save_intertable(intertable, intertable_name)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
         else:
             raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=intertable_name)
@@ -293,12 +288,7 @@ class Interpolator(Loggable):
             self._log('\nInterpolating table not found\n Id: {}\nWill create file: {}'.format(intertable_id, intertable_name), 'WARN')
             xs, ys, idxs = getattr(grib_interpolation_lib, 'grib_nearest{}'.format('' if not self.parallel else '_parallel'))(gid, self._target_coords.lats, self._target_coords.lons, self._target_coords.mv)
             intertable = np.asarray([xs, ys, idxs])
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
+            self._save_intertable(intertable, intertable_name)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
         else:
             if intertable_id not in self.intertables_config.vars:
@@ -348,12 +338,7 @@ class Interpolator(Loggable):
             coeffs = np.asarray([coeffs1, coeffs2, coeffs3, coeffs4, np.zeros(coeffs1.shape), np.zeros(coeffs1.shape)])
             intertable = np.rec.fromarrays((indexes, coeffs), names=('indexes', 'coeffs'))
             # saving interpolation lookup table
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
+            self._save_intertable(intertable, intertable_name)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
 
         else:
@@ -369,6 +354,14 @@ class Interpolator(Loggable):
         result[xs, ys] = pyg2p.util.numeric.result_masked(res, self.mv_output)
         return result
 
+    @staticmethod
+    def _save_intertable(intertable, intertable_name):
+        # the table gets its name when completely written, so it is never found truncated
+        tmp_name = f'{intertable_name}.{os.getpid()}.tmp'
+        with (gzip.GzipFile(tmp_name, 'w') if intertable_name.endswith('.gz') else open(tmp_name, 'wb')) as f:
+            np.save(f, intertable)
+        os.replace(tmp_name, intertable_name)
+
     def update_intertable_conf(self, intertable, intertable_id, intertable_name, source_shape):
         self._LOADED_INTERTABLES[intertable_name] = intertable
         new_intertable_conf_item = {'filename': pyg2p.util.files.filename(intertable_name),
-- 
2.43.0


From 9bed145f3c4ec8bf944faa0fd0bfd4ddd65e3edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 27/89] fix: a new interpolation table never takes the file
 name of another one

---
 src/pyg2p/main/interpolation/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 1d0e298..3d57e61 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -75,7 +75,9 @@ class Interpolator(Loggable):
             filename = self.format_intertablename(prognum='')
             tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
             i = 1
-            while pyg2p.util.files.exists(tbl_fullpath):
+            # names of other tables in configuration are not free, even if their file is missing
+            used = [t['filename'] for t in self.intertables_config.vars.values() if isinstance(t, dict)]
+            while pyg2p.util.files.exists(tbl_fullpath) or filename in used:
                 filename = self.format_intertablename(prognum='_{}'.format(i))
                 tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
                 i += 1
-- 
2.43.0


From 5b2ab34a5fcbd75571b2248c923c85c3a01819e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 28/89] fix: compressed tables are found by grib_nearest and
 grib_invdist as by the other methods

---
 src/pyg2p/main/interpolation/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 3d57e61..158c422 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -102,6 +102,10 @@ class Interpolator(Loggable):
                 self._logger.warning(f'An entry in configuration was found for {filename} but intertable does not exist.')
         return intertable_id, tbl_fullpath
 
+    @staticmethod
+    def _intertable_exists(tbl_fullpath):
+        return pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')
+
     def _read_intertable(self, tbl_fullpath):
 
         if tbl_fullpath not in self._LOADED_INTERTABLES:
@@ -220,7 +224,7 @@ class Interpolator(Loggable):
         nnear = self.scipy_modes_nnear[self._mode]
 
         if (not DEBUG_ADW_INTERPOLATION) and \
-            (pyg2p.util.files.exists(intertable_name) or pyg2p.util.files.exists(intertable_name + '.gz')):
+            self._intertable_exists(intertable_name):
                 indexes, weights = self._read_intertable(intertable_name)
                 result = self._interpolate_scipy_append_mv(v, weights, indexes, nnear)
 
@@ -268,7 +272,7 @@ class Interpolator(Loggable):
             intertable_id, intertable_name = self._intertable_filename(grid_id)
         result = np.empty(self._target_coords.lons.shape)
         result.fill(self.mv_out)
-        if gid == -1 and not pyg2p.util.files.exists(intertable_name):
+        if gid == -1 and not self._intertable_exists(intertable_name):
             # calling recursive grib_nearest
             # aux_gid and aux_values are only used to create the interlookuptable
             if is_second_res:
@@ -279,7 +283,7 @@ class Interpolator(Loggable):
                 self.grib_nearest(self._aux_val, self._aux_gid, grid_id,
                                   intertable_name=intertable_name, intertable_id=intertable_id)
 
-        if pyg2p.util.files.exists(intertable_name):
+        if self._intertable_exists(intertable_name):
             # interpolation using intertables
             xs, ys, idxs = self._read_intertable(intertable_name)
 
@@ -311,7 +315,7 @@ class Interpolator(Loggable):
         result.fill(self.mv_out)
 
         # check if gid is due to the recursive call
-        if gid == -1 and not pyg2p.util.files.exists(intertable_name):
+        if gid == -1 and not self._intertable_exists(intertable_name):
             # aux_gid and aux_values are only used to create the interlookuptable
             # since manipulated values messages don't have gid reference to grib file any longer
             aux_gid = self._aux_gid
@@ -322,7 +326,7 @@ class Interpolator(Loggable):
             self.grib_inverse_distance(aux_val, aux_gid, grid_id, intertable_name=intertable_name,
                                        intertable_id=intertable_id, is_second_res=is_second_res)
 
-        if pyg2p.util.files.exists(intertable_name):
+        if self._intertable_exists(intertable_name):
             # interpolation using intertables
             xs, ys, idxs1, idxs2, idxs3, idxs4, coeffs1, coeffs2, coeffs3, coeffs4 = self._read_intertable(intertable_name)
         elif self.create_if_missing:
-- 
2.43.0


From 18fd6c1437305730462235e45a4dcad3c9ef6b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 29/89] fix: concurrent executions do not lose each other's
 interpolation tables nor share a table file

---
 src/pyg2p/main/config.py                 | 97 ++++++++++++++----------
 src/pyg2p/main/interpolation/__init__.py | 60 +++++++++------
 2 files changed, 96 insertions(+), 61 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index e831c57..6d7a91e 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -1,6 +1,8 @@
+import fcntl
 import json
 import os
 import re
+from contextlib import contextmanager
 from copy import deepcopy
 from ftplib import FTP
 import itertools
@@ -121,12 +123,14 @@ class BaseConfiguration(pyg2p.Loggable):
     def merge_with_user_conf(self):
         # it overwrites global config. If not config file for user is found, it creates an empty one.
         if not file_util.exists(self.config_file):
-            self.user_vars = {'description': self.description}
-            if self.init_dict:
-                self.user_vars.update(self.init_dict)
-            self.dump()
-        else:
-            self.user_vars = self._load()
+            with self.locked():
+                # it could have been created by another process in the meanwhile
+                if not file_util.exists(self.config_file):
+                    self.user_vars = {'description': self.description}
+                    if self.init_dict:
+                        self.user_vars.update(self.init_dict)
+                    self.dump()
+        self.user_vars = self._load()
         self.vars.update(self.user_vars)
 
     def _load(self, config_file=None):
@@ -140,6 +144,23 @@ class BaseConfiguration(pyg2p.Loggable):
         finally:
             f.close()
 
+    @contextmanager
+    def locked(self):
+        # the file is changed by one process at a time
+        with open(f'{self.config_file}.lock', 'w') as lock:
+            fcntl.flock(lock, fcntl.LOCK_EX)
+            yield
+
+    @contextmanager
+    def updating(self):
+        # other processes may have changed the file: it is read again before changing it
+        with self.locked():
+            if file_util.exists(self.config_file):
+                self.user_vars = self._load()
+                self.vars.update(self.user_vars)
+            yield
+            self.dump()
+
     def dump(self):
         # the file is replaced when completely written, so it is never found truncated
         tmp_file = f'{self.config_file}.{os.getpid()}.tmp'
@@ -235,30 +256,30 @@ class GeopotentialsConfiguration(BaseConfiguration):
     def add(self, filepath):
         args = {'shortName': self.short_names}
         id_ = GRIBReader.get_id(filepath, reader_args=args)
-        if id_ in self.vars:
-            raise ApplicationException.get_exc(EXISTING_GEOPOTENTIAL,
-                                               details=f'{id_} for file {self.vars[id_]}. '
-                                                       f'File was not added: {filepath}')
-
-        name = file_util.filename(filepath)
-        if name in self.vars.values():
-            # it would overwrite the file of another grid
-            raise ApplicationException.get_exc(EXISTING_GEOPOTENTIAL,
-                                               details=f'{name} is used by another grid. File was not added: {filepath}')
-        self.check_write()
-
-        file_util.copy(filepath, self.data_path)
-        self.vars[id_] = name
-        self.user_vars[id_] = name
-        self.dump()
+        with self.updating():
+            if id_ in self.vars:
+                raise ApplicationException.get_exc(EXISTING_GEOPOTENTIAL,
+                                                   details=f'{id_} for file {self.vars[id_]}. '
+                                                           f'File was not added: {filepath}')
+
+            name = file_util.filename(filepath)
+            if name in self.vars.values():
+                # it would overwrite the file of another grid
+                raise ApplicationException.get_exc(EXISTING_GEOPOTENTIAL,
+                                                   details=f'{name} is used by another grid. File was not added: {filepath}')
+            self.check_write()
+
+            file_util.copy(filepath, self.data_path)
+            self.vars[id_] = name
+            self.user_vars[id_] = name
 
     def remove(self, filename):
-        for g in self.user_vars.keys():
-            if self.user_vars[g] == filename:
-                del self.user_vars[g]
-                self.vars.pop(g, None)
-                self.dump()
-                break
+        with self.updating():
+            for g in self.user_vars.keys():
+                if self.user_vars[g] == filename:
+                    del self.user_vars[g]
+                    self.vars.pop(g, None)
+                    break
 
     def get_filepath(self, grid_id, additional=None):
         filename = self.vars.get(grid_id)
@@ -362,13 +383,13 @@ class Configuration(pyg2p.Loggable):
             if file_util.filename(f) not in used_geopotentials:
                 self._log(f'Geopotential file is not in configuration: {f} - You could delete it')
 
-        user_intertables = deepcopy(self.intertables.user_vars)
-        for k, i in user_intertables.items():
-            if not isinstance(i, dict) or not self.intertables.data_path:
-                # description of the file or folder of tables unknown
-                continue
-            fullpath = os.path.join(self.intertables.data_path, i['filename'])
-            if not (file_util.exists(fullpath) or file_util.exists(fullpath + '.gz')):
-                self._log(f'{fullpath} - Non existing. Removing item from intertables.json')
-                del self.intertables.user_vars[k]
-        self.intertables.dump()
+        with self.intertables.updating():
+            user_intertables = deepcopy(self.intertables.user_vars)
+            for k, i in user_intertables.items():
+                if not isinstance(i, dict) or not self.intertables.data_path:
+                    # description of the file or folder of tables unknown
+                    continue
+                fullpath = os.path.join(self.intertables.data_path, i['filename'])
+                if not (file_util.exists(fullpath) or file_util.exists(fullpath + '.gz')):
+                    self._log(f'{fullpath} - Non existing. Removing item from intertables.json')
+                    del self.intertables.user_vars[k]
diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 158c422..61adc68 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -72,15 +72,7 @@ class Interpolator(Loggable):
             if not self.create_if_missing:
                 raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=f'Using {intertable_id}')
             self.intertables_config.check_write()
-            filename = self.format_intertablename(prognum='')
-            tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
-            i = 1
-            # names of other tables in configuration are not free, even if their file is missing
-            used = [t['filename'] for t in self.intertables_config.vars.values() if isinstance(t, dict)]
-            while pyg2p.util.files.exists(tbl_fullpath) or filename in used:
-                filename = self.format_intertablename(prognum='_{}'.format(i))
-                tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
-                i += 1
+            tbl_fullpath = self._new_intertable_fullpath()
             return intertable_id, tbl_fullpath
 
         filename = self.intertables_config.vars[intertable_id]['filename']
@@ -102,8 +94,22 @@ class Interpolator(Loggable):
                 self._logger.warning(f'An entry in configuration was found for {filename} but intertable does not exist.')
         return intertable_id, tbl_fullpath
 
-    @staticmethod
-    def _intertable_exists(tbl_fullpath):
+    def _new_intertable_fullpath(self):
+        filename = self.format_intertablename(prognum='')
+        tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
+        i = 1
+        # names of other tables in configuration are not free, even if their file is missing
+        used = [t['filename'] for t in self.intertables_config.vars.values() if isinstance(t, dict)]
+        while pyg2p.util.files.exists(tbl_fullpath) or filename in used:
+            filename = self.format_intertablename(prognum='_{}'.format(i))
+            tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
+            i += 1
+        return tbl_fullpath
+
+    def _intertable_exists(self, intertable_id, tbl_fullpath):
+        if intertable_id not in self.intertables_config.vars:
+            # a file with this name was created by another process for another table
+            return False
         return pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')
 
     def _read_intertable(self, tbl_fullpath):
@@ -224,7 +230,7 @@ class Interpolator(Loggable):
         nnear = self.scipy_modes_nnear[self._mode]
 
         if (not DEBUG_ADW_INTERPOLATION) and \
-            self._intertable_exists(intertable_name):
+            self._intertable_exists(intertable_id, intertable_name):
                 indexes, weights = self._read_intertable(intertable_name)
                 result = self._interpolate_scipy_append_mv(v, weights, indexes, nnear)
 
@@ -254,8 +260,7 @@ class Interpolator(Loggable):
 
             # saving interpolation lookup table
             intertable = np.rec.fromarrays((indexes, weights), names=('indexes', 'coeffs'))
-            self._save_intertable(intertable, intertable_name)
-            self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
+            self._store_intertable(intertable, intertable_id, intertable_name, v.shape)
         else:
             raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=intertable_name)
 
@@ -272,7 +277,7 @@ class Interpolator(Loggable):
             intertable_id, intertable_name = self._intertable_filename(grid_id)
         result = np.empty(self._target_coords.lons.shape)
         result.fill(self.mv_out)
-        if gid == -1 and not self._intertable_exists(intertable_name):
+        if gid == -1 and not self._intertable_exists(intertable_id, intertable_name):
             # calling recursive grib_nearest
             # aux_gid and aux_values are only used to create the interlookuptable
             if is_second_res:
@@ -282,8 +287,9 @@ class Interpolator(Loggable):
             else:
                 self.grib_nearest(self._aux_val, self._aux_gid, grid_id,
                                   intertable_name=intertable_name, intertable_id=intertable_id)
+            intertable_id, intertable_name = self._intertable_filename(grid_id)
 
-        if self._intertable_exists(intertable_name):
+        if self._intertable_exists(intertable_id, intertable_name):
             # interpolation using intertables
             xs, ys, idxs = self._read_intertable(intertable_name)
 
@@ -294,8 +300,7 @@ class Interpolator(Loggable):
             self._log('\nInterpolating table not found\n Id: {}\nWill create file: {}'.format(intertable_id, intertable_name), 'WARN')
             xs, ys, idxs = getattr(grib_interpolation_lib, 'grib_nearest{}'.format('' if not self.parallel else '_parallel'))(gid, self._target_coords.lats, self._target_coords.lons, self._target_coords.mv)
             intertable = np.asarray([xs, ys, idxs])
-            self._save_intertable(intertable, intertable_name)
-            self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
+            self._store_intertable(intertable, intertable_id, intertable_name, v.shape)
         else:
             if intertable_id not in self.intertables_config.vars:
                 d = {'filename': pyg2p.util.files.filename(intertable_name),
@@ -315,7 +320,7 @@ class Interpolator(Loggable):
         result.fill(self.mv_out)
 
         # check if gid is due to the recursive call
-        if gid == -1 and not self._intertable_exists(intertable_name):
+        if gid == -1 and not self._intertable_exists(intertable_id, intertable_name):
             # aux_gid and aux_values are only used to create the interlookuptable
             # since manipulated values messages don't have gid reference to grib file any longer
             aux_gid = self._aux_gid
@@ -325,8 +330,9 @@ class Interpolator(Loggable):
                 aux_val = self._aux_2nd_res_val
             self.grib_inverse_distance(aux_val, aux_gid, grid_id, intertable_name=intertable_name,
                                        intertable_id=intertable_id, is_second_res=is_second_res)
+            intertable_id, intertable_name = self._intertable_filename(grid_id)
 
-        if self._intertable_exists(intertable_name):
+        if self._intertable_exists(intertable_id, intertable_name):
             # interpolation using intertables
             xs, ys, idxs1, idxs2, idxs3, idxs4, coeffs1, coeffs2, coeffs3, coeffs4 = self._read_intertable(intertable_name)
         elif self.create_if_missing:
@@ -344,8 +350,7 @@ class Interpolator(Loggable):
             coeffs = np.asarray([coeffs1, coeffs2, coeffs3, coeffs4, np.zeros(coeffs1.shape), np.zeros(coeffs1.shape)])
             intertable = np.rec.fromarrays((indexes, coeffs), names=('indexes', 'coeffs'))
             # saving interpolation lookup table
-            self._save_intertable(intertable, intertable_name)
-            self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
+            self._store_intertable(intertable, intertable_id, intertable_name, v.shape)
 
         else:
             if intertable_id not in self.intertables_config.vars:
@@ -360,6 +365,16 @@ class Interpolator(Loggable):
         result[xs, ys] = pyg2p.util.numeric.result_masked(res, self.mv_output)
         return result
 
+    def _store_intertable(self, intertable, intertable_id, intertable_name, source_shape):
+        with self.intertables_config.updating():
+            others = [t['filename'] for id_, t in self.intertables_config.vars.items()
+                      if isinstance(t, dict) and id_ != intertable_id]
+            if pyg2p.util.files.filename(intertable_name) in others:
+                # another process took the same name for its table while this one was being computed
+                intertable_name = self._new_intertable_fullpath()
+            self._save_intertable(intertable, intertable_name)
+            self.update_intertable_conf(intertable, intertable_id, intertable_name, source_shape)
+
     @staticmethod
     def _save_intertable(intertable, intertable_name):
         # the table gets its name when completely written, so it is never found truncated
@@ -379,7 +394,6 @@ class Interpolator(Loggable):
 
         # Dumps only user configuration to ~/.pyg2p/intertables.json
         self.intertables_config.user_vars[intertable_id] = new_intertable_conf_item
-        self.intertables_config.dump()
 
     # set aux gids for grib interlookup creation
     def aux_for_intertable_generation(self, aux_g, aux_v, aux_g2, aux_v2):
-- 
2.43.0


From cf746d5e9ffbc7bc11b2735a7201c5c1f1c3169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 30/89] fix: target cells without coordinates get no value with
 any method

---
 src/pyg2p/main/interpolation/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 61adc68..6965625 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -266,6 +266,8 @@ class Interpolator(Loggable):
 
         # reshape to target (e.g. efas, glofas...)
         grid_data = result.reshape(lonefas.shape)
+        # target cells without coordinates have no value
+        grid_data[(lonefas == self._target_coords.mv) | (latefas == self._target_coords.mv)] = self.mv_output
         return grid_data
 
     # #### GRIB API INTERPOLATION ####################
-- 
2.43.0


From 84f668f3c504c7bc48d80015524257ef62c08e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 31/89] fix: grib_nearest and grib_invdist create interpolation
 tables also through the API

---
 src/pyg2p/main/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 04707b2..cad9f79 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -290,6 +290,9 @@ class Pyg2pApi:
         values, self.messages, self.change_res_step = ctrl.execute(write_results=False)
         # need interpolation and correction
         self.interpolator = Interpolator(self.context, grib_info.mv)
+        if self.context.is_with_grib_interpolation:
+            # messages to use if the interpolation table has to be created
+            self.interpolator.aux_for_intertable_generation(*ctrl.grib_reader.get_gids_for_grib_intertable())
         is_second_res = False
         lats, longs = self.messages.latlons
         geodetic_info = self.messages.grid_details
-- 
2.43.0


From 9e7a4d90db0d6276b24ad9c4703ed9655cd86dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 32/89] fix: API executions close the GRIB files they open

---
 src/pyg2p/main/api.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index cad9f79..03454da 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -284,8 +284,15 @@ class Pyg2pApi:
         :return: dict of numpy values, keys are instances of  pyg2p.Step
         """
         grib_reader = GRIBReader(self.context.get('input.file'), w_perturb=self.context.has_perturbation_number)
-        grib_info = grib_reader.get_grib_info(self.context.create_select_cmd_for_aggregation_attrs())
         ctrl = Controller(self.context)
+        try:
+            grib_info = grib_reader.get_grib_info(self.context.create_select_cmd_for_aggregation_attrs())
+            return self._execute(ctrl, grib_info)
+        finally:
+            grib_reader.close()
+            ctrl.close()
+
+    def _execute(self, ctrl, grib_info):
         ctrl.log_execution_context()
         values, self.messages, self.change_res_step = ctrl.execute(write_results=False)
         # need interpolation and correction
-- 
2.43.0


From ac16259831ff416bec6bec77b0887d4953ff8e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 33/89] fix: an end step or a data time of 0 are not ignored

---
 src/pyg2p/main/api.py        | 6 +++---
 src/pyg2p/main/context.py    | 8 ++++----
 src/pyg2p/main/controller.py | 4 +++-
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 03454da..457fed4 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -203,11 +203,11 @@ class ApiContext(Context):
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
-        if self._vars['parameter.tstart'] is None and self.api_conf['Parameter'].get('tstart'):
+        if self._vars['parameter.tstart'] is None and self.api_conf['Parameter'].get('tstart') not in (None, ''):
             self._vars['parameter.tstart'] = int(self.api_conf['Parameter']['tstart'])
-        if self._vars['parameter.tend'] is None and self.api_conf['Parameter'].get('tend'):
+        if self._vars['parameter.tend'] is None and self.api_conf['Parameter'].get('tend') not in (None, ''):
             self._vars['parameter.tend'] = int(self.api_conf['Parameter']['tend'])
-        if self._vars['parameter.dataTime'] is None and self.api_conf['Parameter'].get('dataTime'):
+        if self._vars['parameter.dataTime'] is None and self.api_conf['Parameter'].get('dataTime') not in (None, ''):
             self._vars['parameter.dataTime'] = int(self.api_conf['Parameter']['dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and self.api_conf['Parameter'].get('dataDate'):
             self._vars['parameter.dataDate'] = int(self.api_conf['Parameter']['dataDate'])  # date
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 052b67c..6d6da3c 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -125,7 +125,7 @@ class Context:
             self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
 
             # check tstart<=tend
-            if self._vars['parameter.tstart'] and self._vars['parameter.tend'] and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
+            if self._vars['parameter.tstart'] is not None and self._vars['parameter.tend'] is not None and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
                 raise ApplicationException.get_exc(1500)
 
             # check both correction params are present
@@ -403,11 +403,11 @@ class ExecutionContext(Context):
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
-        if self._vars['parameter.tstart'] is None and exec_conf['Parameter'].get('@tstart'):
+        if self._vars['parameter.tstart'] is None and exec_conf['Parameter'].get('@tstart') not in (None, ''):
             self._vars['parameter.tstart'] = int(exec_conf['Parameter']['@tstart'])
-        if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend'):
+        if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend') not in (None, ''):
             self._vars['parameter.tend'] = int(exec_conf['Parameter']['@tend'])
-        if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime'):
+        if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime') not in (None, ''):
             self._vars['parameter.dataTime'] = int(exec_conf['Parameter']['@dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and exec_conf['Parameter'].get('@dataDate'):
             self._vars['parameter.dataDate'] = int(exec_conf['Parameter']['@dataDate'])  # date
diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index c1325c4..2cc62ae 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -37,7 +37,9 @@ class Controller(Loggable):
 
         # read grib messages
         start_step = self.ctx.get('parameter.tstart') or 0
-        end_step = self.ctx.get('parameter.tend') or grib_info.end
+        end_step = self.ctx.get('parameter.tend')
+        if end_step is None:
+            end_step = grib_info.end
 
         if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
             self.ctx.set_input_file_with_geopotential()
-- 
2.43.0


From 34796f75e981c6588b9f9544ec50d488ce51c45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 34/89] fix: the level can be a number and can be 0 in the
 command file

---
 src/pyg2p/main/context.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 6d6da3c..c3c9898 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -118,9 +118,11 @@ class Context:
 
             # check all numbers
 
-            if self._vars['parameter.level'] and not self._vars['parameter.level'].isdigit():
+            level = self._vars.get('parameter.level')
+            level = None if level in (None, '') else str(level)
+            if level is not None and not level.isdigit():
                 raise ApplicationException.get_exc(NOT_A_NUMBER, 'Parameter level')
-            self._vars['parameter.level'] = int(self._vars['parameter.level']) if self._vars.get('parameter.level') else None
+            self._vars['parameter.level'] = int(level) if level is not None else None
 
             self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
 
-- 
2.43.0


From 5976c2479bccfffecff5b975f75e0dae0d90d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 35/89] fix: perturbationNumber of the command file is read

---
 src/pyg2p/main/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index c3c9898..6fef5d2 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -413,6 +413,8 @@ class ExecutionContext(Context):
             self._vars['parameter.dataTime'] = int(exec_conf['Parameter']['@dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and exec_conf['Parameter'].get('@dataDate'):
             self._vars['parameter.dataDate'] = int(exec_conf['Parameter']['@dataDate'])  # date
+        if self._vars['parameter.perturbationNumber'] is None and exec_conf['Parameter'].get('@perturbationNumber') not in (None, ''):
+            self._vars['parameter.perturbationNumber'] = int(exec_conf['Parameter']['@perturbationNumber'])  # number
 
         self._vars['parameter.level'] = exec_conf['Parameter'].get('@level')  # number
 
-- 
2.43.0


From 1862dff7f62844830b33aacfd6c9557b4604dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 36/89] fix: messages before the requested start are not
 extracted when no other matches

---
 src/pyg2p/main/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 6fef5d2..475de91 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -165,7 +165,9 @@ class Context:
             reader_args['endStep'] = end_
             reader_args['startStep'] = start_
         else:
-            reader_args['endStep'] = lambda s: s <= end_
+            # an aggregation may need messages before its first step
+            first_end = 0 if self.must_do_aggregation else start_
+            reader_args['endStep'] = lambda s: first_end <= s <= end_
             reader_args['startStep'] = lambda s: s >= start_
         return reader_args
 
-- 
2.43.0


From bc8ab475d40245e94543a72f29085e1cd19c2392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 37/89] fix: half weights of averages are applied also through
 the API

---
 src/pyg2p/main/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 457fed4..e5c196d 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -217,6 +217,7 @@ class ApiContext(Context):
         if self.api_conf.get('Aggregation'):
             self._vars['aggregation.step'] = self.api_conf['Aggregation'].get('step')
             self._vars['aggregation.type'] = self.api_conf['Aggregation'].get('type')
+            self._vars['aggregation.halfweights'] = bool(self.api_conf['Aggregation'].get('halfweights'))
 
             self._vars['execution.doAggregation'] = bool(self._vars.get('aggregation.step')) and bool(self._vars.get('aggregation.type'))
             self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION and self.api_conf['Aggregation'].get('forceZeroArray', 'False').lower() not in strings.FALSE_STRINGS
-- 
2.43.0


From e199bbfae6255cfcb9abdb0cf78a1aac65b5c50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 38/89] fix: forceZeroArray can be a boolean

---
 src/pyg2p/main/api.py     | 2 +-
 src/pyg2p/main/context.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index e5c196d..1f61d34 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -220,7 +220,7 @@ class ApiContext(Context):
             self._vars['aggregation.halfweights'] = bool(self.api_conf['Aggregation'].get('halfweights'))
 
             self._vars['execution.doAggregation'] = bool(self._vars.get('aggregation.step')) and bool(self._vars.get('aggregation.type'))
-            self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION and self.api_conf['Aggregation'].get('forceZeroArray', 'False').lower() not in strings.FALSE_STRINGS
+            self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION and str(self.api_conf['Aggregation'].get('forceZeroArray', 'False')).lower() not in strings.FALSE_STRINGS
 
         # string interpolation for custom user configurations (i.e. dataset folders)
         self.configuration.user.interpolate_strings(self)
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 475de91..01ecb07 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -428,7 +428,7 @@ class ExecutionContext(Context):
             self._vars['execution.doAggregation'] = bool(self._vars.get('aggregation.step')) \
                 and bool(self._vars.get('aggregation.type'))
             self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION \
-                and exec_conf['Aggregation'].get('@forceZeroArray', 'False').lower() not in strings.FALSE_STRINGS
+                and str(exec_conf['Aggregation'].get('@forceZeroArray', 'False')).lower() not in strings.FALSE_STRINGS
 
         # string interpolation for custom user configurations (i.e. dataset folders)
         self.configuration.user.interpolate_strings(self)
-- 
2.43.0


From 1654e7c7bbab1780e992639301831e6615da893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 39/89] fix: options -f 1 and -x 1 override the command file

---
 src/pyg2p/main/context.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 01ecb07..959b4bb 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -277,12 +277,12 @@ class ExecutionContext(Context):
                             type=int, metavar='data_date')
 
         # output file naming (first extension number, extension number step, prefix
-        parser.add_argument('-f', '--fmap', help='First map number', type=int, default=1, metavar='fmap')
+        parser.add_argument('-f', '--fmap', help='First map number', type=int, metavar='fmap')
         # output file format
         parser.add_argument('-F', '--format', metavar='format',
                             default='notset', choices=['netcdf', 'pcraster', 'notset'],
                             help='Output format. Available options: netcdf,  pcraster. Default pcraster')
-        parser.add_argument('-x', '--ext', help='Extension number step', type=int, default=1, metavar='extension_step')
+        parser.add_argument('-x', '--ext', help='Extension number step', type=int, metavar='extension_step')
         parser.add_argument('-n', '--namePrefix', help='Prefix name for maps', metavar='outfiles_prefix')
         parser.add_argument('-O', '--offset', help='Map offset', metavar='offset')
         parser.add_argument('-S', '--scaleFactor', help='Map scale factor', metavar='scale_factor')
@@ -397,10 +397,12 @@ class ExecutionContext(Context):
             self._vars['outMaps.valueFormat'] = exec_conf['OutMaps'].get('@valueFormat')
         if self._vars['outMaps.outputStepUnits'] is None:
             self._vars['outMaps.outputStepUnits'] = exec_conf['OutMaps'].get('@outputStepUnits')
-        if self._vars['outMaps.fmap'] == 1:
-            self._vars['outMaps.fmap'] = exec_conf['OutMaps'].get('@fmap') or 1
-        if self._vars['outMaps.ext'] == 1:
-            self._vars['outMaps.ext'] = exec_conf['OutMaps'].get('@ext') or 1
+        if self._vars['outMaps.fmap'] is None:
+            fmap = exec_conf['OutMaps'].get('@fmap')
+            self._vars['outMaps.fmap'] = int(fmap) if fmap not in (None, '') else 1
+        if self._vars['outMaps.ext'] is None:
+            ext = exec_conf['OutMaps'].get('@ext')
+            self._vars['outMaps.ext'] = int(ext) if ext not in (None, '') else 1
         if self._vars['outMaps.format'] == 'notset':
             # default out format to pcraster if not set from commandline nor in execution command json
             self._vars['outMaps.format'] = exec_conf['OutMaps'].get('@format') or 'pcraster'
-- 
2.43.0


From 3789a7656e4893dd7c1ae7f2ef7415cd1cdcd9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 40/89] fix: bilinear and Delaunay interpolations find targets
 in any longitude convention and on grids crossing Greenwich or the date line

---
 .../interpolation/scipy_interpolation_lib.py  | 45 ++++++++++++++-----
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 06aa231..c4a4ea9 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -86,6 +86,23 @@ DEBUG_MAX_LON = 8+10
 ###### functions used to get correct quadrilateral points for the bilinear interpolation ####
 ###########################################################################################
 
+# return the western limit and the width of the longitudes covered by a grid, that is all but the largest gap between them
+# (it does not matter whether they are in range (-180,180) or (0,360), nor if the grid crosses one of these limits)
+def get_longitudes_extent(lons):
+    sorted_lons = np.unique(np.mod(lons, 360))
+    gaps = np.diff(np.append(sorted_lons, sorted_lons[0] + 360))
+    largest_gap = np.argmax(gaps)
+    west = sorted_lons[(largest_gap + 1) % sorted_lons.size]
+    return (west - 360 if west > 180 else west), 360 - gaps[largest_gap]
+
+# return longitudes in the 360 degrees range starting at west
+def shift_longitudes(lons, west):
+    return west + np.mod(lons - west, 360)
+
+# return the distance in degrees between two longitudes
+def get_longitudes_distance(lon1, lon2):
+    return abs((lon1 - lon2 + 180) % 360 - 180)
+
 # return lon1, lon2, lon3 and lon4 in classical longitude format range (-180,180)
 # furthermore, when differences between lon_in and p points are >90 degree, 
 # get the p point on the opposite longitude of the globe
@@ -1136,6 +1153,8 @@ class ScipyInterpolation(object):
 
         self.lat_inALL = self.target_latsOR.ravel()
         self.lon_inALL = self.target_lonsOR.ravel()
+        # longitudes of the target can be in range (0,360), too
+        self.lon_inALL = np.where(self.lon_inALL > 180, self.lon_inALL - 360, self.lon_inALL)
 
         num_cells = result.size
         back_char, progress_step = progress_step_and_backchar(num_cells)
@@ -1154,12 +1173,11 @@ class ScipyInterpolation(object):
 
         latgrib_max = self.latgrib.max()
         latgrib_min = self.latgrib.min()
-        longrib_max = self.longrib.max()
-        longrib_min = self.longrib.min()
+        longrib_west, longrib_width = get_longitudes_extent(self.longrib)
         # evaluate an approx_grib_resolution by using 10 times the first longidure values 
         # to check if the whole globe is covered
-        approx_grib_resolution = abs(self.longrib[0]-self.longrib[1])*1.5
-        is_global_map = (360-(longrib_max-longrib_min))<approx_grib_resolution
+        approx_grib_resolution = get_longitudes_distance(self.longrib[0], self.longrib[1])*1.5
+        is_global_map = (360-longrib_width)<approx_grib_resolution
         # for nn in range(25898400,len(indexes)):
         for nn in range(len(indexes)):
             skip_current_point = False
@@ -1222,7 +1240,7 @@ class ScipyInterpolation(object):
 
                     # in non-global maps, skip all points falling outside the grib min and max values
                     if is_global_map==False and \
-                        (self.lat_in>latgrib_max or self.lat_in<latgrib_min or self.lon_in>longrib_max or self.lon_in<longrib_min):
+                        (self.lat_in>latgrib_max or self.lat_in<latgrib_min or np.mod(self.lon_in-longrib_west, 360)>longrib_width):
                             quadrilateral_is_ok = True
                             outs += 1
                             weights[nn] = np.array([np.nan, 0., 0., 0.])
@@ -1356,13 +1374,15 @@ class ScipyInterpolation(object):
         normalized_longrib[normalized_longrib>180]-=360
         z=self.z.copy()
 
-        longrib_max = normalized_longrib.max()
-        longrib_min = normalized_longrib.min()
+        longrib_west, longrib_width = get_longitudes_extent(self.longrib)
         # evaluate an approx_grib_resolution by using 10 times the first longitude values 
         # to check if the whole globe is covered
-        approx_grib_resolution = abs(normalized_longrib[0]-normalized_longrib[1])*1.5
-        is_global_map = (360-(longrib_max-longrib_min))<approx_grib_resolution
+        approx_grib_resolution = get_longitudes_distance(normalized_longrib[0], normalized_longrib[1])*1.5
+        is_global_map = (360-longrib_width)<approx_grib_resolution
         if is_global_map:
+            target_lons = np.where(self.target_lonsOR > 180, self.target_lonsOR - 360, self.target_lonsOR)
+            longrib_max = normalized_longrib.max()
+            longrib_min = normalized_longrib.min()
             #additional points map
             original_indexes=[]
             original_indexes = np.append(original_indexes,np.where(normalized_longrib>longrib_max-approx_grib_resolution*2)).astype(int)
@@ -1378,6 +1398,9 @@ class ScipyInterpolation(object):
             normalized_latgrib = padded_latgrib
             z=padded_z
         else:
+            # keep the points of the grid together, with the targets around them
+            normalized_longrib = shift_longitudes(self.longrib, longrib_west)
+            target_lons = shift_longitudes(self.target_lonsOR, longrib_west - (360 - longrib_width) / 2)
             stdout.write('Finding nearest neighbor to exclude outside triangles\n')
             x_tmp, y_tmp, z_tmp = self.to_3d(self.target_lonsOR[:,:], self.target_latsOR[:,:], to_regular=self.target_grid_is_rotated)
             efas_locations = np.vstack((x_tmp.ravel(), y_tmp.ravel(), z_tmp.ravel())).T
@@ -1396,7 +1419,7 @@ class ScipyInterpolation(object):
 
         tri = Delaunay(gribpoints_scaled)        
         #tri = Delaunay(gribpoints)
-        p = np.stack((self.target_latsOR[:,:].ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
+        p = np.stack((self.target_latsOR[:,:].ravel(),target_lons.ravel()),axis=-1)
         target_latsORscaled = self.target_latsOR[:,0].copy()
         # In case of non rotated grib files, the grid has variable number of points according to the latitude, 
         # so adjust the grid spaces for an effective triangulation
@@ -1407,7 +1430,7 @@ class ScipyInterpolation(object):
             target_latsORscaled[:] = target_latsORscaled[:]*90*10/max(quad(integrand, 0, np.radians(max(gribpoints[:,0]))))
         
         target_latsORscaled = np.ones((1, self.target_latsOR.shape[1])) * target_latsORscaled.reshape(-1,1)
-        p_scaled = np.stack((target_latsORscaled.ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
+        p_scaled = np.stack((target_latsORscaled.ravel(),target_lons.ravel()),axis=-1)
 
         result = mask_it(np.empty((p.shape[0],) +
                          np.shape(z[0])), self._mv_target, 1)
-- 
2.43.0


From c8d156400d25df3c59a85787ed4c560b67d1df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:17 +0000
Subject: [PATCH 41/89] fix: Delaunay interpolations work on grids of the
 southern hemisphere

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index c4a4ea9..cb01212 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1415,7 +1415,9 @@ class ScipyInterpolation(object):
             for i in range(gribpoints_scaled.shape[0]):
                 gribpoints_scaled[i,0], error = quad(integrand, 0, np.radians(gribpoints_scaled[i,0]))
 
-            gribpoints_scaled[:,0] = gribpoints_scaled[:,0]*90*10/max(gribpoints_scaled[:,0])
+            # the latitudes of the grid can also be all in the southern hemisphere
+            scale = 90*10/max(abs(gribpoints_scaled[:,0]))
+            gribpoints_scaled[:,0] = gribpoints_scaled[:,0]*scale
 
         tri = Delaunay(gribpoints_scaled)        
         #tri = Delaunay(gribpoints)
@@ -1427,7 +1429,7 @@ class ScipyInterpolation(object):
         if self.source_grid_is_rotated == False:
             for i in range(target_latsORscaled[:].shape[0]):
                 target_latsORscaled[i], error = quad(integrand, 0, np.radians(target_latsORscaled[i]))
-            target_latsORscaled[:] = target_latsORscaled[:]*90*10/max(quad(integrand, 0, np.radians(max(gribpoints[:,0]))))
+            target_latsORscaled[:] = target_latsORscaled[:]*scale
         
         target_latsORscaled = np.ones((1, self.target_latsOR.shape[1])) * target_latsORscaled.reshape(-1,1)
         p_scaled = np.stack((target_latsORscaled.ravel(),target_lons.ravel()),axis=-1)
-- 
2.43.0


From 820c0cd9d030914e321ef7cf5f380d638b13fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:17 +0000
Subject: [PATCH 42/89] fix: Delaunay interpolations use the latitude of each
 target cell, not the one of the first in the row

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index cb01212..6381ffc 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1422,7 +1422,8 @@ class ScipyInterpolation(object):
         tri = Delaunay(gribpoints_scaled)        
         #tri = Delaunay(gribpoints)
         p = np.stack((self.target_latsOR[:,:].ravel(),target_lons.ravel()),axis=-1)
-        target_latsORscaled = self.target_latsOR[:,0].copy()
+        # latitudes of the target can change along the rows (e.g. on projected maps)
+        target_latsORscaled, rows = np.unique(self.target_latsOR, return_inverse=True)
         # In case of non rotated grib files, the grid has variable number of points according to the latitude, 
         # so adjust the grid spaces for an effective triangulation
         # In case of rotated grid, instead, use the original grid points, that is fine for the spece even if it is rotaded
@@ -1431,7 +1432,7 @@ class ScipyInterpolation(object):
                 target_latsORscaled[i], error = quad(integrand, 0, np.radians(target_latsORscaled[i]))
             target_latsORscaled[:] = target_latsORscaled[:]*scale
         
-        target_latsORscaled = np.ones((1, self.target_latsOR.shape[1])) * target_latsORscaled.reshape(-1,1)
+        target_latsORscaled = target_latsORscaled[rows]
         p_scaled = np.stack((target_latsORscaled.ravel(),target_lons.ravel()),axis=-1)
 
         result = mask_it(np.empty((p.shape[0],) +
-- 
2.43.0


From 7c778a4bd9897047174cef1071dce59dc6879d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 43/89] fix: Delaunay interpolations do not miss cells on the
 border of the grid by rounding

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 6381ffc..6255203 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1423,7 +1423,7 @@ class ScipyInterpolation(object):
         #tri = Delaunay(gribpoints)
         p = np.stack((self.target_latsOR[:,:].ravel(),target_lons.ravel()),axis=-1)
         # latitudes of the target can change along the rows (e.g. on projected maps)
-        target_latsORscaled, rows = np.unique(self.target_latsOR, return_inverse=True)
+        target_latsORscaled, rows = np.unique(self.target_latsOR.astype(np.float64), return_inverse=True)
         # In case of non rotated grib files, the grid has variable number of points according to the latitude, 
         # so adjust the grid spaces for an effective triangulation
         # In case of rotated grid, instead, use the original grid points, that is fine for the spece even if it is rotaded
@@ -1446,6 +1446,12 @@ class ScipyInterpolation(object):
 
         # store in idxs_tri the nr of triangle of the grib in which each p is in, from p[0] to p[max]
         idxs_tri=tri.find_simplex(p_scaled)  
+        # points on the border of the grid are in, within the precision of the coordinates in the maps
+        tolerance = 1e-6 * (tri.max_bound - tri.min_bound)
+        missed = np.flatnonzero((idxs_tri == -1) & np.all((p_scaled >= tri.min_bound - tolerance) & (p_scaled <= tri.max_bound + tolerance), axis=1))
+        if missed.size:
+            p_scaled[missed] = np.clip(p_scaled[missed], tri.min_bound, tri.max_bound)
+            idxs_tri[missed] = tri.find_simplex(p_scaled[missed], tol=1e-6)
         #idxs contains the indexes of the grib vertex of the triagles that contain p
         # e.g. idxs[nn] contains the indexes of the grib vertex containing p[nn]
         idxs = tri.simplices[idxs_tri]
-- 
2.43.0


From bc6a9ec61b6c7968aa1059c5aef9b3b323ccca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 44/89] fix: cdd mode NewEtAl can be used (numba could not
 compile it)

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 6255203..cf402a8 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -468,7 +468,6 @@ def cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map
     return s
 
 
-@njit(parallel=True, fastmath=False, cache=True)
 def cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, longrib, latgrib, TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s):
     # New et al. 2000 
     # no search radius applied
-- 
2.43.0


From 500bedb1ae775194c457a7f8a2a7e65b664f2c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 45/89] fix: directions of the source points in adw and cdd do
 not depend on the longitude convention

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index cf402a8..a274d68 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -500,7 +500,8 @@ def adw_and_cdd_compute_weights_directional_in_broadcasting(
     yi = longrib.ravel()[indexes.ravel()]
     # Compute xi_diff and yi_diff for all elements
     xi_diff = lat_inALL.reshape(-1,1) - xi.reshape(-1,k)
-    yi_diff = lon_inALL.reshape(-1,1) - yi.reshape(-1,k)
+    # longitudes of source and target can be in different ranges, (-180,180) and (0,360)
+    yi_diff = (lon_inALL.reshape(-1,1) - yi.reshape(-1,k) + 180) % 360 - 180
     # Compute Di for all elements
     Di = np.sqrt(xi_diff**2 + yi_diff**2)
     # Compute cos_theta for all elements
@@ -958,7 +959,8 @@ class ScipyInterpolation(object):
                 weight_directional = np.zeros_like(distances)
                 for i in range(nnear):
                     xj_diff = self.lat_inALL[:, np.newaxis] - self.latgrib[indexes]
-                    yj_diff = self.lon_inALL[:, np.newaxis] - self.longrib[indexes]
+                    # longitudes of source and target can be in different ranges, (-180,180) and (0,360)
+                    yj_diff = (self.lon_inALL[:, np.newaxis] - self.longrib[indexes] + 180) % 360 - 180
                     
                     Dj = np.sqrt(xj_diff**2 + yj_diff**2)
                     # we could use "distances", but we are actually evaluating the cos funcion on lat and lon values, that 
-- 
2.43.0


From 7bb7c311ee810692e42ee39b0e78c5e26c6a89b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 46/89] fix: cdd mode NewEtAl takes the CDD of the source point
 in any longitude convention

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index a274d68..befa96e 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -480,8 +480,11 @@ def cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexe
         
     #   [e^(−x/CDD)]^m       when 0  < d <= CDD
 
+    # distances in longitude from the first column: the part of the globe out of the target is half at its left, half at its right
+    outside = (360 - abs(TargetLonRes) * (CDD_map.shape[1] - 1)) / 2
+    lon_distances = np.mod(longrib[indexes] - LonOrigin + outside, 360) - outside
     CDD_values = CDD_map[np.clip(((LatOrigin-latgrib[indexes])/TargetLatRes).astype(int),0,CDD_map.shape[0]-1), \
-                                        np.clip(((LonOrigin-longrib[indexes])/TargetLonRes).astype(int),0,CDD_map.shape[1]-1)]
+                                        np.clip((lon_distances/-TargetLonRes).astype(int),0,CDD_map.shape[1]-1)]
     dist_leq_CDD = distances <= CDD_values
     s.ravel()[dist_leq_CDD.ravel()] = np.exp(-distances*m_const/CDD_values).ravel()[dist_leq_CDD.ravel()]
         
-- 
2.43.0


From 4954b1bb0f3e086e1c529fc8def64b2758d6e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 47/89] fix: bilinear never uses the quadrilateral of another
 cell for a cell without its own

---
 .../interpolation/scipy_interpolation_lib.py     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index befa96e..e12108c 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1216,6 +1216,10 @@ class ScipyInterpolation(object):
                 self.target_location = efas_locations[nn]
                 additional_points = 0
                 quadrilateral_is_ok = False
+                nearest_point = ix[0]
+                if self.lat_in == latgrib_max:
+                    # there must be points above to make a quadrilateral
+                    self.lat_in -= 1e-6
                 # additional checks only if source_grid_is_rotated is False
                 if self.source_grid_is_rotated == False:
                     additional_checks_completed = False
@@ -1323,6 +1327,14 @@ class ScipyInterpolation(object):
                             else:
                                 quadrilateral_is_ok = True
 
+                if skip_current_point == False and quadrilateral_is_ok == False:
+                    # there is no quadrilateral around this point: take the nearest one
+                    not_in_quad += 1
+                    idxs[nn] = nearest_point
+                    result[nn] = z[nearest_point]
+                    weights[nn] = np.array([1., 0., 0., 0.])
+                    skip_current_point = True
+
                 if skip_current_point == False:
                     if max_used_additional_points<additional_points:
                         max_used_additional_points = additional_points
@@ -1334,10 +1346,6 @@ class ScipyInterpolation(object):
                     except AssertionError as e:
                         ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nLess then 4 distinct point! nn={} lat={} lon={}".format(nn, self.lat_in, self.lon_in))
                     
-                    if quadrilateral_is_ok==False:
-                        #print("\nError: quadrilateral_is_ok is False, failed to find a correct quadrilateral: nn is {}, lat={} lon={}".format(nn, self.lat_in, self.lon_in))
-                        not_in_quad+=1
-
                     [alpha, beta] = np.clip(opt.fsolve(self._functionAlphaBeta, (0.5, 0.5)), 0, 1)
                     weight1[nn] = (1-alpha)*(1-beta)
                     weight2[nn] = alpha*(1-beta)
-- 
2.43.0


From 0c5e15c03585a6d607e983b52969dee0a038ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:06 +0000
Subject: [PATCH 48/89] fix: retries of the bilinear method do not depend on
 the number of target rows

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index e12108c..14e0488 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1170,8 +1170,8 @@ class ScipyInterpolation(object):
         outs = 0            # number of points falling outside the min_upper_bound distance
         not_in_quad = 0     # number of points falling outside quadrilaterals after max_retries
 
-        # max number of retry equals to a full lenght of lon coordinates
-        max_retries = self.target_lonsOR.shape[0]        
+        # max number of retry does not depend on the number of target rows (they can be split)
+        max_retries = min(1000, self.latgrib.size - self.nnear)
         max_used_additional_points = 0
         nn_max_used_additional_points = -1
 
-- 
2.43.0


From ff8b477aeca4f9504f2015580b13ddff34d0f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 49/89] fix: interpolation works with more splits than target
 rows

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 14e0488..05c8ba0 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -606,7 +606,8 @@ class ScipyInterpolation(object):
                 stdout.write('KDtree find radius time (sec): {}\n'.format(checktime - start))
 
             # Define the size of the subsets, only in lonm
-            subset_size = lonefas.shape[0]//self.num_of_splits
+            # (subsets have at least one row, when there are fewer rows than splits)
+            subset_size = max(1, lonefas.shape[0]//self.num_of_splits)
 
             # Initialize empty arrays to store the results
             weights = np.empty((lonefas.shape[0]*lonefas.shape[1],self.nnear),dtype=lonefas.dtype)
-- 
2.43.0


From 8d4b47752716a88e8eda8238120399504b55fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 50/89] fix: nearest method works with splits

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 05c8ba0..b55d668 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -623,8 +623,9 @@ class ScipyInterpolation(object):
                 subset_result, subset_weights, subset_indexes = self.interpolate_split(subset_lonefas, subset_latefas, ref_radius)
 
                 # Collect the results back into the weights and indexes arrays
-                weights[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1],:] = subset_weights
-                indexes[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1],:] = subset_indexes
+                # (arrays of the nearest method have one dimension)
+                weights[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1],:] = subset_weights.reshape(-1, self.nnear)
+                indexes[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1],:] = subset_indexes.reshape(-1, self.nnear)
                 result[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1]] = subset_result
         
         else:
-- 
2.43.0


From bee2abca59da5c324e6ac0dc8a0e4094c14a502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 51/89] fix: cdd interpolation works with splits

---
 .../interpolation/scipy_interpolation_lib.py  | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index b55d668..345aaa5 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -590,6 +590,9 @@ class ScipyInterpolation(object):
             self.min_upper_bound = np.max(distances) + np.max(distances) * 4 / self.geodetic_info.get('Nj')
 
     def interpolate(self, lonefas, latefas):        
+        # coordinates of the whole target, that is the grid of the CDD map
+        self.whole_target_lats = latefas
+        self.whole_target_lons = lonefas
         if (self.num_of_splits is not None):
             ref_radius = None
             if self.mode == 'adw' and self.nnear == 11:
@@ -620,7 +623,8 @@ class ScipyInterpolation(object):
                 subset_latefas = latefas[i:i+subset_size, :]
 
                 # Call the interpolate function for the subset
-                subset_result, subset_weights, subset_indexes = self.interpolate_split(subset_lonefas, subset_latefas, ref_radius)
+                subset_result, subset_weights, subset_indexes = self.interpolate_split(subset_lonefas, subset_latefas, ref_radius,
+                                                                                         rows=slice(i, i+subset_size))
 
                 # Collect the results back into the weights and indexes arrays
                 # (arrays of the nearest method have one dimension)
@@ -634,7 +638,7 @@ class ScipyInterpolation(object):
         return result, weights, indexes
 
 
-    def interpolate_split(self, target_lons, target_lats, ref_radius=None):        
+    def interpolate_split(self, target_lons, target_lats, ref_radius=None, rows=slice(None)):
         # Target coordinates  HAVE to be rotated coords in case GRIB grid is rotated
         # Example of target rotated coords are COSMO lat/lon/dem PCRASTER maps
         self.target_latsOR=target_lats
@@ -663,7 +667,7 @@ class ScipyInterpolation(object):
                 result, weights, indexes = self._build_weights_invdist(distances, indexes, self.nnear, adw_type='Shepard', use_broadcasting=self.use_broadcasting, ref_radius=ref_radius)             
             elif self.mode == 'cdd':
                 result, weights, indexes = self._build_weights_invdist(distances, indexes, self.nnear, adw_type='CDD', use_broadcasting=self.use_broadcasting, ref_radius=None,
-                                                                       cdd_map=self.cdd_map, cdd_mode=self.cdd_mode, cdd_options=self.cdd_options)
+                                                                       cdd_map=self.cdd_map, cdd_mode=self.cdd_mode, cdd_options=self.cdd_options, rows=rows)
             elif self.mode == 'bilinear' and self.nnear == 4: # bilinear interpolation only supported with nnear = 4
                 # BILINEAR INTERPOLATION
                 result, weights, indexes = self._build_weights_bilinear(distances, indexes, efas_locations, self.nnear) 
@@ -794,7 +798,7 @@ class ScipyInterpolation(object):
     # if adw_type == None -> simple IDW 
     # if adw_type == Shepard -> Shepard 1968 original formulation
     def _build_weights_invdist(self, distances, indexes, nnear, adw_type = None, use_broadcasting = False, ref_radius = None, 
-                               cdd_map='', cdd_mode='', cdd_options=None):
+                               cdd_map='', cdd_mode='', cdd_options=None, rows=slice(None)):
         if DEBUG_ADW_INTERPOLATION:
             if adw_type != "Shepard":
                 self.min_upper_bound = 1000000000
@@ -889,7 +893,7 @@ class ScipyInterpolation(object):
                 weights_mode = 'All'
                 #weights_mode = 'OnlyTOP10'
                 if (CDDmode == 'Hofstra'):
-                    CDD_map = CDD_map.ravel()
+                    CDD_map = CDD_map[rows].ravel()
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
@@ -900,7 +904,7 @@ class ScipyInterpolation(object):
                     s = np.zeros_like(distances)       
                     s = cdd_hofstra_compute_weights_from_cutoff_distances(distances, CDD_map, s)
                 elif CDDmode == 'MixHofstraShepard':
-                    CDD_map = CDD_map.ravel()
+                    CDD_map = CDD_map[rows].ravel()
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
@@ -922,10 +926,10 @@ class ScipyInterpolation(object):
                     cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map, nnear, s, m_const, min_num_of_station, radius_ratio)
                 elif CDDmode == 'NewEtAl':
                     s = np.zeros_like(distances)  
-                    TargetLonRes=self.target_lonsOR[0,0]-self.target_lonsOR[0,1]
-                    TargetLatRes=self.target_latsOR[0,0]-self.target_latsOR[1,0]
-                    LonOrigin=self.target_lonsOR[0,0]
-                    LatOrigin=self.target_latsOR[0,0]
+                    TargetLonRes=self.whole_target_lons[0,0]-self.whole_target_lons[0,1]
+                    TargetLatRes=self.whole_target_lats[0,0]-self.whole_target_lats[1,0]
+                    LonOrigin=self.whole_target_lons[0,0]
+                    LatOrigin=self.whole_target_lats[0,0]
                     s = cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, self.longrib, self.latgrib, 
                                                                         TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s)
                 else:
-- 
2.43.0


From 1d33d22fefc22fbdda6715b51c6bcae50b9ecfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 52/89] fix: CDD options are taken by name, in any order

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 345aaa5..3e04102 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -922,7 +922,8 @@ class ScipyInterpolation(object):
                         weights_mode = "All"
                     else:
                         # Custom values
-                        m_const, min_num_of_station, radius_ratio, weights_mode = cdd_options.values()
+                        m_const, min_num_of_station, radius_ratio, weights_mode = (
+                            cdd_options[k] for k in ('m_const', 'min_num_of_station', 'radius_ratio', 'weights_mode'))
                     cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map, nnear, s, m_const, min_num_of_station, radius_ratio)
                 elif CDDmode == 'NewEtAl':
                     s = np.zeros_like(distances)  
-- 
2.43.0


From 4a5514bef0c2eb7971ff94f01e5551e1997de5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:03 +0000
Subject: [PATCH 53/89] fix: parallel grib_nearest and grib_invdist can access
 the GRIB message

---
 src/pyg2p/main/interpolation/grib_interpolation_lib.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 9852f6f..2c56c29 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -8,6 +8,7 @@ import warnings
 from functools import partial
 from sys import stdout
 
+import dask
 import eccodes
 import numexpr as ne
 import numpy as np
@@ -168,7 +169,8 @@ def grib_nearest_parallel(gid, target_lats, target_lons, mv):
     apply_to_chunk_part = partial(apply_nearest_to_chunk, gid=gid, mv=mv)
     result = init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons)
     progress = ProgressBar(dt=10)
-    with progress:
+    # the message can be accessed by its gid only in forked processes
+    with progress, dask.config.set({'multiprocessing.context': 'fork'}):
         result = result.compute()
     idxs, xs, ys = concatenate_nearest_result(nchunks, result)
     return xs, ys, idxs
@@ -214,7 +216,8 @@ def grib_invdist_parallel(gid, target_lats, target_lons, mv):
     result = init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons)
 
     progress = ProgressBar(dt=10)
-    with progress:
+    # the message can be accessed by its gid only in forked processes
+    with progress, dask.config.set({'multiprocessing.context': 'fork'}):
         result = result.compute()
     idxs1, idxs2, idxs3, idxs4, xs, ys, invs1, invs2, invs3, invs4 = concatenate_invdist_result(nchunks, result)
 
-- 
2.43.0


From 64c3079310cef4ea6aa89888830eef5a426d8406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 54/89] fix: bilinear on global grids terminates when target
 cells have no coordinates

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 3e04102..3c2e952 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1214,7 +1214,8 @@ class ScipyInterpolation(object):
                 result[nn] = z[ix[0]]  # take exactly the point, weight = 1
                 idxs[nn] = ix
                 weights[nn] = np.array([1., 0., 0., 0.])
-            elif dist[0] > self.min_upper_bound:
+            elif dist[0] > self.min_upper_bound or not -90 <= self.lat_in <= 90:
+                # too far from the source grid, or target cell without coordinates (it would have no quadrilateral)
                 outs += 1
                 idxs[nn] = ix
                 weights[nn] = np.array([np.nan, 0., 0., 0.])
-- 
2.43.0


From cce7de8e5e38ddeaa791392b3b05045fc8bab96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:00 +0000
Subject: [PATCH 55/89] fix: the identifier of a grid does not depend on the
 missing points of the message

---
 src/pyg2p/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/__init__.py b/src/pyg2p/__init__.py
index aa9de94..dac23d4 100644
--- a/src/pyg2p/__init__.py
+++ b/src/pyg2p/__init__.py
@@ -66,7 +66,7 @@ class GribGridDetails(Loggable):
 
     """
 
-    keys = (('gridType', 'string'), ('radius', 'double'), ('numberOfValues', 'long'),
+    keys = (('gridType', 'string'), ('radius', 'double'), ('numberOfDataPoints', 'long'),
             ('Ni', 'long'), ('Nj', 'long'), ('missingValue', 'double'),
             ('longitudeOfFirstGridPointInDegrees', 'double'), ('longitudeOfLastGridPointInDegrees', 'double'),
             ('latitudeOfSouthernPoleInDegrees', 'double'), ('longitudeOfSouthernPoleInDegrees', 'double'),
@@ -104,7 +104,8 @@ class GribGridDetails(Loggable):
     def _build_id(self):
         ni = 'M' if 'Ni' in self._missing_keys else self._geo_keys.get('Ni')
         nj = 'M' if 'Nj' in self._missing_keys else self._geo_keys.get('Nj')
-        num_of_values = self._geo_keys.get('numberOfValues')
+        # (all points of the grid, not only those with a value in this message)
+        num_of_values = self._geo_keys.get('numberOfDataPoints')
         long_first = ('%.4f' % (self._geo_keys.get('longitudeOfFirstGridPointInDegrees'),)).rstrip('0').rstrip('.')
         long_last = 'M' if 'longitudeOfLastGridPointInDegrees' in self._missing_keys else ('%.4f' % (self._geo_keys.get('longitudeOfLastGridPointInDegrees'),)).rstrip('0').rstrip('.')
         grid_id = f'{long_first}${long_last}${ni}${nj}${num_of_values}${self._grid_type}'
-- 
2.43.0


From 2b439e4ad26fbadf0704a229a1866794d2e4cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 56/89] fix: a table whose file is missing is created again
 without a global configuration

---
 src/pyg2p/main/interpolation/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 6965625..2f32b41 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -82,7 +82,8 @@ class Interpolator(Loggable):
         if self._logger.isEnabledFor(logging.DEBUG):
             self._logger.debug(f'Using {tbl_fullpath} for id {intertable_id}')
         if not tbl_fullpath or not (pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')):
-            tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['global'], filename))
+            # (there could be no global configuration)
+            tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['global'] or self._intertable_dirs['user'] or '', filename))
             if not (pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')):
                 # will create a new intertable but with same filename/id
                 # as an existing configuration was already found but file is missing for some reasons
-- 
2.43.0


From f5679fb151622c59b2075cc6ba4cacb889936633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 57/89] fix: tables in memory are read again when their file
 was replaced

---
 src/pyg2p/main/interpolation/__init__.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 2f32b41..6aae3c2 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -113,9 +113,20 @@ class Interpolator(Loggable):
             return False
         return pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')
 
+    @staticmethod
+    def _intertable_version(tbl_fullpath):
+        # another process could have replaced the file with the table of another set-up
+        for f in (tbl_fullpath, tbl_fullpath + '.gz'):
+            if pyg2p.util.files.exists(f):
+                stat = os.stat(f)
+                return stat.st_ino, stat.st_size, stat.st_mtime_ns
+        return None
+
     def _read_intertable(self, tbl_fullpath):
 
-        if tbl_fullpath not in self._LOADED_INTERTABLES:
+        version = self._intertable_version(tbl_fullpath)
+        loaded_version, intertable = self._LOADED_INTERTABLES.get(tbl_fullpath, (None, None))
+        if version is None or loaded_version != version:
             f = tbl_fullpath
             if tbl_fullpath.endswith('.gz'):
                 f = gzip.GzipFile(tbl_fullpath, 'r')
@@ -131,10 +142,8 @@ class Interpolator(Loggable):
                     f = gzip.GzipFile(f, 'r')
                     intertable = np.load(f)
                     f.close()
-            self._LOADED_INTERTABLES[tbl_fullpath] = intertable
+            self._LOADED_INTERTABLES[tbl_fullpath] = (version, intertable)
             self._log(f'Using interpolation table: {tbl_fullpath}', 'INFO')
-        else:
-            intertable = self._LOADED_INTERTABLES[tbl_fullpath]
 
         if self._mode == 'grib_nearest':
             # grib nearest neighbour table
@@ -387,7 +396,7 @@ class Interpolator(Loggable):
         os.replace(tmp_name, intertable_name)
 
     def update_intertable_conf(self, intertable, intertable_id, intertable_name, source_shape):
-        self._LOADED_INTERTABLES[intertable_name] = intertable
+        self._LOADED_INTERTABLES[intertable_name] = (self._intertable_version(intertable_name), intertable)
         new_intertable_conf_item = {'filename': pyg2p.util.files.filename(intertable_name),
                                     'method': self._mode,
                                     'source_shape': source_shape,
-- 
2.43.0


From a86be69189a6105ae33111dca559553eb077b475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 58/89] fix: a corrector is reused only while the files it was
 made from are the same

---
 src/pyg2p/main/manipulation/correction.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 119a4e7..482e998 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -1,4 +1,5 @@
 import logging
+import os
 
 import numexpr as ne
 import numpy as np
@@ -28,8 +29,11 @@ class Corrector(Loggable):
         geo_file_ = ctx.geo_file(grid_id)
         dem_map = ctx.get('correction.demMap')
         # an instance holds the formulas and the geopotential interpolated on the target grid
-        key = (grid_id, dem_map, geo_file_, ctx.get('correction.formula'), ctx.get('correction.gemFormula'),
-               ctx.get('interpolation.mode'), ctx.get('interpolation.latMap'), ctx.get('interpolation.lonMap'))
+        # (files could be replaced while the process is running)
+        files = (dem_map, geo_file_, ctx.get('interpolation.latMap'), ctx.get('interpolation.lonMap'))
+        key = (grid_id, ctx.get('correction.formula'), ctx.get('correction.gemFormula'), ctx.get('interpolation.mode'),
+               ctx.get('interpolation.cdd_map'), ctx.get('interpolation.cdd_mode'), str(ctx.get('interpolation.cdd_options')),
+               files, tuple(cls._file_version(f) for f in files))
         if key in cls.instances:
             return cls.instances[key]
         else:
@@ -37,6 +41,11 @@ class Corrector(Loggable):
             cls.instances[key] = instance
             return instance
 
+    @staticmethod
+    def _file_version(filepath):
+        stat = os.stat(filepath)
+        return stat.st_ino, stat.st_size, stat.st_mtime_ns
+
     def __init__(self, ctx, grid_id, geo_file):
         super().__init__()
         self.geo_file = geo_file
-- 
2.43.0


From 0a9110ce86a59f2a8802e84cdac7c0e917934a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 59/89] fix: messages of two resolutions can be in any order in
 the file

---
 src/pyg2p/main/readers/grib.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 7502c47..ce77d8e 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -151,8 +151,9 @@ class GRIBReader(Loggable):
         self._log(f'Selected {len(self._selected_grbs)} grib messages')
 
         if len(self._selected_grbs) > 0:
-            self._gid_main_res = self._selected_grbs[0]
-            grid = GribGridDetails(self._selected_grbs[0])
+            # the first resolution is the one of the first step, wherever its messages are in the file
+            self._gid_main_res = min(self._selected_grbs, key=lambda gid: codes_get(gid, 'endStep'))
+            grid = GribGridDetails(self._gid_main_res)
             # some cumulated messages come with the message at step=0 as instant, to permit aggregation
             # cumulated rainfall rates could have the step zero instant message as kg/m^2, instead of kg/(m^2*s)
             if len(self._selected_grbs) > 1:
@@ -184,7 +185,7 @@ class GRIBReader(Loggable):
 
                 step_key = Step(start_step, end_step, points_meridian, input_step, level)
 
-                if points_meridian != grid.num_points_along_meridian and grid.get_2nd_resolution() is None:
+                if points_meridian != grid.num_points_along_meridian and grid2 is None:
                     # found second resolution messages
                     grid2 = GribGridDetails(g)
                     self._gid_ext_res = g
@@ -200,13 +201,13 @@ class GRIBReader(Loggable):
                     bitmap = codes_get_array(g, 'bitmap', int)
                     values = ma.masked_where(bitmap == 0, values, copy=False)
 
-                if not grid2:
+                if points_meridian == grid.num_points_along_meridian:
                     all_values[step_key] = values
-                elif points_meridian != grid.num_points_along_meridian:
+                else:
                     all_values_second_res[step_key] = values
 
             if grid2:
-                key_2nd_spatial_res = min(all_values_second_res.keys())
+                key_2nd_spatial_res = min(all_values_second_res.keys(), key=lambda k: int(k.end_step))
                 grid.set_2nd_resolution(grid2, key_2nd_spatial_res)
             return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=f'{int(data_time):04d}')
         # no messages found
-- 
2.43.0


From 5f0d31b58d1817854719585fc31fa15bc17f0022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 60/89] fix: accumulated messages at the first resolution are
 aggregated up to the change of resolution

---
 src/pyg2p/main/controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 2cc62ae..d2e0eb0 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -116,8 +116,9 @@ class Controller(Loggable):
         if self.ctx.must_do_aggregation:
             if messages.have_resolution_change():
                 change_res_step = messages.change_resolution_step()
-                # First resolution manipulation by setting end step as start step of the first message at 2nd resolution
-                aggregator.change_end_step(int(change_res_step.start_step))
+                # First resolution manipulation by setting end step as the step of the first message at 2nd resolution
+                # (accumulated messages start from 0)
+                aggregator.change_end_step(int(change_res_step.end_step))
             values = aggregator.do_manipulation(values)
 
         change_res_step = None
-- 
2.43.0


From 4a5421e5c52c5ab9355a1e743c2edb86eb8acbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 61/89] fix: messages at two resolutions are extracted also
 without aggregation

---
 src/pyg2p/main/controller.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index d2e0eb0..0f5c84b 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -124,11 +124,18 @@ class Controller(Loggable):
         change_res_step = None
         if messages.have_resolution_change():
             change_res_step = messages.change_resolution_step()
-            start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
             # we need GRIB lats and lons only for scipy interpolation
-            if self.ctx.must_do_aggregation and end_step > start_step2:
-                # second resolution manipulation
-                change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
+            if not self.ctx.must_do_aggregation:
+                # a step available at both resolutions is taken from the first one
+                last_step = max(int(k.end_step) for k in values)
+                values2 = {k: v for k, v in messages.second_resolution_values().items() if int(k.end_step) > last_step}
+                values = {**values, **values2}
+                change_res_step = min(values2, key=lambda k: int(k.end_step), default=None)
+            else:
+                start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
+                if end_step > start_step2:
+                    # second resolution manipulation
+                    change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
 
         # cutoff after interpolation
         if converter and converter.must_cut_off:
-- 
2.43.0


From 337f09d076a1aaa8494383aeb1ad253bb8b42d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 62/89] fix: the last interval at the second resolution is
 aggregated also when it is the only one

---
 src/pyg2p/main/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 0f5c84b..d5f8701 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -133,7 +133,7 @@ class Controller(Loggable):
                 change_res_step = min(values2, key=lambda k: int(k.end_step), default=None)
             else:
                 start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
-                if end_step > start_step2:
+                if end_step >= start_step2:
                     # second resolution manipulation
                     change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
 
-- 
2.43.0


From 1bd1bb09d0e9444cc1cefe93dbec98b595ada624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 63/89] fix: the step where the resolution changes gives one
 map

---
 src/pyg2p/main/controller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index d5f8701..627aa5f 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -70,6 +70,9 @@ class Controller(Loggable):
                         end_step=end_step, unit_time=self.ctx.get('outMaps.unitTime'), mv_grib=mv_grib,
                         force_zero_array=self.ctx.get('aggregation.forceZeroArray'))
         values2 = m2.do_manipulation(messages.second_resolution_values())
+        # (the map of the change step comes from the first resolution)
+        change_step = start_step - int(self.ctx.get('aggregation.step'))
+        values2 = {k: v for k, v in values2.items() if int(k.end_step) > change_step}
         values.update(values2)
         # overwrite change_step resolution because of manipulation
         change_step = sorted(values2.keys(), key=lambda k: int(k.end_step))[0]
-- 
2.43.0


From 14c318ae93f97c0760368695a8793f0e52e5326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 64/89] fix: without an end step messages of the second input
 file are read to their end

---
 src/pyg2p/main/controller.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 627aa5f..fc3010f 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -40,6 +40,9 @@ class Controller(Loggable):
         end_step = self.ctx.get('parameter.tend')
         if end_step is None:
             end_step = grib_info.end
+            if self.ctx.is_2_input_files:
+                grib_info2 = self.second_reader().get_grib_info(self.ctx.create_select_cmd_for_aggregation_attrs())
+                end_step = max(end_step, grib_info2.end)
 
         if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
             self.ctx.set_input_file_with_geopotential()
@@ -78,11 +81,15 @@ class Controller(Loggable):
         change_step = sorted(values2.keys(), key=lambda k: int(k.end_step))[0]
         return change_step, values
 
+    def second_reader(self):
+        if not self.grib_reader2:
+            self.grib_reader2 = GRIBReader(self.ctx.get('input.file2'), w_perturb=self.ctx.has_perturbation_number)
+        return self.grib_reader2
+
     def read_2nd_res_messages(self, cmd_args, messages):
         # append messages
-        self.grib_reader2 = GRIBReader(self.ctx.get('input.file2'), w_perturb=self.ctx.has_perturbation_number)
         # messages.change_resolution() returns True after Messages.append_2nd_res_messages()
-        mess_2nd_res = self.grib_reader2.select_messages(**cmd_args)
+        mess_2nd_res = self.second_reader().select_messages(**cmd_args)
         messages.append_2nd_res_messages(mess_2nd_res)
 
     def execute(self, write_results=True):
-- 
2.43.0


From 057ffcd3e6f07a6bbfdf8aed4004147c0874ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 65/89] fix: the geopotential in the input is used only for the
 grid it is defined on

---
 src/pyg2p/main/context.py                 | 10 ++++++----
 src/pyg2p/main/controller.py              |  7 +++++--
 src/pyg2p/main/manipulation/correction.py | 14 ++++++++++----
 src/pyg2p/main/readers/grib.py            | 12 +++++++-----
 4 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 959b4bb..93c475a 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -26,7 +26,8 @@ class Context:
         self.configuration = Configuration()
         # init vars
         self.to_add_geopotential = False
-        self.input_file_with_geopotential = None
+        # input files having the geopotential of a grid
+        self.input_files_with_geopotential = {}
         self._vars = {}
 
     def _define_exec_params(self):
@@ -39,8 +40,9 @@ class Context:
     def get(self, param, default=None):
         return self._vars.get(param, default)
 
-    def set_input_file_with_geopotential(self):
-        self.input_file_with_geopotential = self.get('input.file')
+    def set_input_file_with_geopotential(self, filepath, grid_ids):
+        for grid_id in grid_ids:
+            self.input_files_with_geopotential.setdefault(grid_id, filepath)
 
     @property
     def is_with_grib_interpolation(self):
@@ -139,7 +141,7 @@ class Context:
                 raise ApplicationException.get_exc(4200, self._vars['correction.demMap'])
 
     def geo_file(self, grid_id):
-        path = self.input_file_with_geopotential
+        path = self.input_files_with_geopotential.get(grid_id)
         if not path:
             path = self.configuration.geopotentials.get_filepath(grid_id, additional=self._vars['geopotential.dirs'].get('user'))
         return path
diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index fc3010f..35a903c 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -44,8 +44,11 @@ class Controller(Loggable):
                 grib_info2 = self.second_reader().get_grib_info(self.ctx.create_select_cmd_for_aggregation_attrs())
                 end_step = max(end_step, grib_info2.end)
 
-        if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
-            self.ctx.set_input_file_with_geopotential()
+        if self.ctx.must_do_correction:
+            # the geopotential in the input is used for the grid it is defined on
+            self.ctx.set_input_file_with_geopotential(self.ctx.get('input.file'), self.grib_reader.geopotential_grids())
+            if self.ctx.is_2_input_files:
+                self.ctx.set_input_file_with_geopotential(self.ctx.get('input.file2'), self.second_reader().geopotential_grids())
 
         if self.ctx.must_do_aggregation:
             aggregator = Aggregator(aggr_step=self.ctx.get('aggregation.step'),
diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 482e998..e0f47ed 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -102,11 +102,17 @@ class Corrector(Loggable):
         kwargs = {'shortName': GeopotentialsConfiguration.short_names}
         geopotential_gribs = reader.select_messages(**kwargs)
         missing = geopotential_gribs.missing_value
-        values = geopotential_gribs.first_resolution_values()[geopotential_gribs.first_step_range]
         aux_g, aux_v, aux_g2, aux_v2 = reader.get_gids_for_grib_intertable()
+        grid = geopotential_gribs.grid_details
+        values = geopotential_gribs.first_resolution_values()[geopotential_gribs.first_step_range]
+        if geopotential_gribs.have_resolution_change() and geopotential_gribs.grid2_id == self.grid_id:
+            # the file has geopotentials at two resolutions
+            grid = grid.get_2nd_resolution()
+            values = geopotential_gribs.second_resolution_values()[geopotential_gribs.change_resolution_step()]
+            aux_g, aux_v = aux_g2, aux_v2
         interpolator = Interpolator(ctx, missing)
         self._mv_interpolated = interpolator.mv_output
-        interpolator.aux_for_intertable_generation(aux_g, aux_v, aux_g2, aux_v2)
+        interpolator.aux_for_intertable_generation(aux_g, aux_v, None, None)
 
         # get temp from geopotential. will be gem in the formula
         # variables below are used by numexpr evaluation namespace: DO NOT DELETE!
@@ -118,8 +124,8 @@ class Corrector(Loggable):
             values_resampled = interpolator.interpolate_grib(values, -1, self.grid_id)
         else:
             # FOR GEOPOTENTIALS, SOME GRIBS COME WITHOUT LAT/LON GRIDS!
-            lats, lons = geopotential_gribs.latlons
-            values_resampled = interpolator.interpolate_scipy(lats, lons, values, self.grid_id, geopotential_gribs.grid_details)
+            lats, lons = grid.latlons
+            values_resampled = interpolator.interpolate_scipy(lats, lons, values, self.grid_id, grid)
         reader.close()
         return missing, values_resampled
 
diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index ce77d8e..1fda7a1 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -81,8 +81,9 @@ class GRIBReader(Loggable):
             self._file_handler.close()
             self._file_handler = None
 
-    def has_geopotential(self):
-        has_geo = False
+    def geopotential_grids(self):
+        # ids of the grids having a geopotential in this file
+        grid_ids = set()
         from pyg2p.main.config import GeopotentialsConfiguration
         v_selected = GeopotentialsConfiguration.short_names
         if self._grbindx:
@@ -92,7 +93,7 @@ class GRIBReader(Loggable):
                     gid = codes_new_from_index(self._grbindx)
                     if gid is None:
                         break
-                    has_geo = True
+                    grid_ids.add(GribGridDetails(gid).grid_id)
                     codes_release(gid)
 
         elif self._file_handler:
@@ -100,9 +101,10 @@ class GRIBReader(Loggable):
                 gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
                     break
-                has_geo = True
+                if GRIBReader._find(gid, shortName=v_selected):
+                    grid_ids.add(GribGridDetails(gid).grid_id)
                 codes_release(gid)
-        return has_geo
+        return grid_ids
 
     def scan_grib(self, **kwargs):
         gribs = []
-- 
2.43.0


From 6fa434db50bf4f8868eb9e736353b15f10a29eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 66/89] fix: a geopotential already in the user folder can be
 added to the configuration

---
 src/pyg2p/main/config.py | 3 ++-
 src/pyg2p/util/files.py  | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 6d7a91e..26cf70b 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -269,7 +269,8 @@ class GeopotentialsConfiguration(BaseConfiguration):
                                                    details=f'{name} is used by another grid. File was not added: {filepath}')
             self.check_write()
 
-            file_util.copy(filepath, self.data_path)
+            if not file_util.same_file(filepath, os.path.join(self.data_path, name)):
+                file_util.copy(filepath, self.data_path)
             self.vars[id_] = name
             self.user_vars[id_] = name
 
diff --git a/src/pyg2p/util/files.py b/src/pyg2p/util/files.py
index 492f73a..c4640d2 100644
--- a/src/pyg2p/util/files.py
+++ b/src/pyg2p/util/files.py
@@ -28,6 +28,10 @@ def exists(pathname, is_folder=False):
     return os.path.exists(pathname) and (os.path.isdir(pathname) if is_folder else os.path.isfile(pathname))
 
 
+def same_file(pathname, other):
+    return os.path.exists(other) and os.path.samefile(pathname, other)
+
+
 def is_xml(pathname):
     return os.path.isfile(pathname) and pathname.endswith('.xml')
 
-- 
2.43.0


From 1769a6add8a85446a36f2b4b360f3c84e29e9e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 67/89] fix: entries removed by others are no longer in a
 configuration being updated

---
 src/pyg2p/main/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 26cf70b..1ea2ece 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -157,7 +157,8 @@ class BaseConfiguration(pyg2p.Loggable):
         with self.locked():
             if file_util.exists(self.config_file):
                 self.user_vars = self._load()
-                self.vars.update(self.user_vars)
+                # (entries removed meanwhile are not kept)
+                self.vars = {**self.load_global(), **self.user_vars}
             yield
             self.dump()
 
-- 
2.43.0


From f1cb3702885742598c10f2f510f45a51169ee774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 68/89] fix: netCDF coordinates of rows and columns whose first
 cell has no coordinates are written

---
 src/pyg2p/main/writers/netcdf.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index b119dc1..ea6c390 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -164,8 +164,15 @@ class NetCDFWriter(Writer):
                     values_nc[t,:,:]=values_all[:,:]
             else:
                 values_nc[t, :, :] = values[t,:,:]
-        longitude[:] = self.lons[0,:]
-        latitude[:] = self.lats[:,0]
+        # (cells of the target maps can be without coordinates)
+        longitude[:] = self._first_known(self.lons)
+        latitude[:] = self._first_known(self.lats.T)
+
+    @staticmethod
+    def _first_known(coordinates):
+        coordinates = ma.filled(coordinates, np.nan)
+        rows = np.argmax(~np.isnan(coordinates), axis=0)
+        return coordinates[rows, np.arange(coordinates.shape[1])]
 
     def _mask_values(self, values, mv):
         # Extend the mask to match the shape of values
-- 
2.43.0


From 9292e3508e7a293647c6439b5c2b0773bb009737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 69/89] fix: values out of the valid range are missing in the
 netCDF output also when the range is not a number of its format

---
 src/pyg2p/main/writers/netcdf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index ea6c390..c9434c3 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -148,6 +148,11 @@ class NetCDFWriter(Writer):
         # adjust missing values when scale_factor and offset are not 1.0 - 0.0 
         mv_scaled = np.float64(missing_value_to_use) * np.float64(varargs.get('scale_factor', '1.0')) + np.float64(varargs.get('offset', '0.0'))
         values = self._mask_values(values, mv_scaled)
+        # (the valid range is ignored by readers when it is not a number of the format)
+        if varargs.get('valid_min', None) is not None:
+            values[values < np.float64(varargs.get('valid_min'))] = mv_scaled
+        if varargs.get('valid_max', None) is not None:
+            values[values > np.float64(varargs.get('valid_max'))] = mv_scaled
         values[np.isnan(values)] = mv_scaled
 
         for t in range(len(time_values)):
-- 
2.43.0


From d5da26fe7034c56e08cf54f0dcd475e3a011f39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 70/89] fix: unsigned and 64 bits integers can be used as
 format of the netCDF output

---
 src/pyg2p/main/writers/__init__.py |  2 +-
 src/pyg2p/main/writers/netcdf.py   | 34 ++++++++++++++++++++----------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index f93c81f..d90a1d0 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -85,7 +85,7 @@ class OutputWriter(Loggable):
                         value_format=self.ctx.get('outMaps.valueFormat'),
                         offset=self.ctx.get('outMaps.offset'),
                         scale_factor=self.ctx.get('outMaps.scaleFactor'))
-        self.writer.init_dataset(out_filename)
+        self.writer.init_dataset(out_filename, var_args['value_format'])
 
         self.writer.write(out_values, time_values, **var_args)
 
diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index c9434c3..92deba4 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -49,8 +49,10 @@ class NetCDFWriter(Writer):
             self.lats[self.lats == coordinates_mv] = np.nan
             self.lons[self.lons == coordinates_mv] = np.nan
 
-    def init_dataset(self, out_filename):
-        self.nf = Dataset(out_filename, 'w', format='NETCDF4_CLASSIC')
+    def init_dataset(self, out_filename, value_format=None):
+        # the classic model has no unsigned nor 64 bits integers
+        data_model = 'NETCDF4' if value_format in ('u1', 'u2', 'u4', 'u8', 'i8') else 'NETCDF4_CLASSIC'
+        self.nf = Dataset(out_filename, 'w', format=data_model)
         self.filepath = out_filename
         time_created = time.ctime(time.time())
         self.nf.history = f'Created {time_created}'
@@ -143,17 +145,16 @@ class NetCDFWriter(Writer):
             values_nc.valid_min = (np.float64(varargs.get('valid_min', None)) - np.float64(varargs.get('offset', '0.0'))) / np.float64(varargs.get('scale_factor', '1.0'))
         if varargs.get('valid_max', None) is not None:            
             values_nc.valid_max = (np.float64(varargs.get('valid_max', None)) - np.float64(varargs.get('offset', '0.0'))) / np.float64(varargs.get('scale_factor', '1.0'))
-        values_nc.set_auto_maskandscale(True)         
-        
-        # adjust missing values when scale_factor and offset are not 1.0 - 0.0 
-        mv_scaled = np.float64(missing_value_to_use) * np.float64(varargs.get('scale_factor', '1.0')) + np.float64(varargs.get('offset', '0.0'))
-        values = self._mask_values(values, mv_scaled)
+        # values are packed here: not all missing values can be computed from their unpacked value
+        values_nc.set_auto_maskandscale(False)
+
+        values = self._mask_values(values, np.nan)
         # (the valid range is ignored by readers when it is not a number of the format)
         if varargs.get('valid_min', None) is not None:
-            values[values < np.float64(varargs.get('valid_min'))] = mv_scaled
+            values[values < np.float64(varargs.get('valid_min'))] = np.nan
         if varargs.get('valid_max', None) is not None:
-            values[values > np.float64(varargs.get('valid_max'))] = mv_scaled
-        values[np.isnan(values)] = mv_scaled
+            values[values > np.float64(varargs.get('valid_max'))] = np.nan
+        values = self._pack(values, values_nc, missing_value_to_use)
 
         for t in range(len(time_values)):
             if DEBUG_BILINEAR_INTERPOLATION:
@@ -164,7 +165,7 @@ class NetCDFWriter(Writer):
                     # European_1arcmin DEBUG
                     selection_lats = np.logical_and(self.lats[:,0]>=DEBUG_MIN_LAT,self.lats[:,0]<=DEBUG_MAX_LAT)
                     selection_lons = np.logical_and(self.lons[0,:]>=DEBUG_MIN_LON,self.lons[0,:]<=DEBUG_MAX_LON)
-                    values_all=values_nc[t,:,:].data
+                    values_all=values_nc[t,:,:]
                     values_all[np.ix_(selection_lats,selection_lons)] = values[t, :, :]
                     values_nc[t,:,:]=values_all[:,:]
             else:
@@ -173,6 +174,17 @@ class NetCDFWriter(Writer):
         longitude[:] = self._first_known(self.lons)
         latitude[:] = self._first_known(self.lats.T)
 
+    @staticmethod
+    def _pack(values, values_nc, missing_value):
+        packed = (values - values_nc.add_offset) / values_nc.scale_factor
+        if values_nc.dtype.kind in 'iu':
+            packed = np.around(packed)
+        is_missing = np.isnan(packed)
+        packed[is_missing] = 0
+        packed = packed.astype(values_nc.dtype)
+        packed[is_missing] = missing_value
+        return packed
+
     @staticmethod
     def _first_known(coordinates):
         coordinates = ma.filled(coordinates, np.nan)
-- 
2.43.0


From 4a3bcf8fe86c2ca555a1940929e22b4d6f863f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 71/89] fix: maps with a long prefix no longer overwrite each
 other

---
 src/pyg2p/main/writers/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index d90a1d0..ef88e33 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -108,7 +108,7 @@ class OutputWriter(Loggable):
             if self.ctx.must_do_correction:
                 corrector = Corrector.get_instance(self.ctx, grid_id)
                 out_v = corrector.correct(out_v)
-            self.writer.write(self._name_pcr_map(i), out_v)
+            self.writer.write(self._name_pcr_map(i, len(values)), out_v)
 
     def write_maps(self, values, messages, change_res_step=None):
         write_method = getattr(self, f"_write_maps_{self.ctx.get('outMaps.format')}")
@@ -121,12 +121,14 @@ class OutputWriter(Loggable):
         out_filename = os.path.join(self.ctx.get('outMaps.outDir'), filename)
         return out_filename
 
-    def _name_pcr_map(self, i_map):
+    def _name_pcr_map(self, i_map, num_maps):
         # Used for pcraster output maps
         # return a full path for output map, of the type 8.3  {prefix}[000000].0[0]{seq}
-        filename = self.ctx.get('outMaps.namePrefix')
         map_number = self.ctx.get('outMaps.fmap') + (i_map - 1) * self.ctx.get('outMaps.ext')
-        zeroes = 11 - len(self.ctx.get('outMaps.namePrefix')) - len(str(map_number))
+        last_number = self.ctx.get('outMaps.fmap') + (num_maps - 1) * self.ctx.get('outMaps.ext')
+        # a long prefix leaves room for the numbers of all maps, otherwise a map would overwrite another one
+        filename = self.ctx.get('outMaps.namePrefix')[:11 - len(str(last_number))]
+        zeroes = 11 - len(filename) - len(str(map_number))
         for g in range(zeroes):
             filename += '0'
         filename += str(map_number)
-- 
2.43.0


From e39f0b9eb19a04f0214a358df70aeedc149c6ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 72/89] fix: the API reads all selections and folders also from
 the sections of its dictionary

---
 src/pyg2p/main/api.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 1f61d34..7818d53 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -99,12 +99,13 @@ class ApiContext(Context):
         self._vars['logger.level'] = self.api_conf.get('loggerLevel', 'INFO')
 
         self._vars['input.file'] = self.api_conf['inputFile']
-        self._vars['parameter.tstart'] = self.api_conf['start']
-        self._vars['parameter.tend'] = self.api_conf['end']
+        self._vars['parameter.tstart'] = self.api_conf.get('start')
+        self._vars['parameter.tend'] = self.api_conf.get('end')
         self._vars['parameter.dataTime'] = self.api_conf.get('dataTime')
         self._vars['parameter.dataDate'] = self.api_conf.get('dataDate')
-        self._vars['interpolation.dir'] = self.api_conf.get('intertableDir')
-        self._vars['geopotential.dir'] = self.api_conf.get('geopotentialDir')
+        interpolation_conf = self.api_conf['OutMaps']['Interpolation']
+        self._vars['interpolation.dir'] = self.api_conf.get('intertableDir') or interpolation_conf.get('intertableDir')
+        self._vars['geopotential.dir'] = self.api_conf.get('geopotentialDir') or interpolation_conf.get('geopotentialDir')
         self._vars['interpolation.create'] = self.api_conf.get('createIntertable', False)
         self._vars['interpolation.parallel'] = self.api_conf.get('interpolationParallel', True)
         self._vars['outMaps.fmap'] = self.api_conf.get('fmap')
@@ -166,7 +167,6 @@ class ApiContext(Context):
                 self._vars['geopotential.dirs']['user'] = self.api_conf['geopotentialDir']
 
         self._vars['outMaps.clone'] = self.api_conf['OutMaps']['cloneMap']
-        interpolation_conf = self.api_conf['OutMaps']['Interpolation']
         self._vars['interpolation.mode'] = interpolation_conf.get('mode', self.default_values['interpolation.mode'])
         self._vars['interpolation.cdd_map'] = interpolation_conf.get('cdd_map', '')
         self._vars['interpolation.cdd_mode'] = interpolation_conf.get('cdd_mode', '')
@@ -211,6 +211,8 @@ class ApiContext(Context):
             self._vars['parameter.dataTime'] = int(self.api_conf['Parameter']['dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and self.api_conf['Parameter'].get('dataDate'):
             self._vars['parameter.dataDate'] = int(self.api_conf['Parameter']['dataDate'])  # date
+        if self._vars['parameter.perturbationNumber'] is None and self.api_conf['Parameter'].get('perturbationNumber') not in (None, ''):
+            self._vars['parameter.perturbationNumber'] = int(self.api_conf['Parameter']['perturbationNumber'])  # number
 
         self._vars['parameter.level'] = self.api_conf['Parameter'].get('level')  # number
 
-- 
2.43.0


From c51cf82c2bfe209056f624b503cf8f947e2a2223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 73/89] fix: flags and quoted values in the command string of a
 command

---
 src/pyg2p/util/strings.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/util/strings.py b/src/pyg2p/util/strings.py
index 0c2231e..71a3540 100644
--- a/src/pyg2p/util/strings.py
+++ b/src/pyg2p/util/strings.py
@@ -25,12 +25,31 @@ def _is_empty_string(string_):
 
 def to_argv(string_):
     c = csv.reader(csv.StringIO(string_), delimiter=" ")
-    return list(filter(_is_empty_string, list(c)[0]))
+    return list(filter(_is_empty_string, next(c, [])))
 
 
 def to_argdict(string_):
-    c = re.split(' |=', string_.strip(), maxsplit=0)
-    return dict(zip(c[0::2], c[1::2]))
+    """
+    Options of a command string and their values. Values of flags are empty strings
+    """
+    args = {}
+    option = None
+    for token in to_argv(string_.strip()):
+        if _is_option(token):
+            option, sep, value = token.partition('=')
+            args[option] = value
+            option = None if sep else option
+        elif option is None:
+            option = token
+        else:
+            args[option] = token
+            option = None
+    return args
+
+
+def _is_option(token):
+    # negative numbers are values
+    return re.match(r'--?[a-zA-Z]', token) is not None
 
 
 FALSE_STRINGS = ['FALSE', 'F', 'f', 'False', 'false', 'NO', 'no', 'No', '0', 'off', 'OFF', 'Off', 'nO']
-- 
2.43.0


From 8d385d24629ba9ad7edf6c1f3eb8d63394907e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 74/89] fix: commands can be created without a command string

---
 src/pyg2p/main/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 7818d53..5a68267 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -1,4 +1,5 @@
 import collections
+import re
 from functools import partial
 from pathlib import Path
 from types import MethodType
@@ -52,7 +53,7 @@ class Command:
         return self
 
     def __init__(self, cmd_string=None, **params):
-        cmd_string = cmd_string.lstrip('pyg2p').strip()
+        cmd_string = re.sub(r'^\s*pyg2p(\.py)?(?=\s|$)', '', cmd_string or '').strip()
         if params:
             opts = params.copy()
             # string interpolation
-- 
2.43.0


From 2c09137b78f13eb3359570a2ba9cf6d69d2e9373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 75/89] fix: values with spaces of a command are passed whole

---
 src/pyg2p/main/api.py     | 4 ++--
 src/pyg2p/util/strings.py | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 5a68267..bb309ab 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -14,7 +14,7 @@ from .manipulation.correction import Corrector
 from .readers import GRIBReader, PCRasterReader
 from ..main import pyg2p_exe
 from ..util import strings
-from ..util.strings import to_argv, to_argdict
+from ..util.strings import to_argv, to_argdict, quoted
 
 
 def command(*args, **kwargs):
@@ -72,7 +72,7 @@ class Command:
     def __str__(self):
         cmd = 'pyg2p '
         self._d = collections.OrderedDict(sorted(self._d.items(), key=lambda k: k[0]))
-        args = ''.join(['%s %s ' % (key, value) for (key, value) in self._d.items()]).strip()
+        args = ''.join(['%s %s ' % (key, quoted(str(value))) for (key, value) in self._d.items()]).strip()
         return cmd + args
 
     def run(self):
diff --git a/src/pyg2p/util/strings.py b/src/pyg2p/util/strings.py
index 71a3540..ded4f03 100644
--- a/src/pyg2p/util/strings.py
+++ b/src/pyg2p/util/strings.py
@@ -28,6 +28,15 @@ def to_argv(string_):
     return list(filter(_is_empty_string, next(c, [])))
 
 
+def quoted(value):
+    """
+    Value as it is written in a command string (see to_argv)
+    """
+    if ' ' in value or value.startswith('"'):
+        value = '"{}"'.format(value.replace('"', '""'))
+    return value
+
+
 def to_argdict(string_):
     """
     Options of a command string and their values. Values of flags are empty strings
-- 
2.43.0


From e1c367b1a5bf247c3d4c7df0169e73cdf5f67a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 76/89] fix: invalid modes and maps of cdd stop the execution
 instead of being ignored

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 3c2e952..46d8e8d 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -573,7 +573,7 @@ class ScipyInterpolation(object):
         try:
             assert len(source_locations) == len(source_values), "len(coordinates) {} != len(values) {}".format(len(source_locations), len(source_values))
         except AssertionError as e:
-            ApplicationException.get_exc(WEIRD_STUFF, details=str(e))
+            raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e))
 
         stdout.write('Building KDTree...\n')
         self.tree = KDTree(source_locations, leafsize=30)  # build the tree
@@ -897,7 +897,7 @@ class ScipyInterpolation(object):
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
-                        ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
+                        raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
 
                     stdout.write('\nEvaluating cutoffs...')
                     
@@ -908,7 +908,7 @@ class ScipyInterpolation(object):
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
-                        ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
+                        raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
 
                     if DEBUG_ADW_INTERPOLATION:
                         stdout.write('\nEvaluating cutoffs...')
@@ -934,7 +934,7 @@ class ScipyInterpolation(object):
                     s = cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, self.longrib, self.latgrib, 
                                                                         TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s)
                 else:
-                    ApplicationException.get_exc(WEIRD_STUFF, "\nCDD mode unknown={}".format(CDDmode))
+                    raise ApplicationException.get_exc(WEIRD_STUFF, "\nCDD mode unknown={}".format(CDDmode))
 
                 # consider only TOP 10 weights instead of all:
                 if weights_mode == "OnlyTOP10":
-- 
2.43.0


From ead6044793dc944ba183b8064469053d523f614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 77/89] fix: incomplete corrections are errors instead of being
 ignored

---
 src/pyg2p/main/api.py     | 10 ++++++----
 src/pyg2p/main/context.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index bb309ab..4fde224 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -159,11 +159,13 @@ class ApiContext(Context):
             self._vars['parameter.conversionFunction'] = conversion['@function']
             self._vars['parameter.cutoffnegative'] = strings.to_boolean(conversion.get('@cutOffNegative'))
 
-        if self.api_conf['Parameter'].get('correctionFormula') and self.api_conf['Parameter'].get('gem') and self.api_conf['Parameter'].get('demMap'):
+        # (all of them are needed: see _check_exec_params)
+        correction = {p: self.api_conf['Parameter'].get(p) or '' for p in ('correctionFormula', 'gem', 'demMap')}
+        if any(correction.values()):
             self._vars['execution.doCorrection'] = True
-            self._vars['correction.formula'] = self.api_conf['Parameter']['correctionFormula']
-            self._vars['correction.gemFormula'] = self.api_conf['Parameter']['gem']
-            self._vars['correction.demMap'] = self.api_conf['Parameter']['demMap']
+            self._vars['correction.formula'] = correction['correctionFormula']
+            self._vars['correction.gemFormula'] = correction['gem']
+            self._vars['correction.demMap'] = correction['demMap']
             if not self._vars['geopotential.dir'] and self.api_conf.get('geopotentialDir'):
                 self._vars['geopotential.dirs']['user'] = self.api_conf['geopotentialDir']
 
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 93c475a..d09d38e 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -356,12 +356,13 @@ class ExecutionContext(Context):
             self._vars['parameter.conversionFunction'] = conversion['@function']
             self._vars['parameter.cutoffnegative'] = strings.to_boolean(conversion.get('@cutOffNegative'))
 
-        if exec_conf['Parameter'].get('@correctionFormula') and exec_conf['Parameter'].get('@gem') and exec_conf[
-            'Parameter'].get('@demMap'):
+        # (all of them are needed: see _check_exec_params)
+        correction = {p: exec_conf['Parameter'].get(p) or '' for p in ('@correctionFormula', '@gem', '@demMap')}
+        if any(correction.values()):
             self._vars['execution.doCorrection'] = True
-            self._vars['correction.formula'] = exec_conf['Parameter']['@correctionFormula']
-            self._vars['correction.gemFormula'] = exec_conf['Parameter']['@gem']
-            self._vars['correction.demMap'] = exec_conf['Parameter']['@demMap']
+            self._vars['correction.formula'] = correction['@correctionFormula']
+            self._vars['correction.gemFormula'] = correction['@gem']
+            self._vars['correction.demMap'] = correction['@demMap']
 
         self._vars['outMaps.clone'] = exec_conf['OutMaps']['@cloneMap']
         interpolation_conf = exec_conf['OutMaps']['Interpolation']
-- 
2.43.0


From 42e3443f8a3fd9616886d67b3a071fd7dd9ef890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 78/89] fix: incomplete aggregations and steps which are not
 positive are errors instead of being ignored

---
 src/pyg2p/main/context.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index d09d38e..9086e37 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -132,6 +132,12 @@ class Context:
             if self._vars['parameter.tstart'] is not None and self._vars['parameter.tend'] is not None and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
                 raise ApplicationException.get_exc(1500)
 
+            # check both aggregation params are present
+            aggr_step, aggr_type = self._vars.get('aggregation.step'), self._vars.get('aggregation.type')
+            if aggr_step not in (None, '') or aggr_type:
+                if aggr_step in (None, '') or not aggr_type or int(aggr_step) <= 0:
+                    raise ApplicationException.get_exc(2000, f'Aggregation step: {aggr_step} type: {aggr_type}')
+
             # check both correction params are present
             if self._vars['execution.doCorrection'] and not (
                     self._vars.get('correction.gemFormula') and self._vars.get('correction.demMap') and self._vars.get(
-- 
2.43.0


From 6ab508af1474448616256e87eb73dae6ca6a1a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 79/89] fix: executions without resulting maps are reported

---
 src/pyg2p/main/controller.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 35a903c..1b6586b 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -1,6 +1,7 @@
 import collections
 
 from .. import Loggable
+from ..exceptions import ApplicationException, NO_MESSAGES
 from ..main.manipulation.aggregator import Aggregator
 from ..main.readers.grib import GRIBReader
 from ..main.writers import OutputWriter
@@ -153,6 +154,9 @@ class Controller(Loggable):
         # cutoff after interpolation
         if converter and converter.must_cut_off:
             values = converter.cut_off_negative(values)
+        if not values:
+            # (e.g. the first step of the aggregation is after the last message)
+            raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {grib_select_cmd}: there are no maps to write')
         values = collections.OrderedDict(sorted(values.items(), key=lambda k: int(k[0].end_step)))
         if write_results:
             self._log('******** **** WRITING OUT MAPS (Interpolation, correction) **** *************')
-- 
2.43.0


From dbefa32aa1481172f66961bbe66a1dea8253e2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 80/89] fix: geopotential files without geopotential are errors

---
 src/pyg2p/main/manipulation/correction.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index e0f47ed..f7ddcde 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -5,6 +5,7 @@ import numexpr as ne
 import numpy as np
 from numpy import ma
 from pyg2p import Loggable
+from pyg2p.exceptions import ApplicationException, NO_FILE_GEOPOTENTIAL
 
 from pyg2p.main.interpolation import Interpolator
 from pyg2p.main.interpolation.latlong import Dem
@@ -100,7 +101,12 @@ class Corrector(Loggable):
         is_grib_interpolation = ctx.is_with_grib_interpolation
         reader = GRIBReader(grib_file)
         kwargs = {'shortName': GeopotentialsConfiguration.short_names}
-        geopotential_gribs = reader.select_messages(**kwargs)
+        try:
+            geopotential_gribs = reader.select_messages(**kwargs)
+        except ApplicationException as exc:
+            reader.close()
+            # (not to be taken as an input without messages)
+            raise ApplicationException.get_exc(NO_FILE_GEOPOTENTIAL, f'{grib_file}: {exc}')
         missing = geopotential_gribs.missing_value
         aux_g, aux_v, aux_g2, aux_v2 = reader.get_gids_for_grib_intertable()
         grid = geopotential_gribs.grid_details
-- 
2.43.0


From 54ef798d4389079cfff09971941742600f1b9df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 81/89] fix: incomplete netCDF outputs are not left after an
 error

---
 src/pyg2p/main/writers/__init__.py | 7 +++++--
 src/pyg2p/main/writers/netcdf.py   | 7 +++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index ef88e33..18490fa 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -86,8 +86,11 @@ class OutputWriter(Loggable):
                         offset=self.ctx.get('outMaps.offset'),
                         scale_factor=self.ctx.get('outMaps.scaleFactor'))
         self.writer.init_dataset(out_filename, var_args['value_format'])
-
-        self.writer.write(out_values, time_values, **var_args)
+        try:
+            self.writer.write(out_values, time_values, **var_args)
+        except Exception:
+            self.writer.discard()
+            raise
 
     def _write_maps_pcraster(self, values, messages, change_res_step):
         is_second_res = False
diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 92deba4..e3daac9 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -1,3 +1,4 @@
+import os
 import time
 import warnings
 
@@ -206,6 +207,12 @@ class NetCDFWriter(Writer):
         masked = ma.filled(masked, mv)
         return masked
 
+    def discard(self):
+        # not to leave an incomplete file
+        self.nf.close()
+        self.nf = None
+        os.unlink(self.filepath)
+
     def close(self):
         if self.nf is None:
             # nothing was written
-- 
2.43.0


From e03b5b292c7c523a0ea43075579f5310df90eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 82/89] fix: latitude and longitude maps of different sizes are
 errors

---
 src/pyg2p/main/interpolation/latlong.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/interpolation/latlong.py b/src/pyg2p/main/interpolation/latlong.py
index dc91d16..2fc67af 100644
--- a/src/pyg2p/main/interpolation/latlong.py
+++ b/src/pyg2p/main/interpolation/latlong.py
@@ -34,6 +34,9 @@ class LatLong(Loggable):
             reader2 = PCRasterReader(self._long_map)
             self.lons = reader2.values
 
+            if self.lats.shape != self.lons.shape:
+                raise ApplicationException.get_exc(2000, f'latMap {self._lat_map} and lonMap {self._long_map} have different sizes')
+
             self._id = f'{reader.identifier()}_{reader2.identifier()}'
             reader.close()
             reader2.close()
-- 
2.43.0


From 0f6548d635e08c4c6bcb8d1747808f407227b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 83/89] fix: user variables can be used in the cdd map and in
 the folders of a command file

---
 src/pyg2p/main/config.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 1ea2ece..ac0d334 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -31,7 +31,9 @@ class UserConfiguration(pyg2p.Loggable):
     config_dir = f'{os.path.expanduser("~")}/.pyg2p/'
     sep = '='
     comment_char = '#'
-    conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap')
+    conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap',
+                           'interpolation.cdd_map')
+    dirs_to_interpolate = ('interpolation.dirs', 'geopotential.dirs')
     re_var = re.compile(r'{(?P<var>[a-zA-Z_][a-zA-Z0-9_]*)}')
     geopotentials_path_var = 'GEOPOTENTIALS'
     intertables_path_var = 'INTERTABLES'
@@ -73,15 +75,21 @@ class UserConfiguration(pyg2p.Loggable):
 
         :param ctx instance of Context
         """
-        ctx.get(self.conf_to_interpolate[0], '')
-        vars_with_variables = [var for var in self.conf_to_interpolate if self.re_var.search(ctx.get(var, ''))]
-        for var in vars_with_variables:
-            # we can have multiple variables {CONF_DIR}/{MAPS_DIR}lat.map
-            ctx[var] = self.re_var.sub(lambda m: str(self.vars.get(m.group('var'), m.group(0))), ctx[var])
-            if self.re_var.search(ctx[var]):
-                # some variables where not string-interpolated so they are missing in user configuration
-                vars_not_defined = self.re_var.findall(ctx[var])
-                raise ApplicationException.get_exc(NO_VAR_DEFINED, str(vars_not_defined))
+        for var in self.conf_to_interpolate:
+            if ctx.get(var):
+                ctx[var] = self._interpolate(ctx[var])
+        for var in self.dirs_to_interpolate:
+            if ctx[var]['user']:
+                ctx[var]['user'] = self._interpolate(ctx[var]['user'])
+
+    def _interpolate(self, value):
+        # we can have multiple variables {CONF_DIR}/{MAPS_DIR}lat.map
+        value = self.re_var.sub(lambda m: str(self.vars.get(m.group('var'), m.group(0))), value)
+        if self.re_var.search(value):
+            # some variables where not string-interpolated so they are missing in user configuration
+            vars_not_defined = self.re_var.findall(value)
+            raise ApplicationException.get_exc(NO_VAR_DEFINED, str(vars_not_defined))
+        return value
 
 
 class BaseConfiguration(pyg2p.Loggable):
-- 
2.43.0


From 70ae6b1aa912d40ccf05fbb18e1fba7e604c751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 84/89] fix: GRIB messages, indexes and netCDF maps are
 released, also after errors

---
 src/pyg2p/main/interpolation/__init__.py      | 10 ++-
 src/pyg2p/main/interpolation/latlong.py       |  9 +--
 .../interpolation/scipy_interpolation_lib.py  |  3 +-
 src/pyg2p/main/manipulation/correction.py     | 10 ++-
 src/pyg2p/main/readers/grib.py                | 67 +++++++++++--------
 src/pyg2p/main/readers/netcdf.py              | 15 +++++
 src/pyg2p/main/readers/pcr.py                 |  6 ++
 src/pyg2p/main/writers/netcdf.py              |  8 +--
 8 files changed, 82 insertions(+), 46 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 6aae3c2..5e70592 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -129,9 +129,8 @@ class Interpolator(Loggable):
         if version is None or loaded_version != version:
             f = tbl_fullpath
             if tbl_fullpath.endswith('.gz'):
-                f = gzip.GzipFile(tbl_fullpath, 'r')
-                intertable = np.load(f)
-                f.close()
+                with gzip.GzipFile(tbl_fullpath, 'r') as f:
+                    intertable = np.load(f)
             else:
                 try:
                     intertable = np.load(tbl_fullpath)
@@ -139,9 +138,8 @@ class Interpolator(Loggable):
                     f = tbl_fullpath + '.gz'
                     if not pyg2p.util.files.exists(f):
                         raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=f'Tried to read both {tbl_fullpath} and {f} but none was found')
-                    f = gzip.GzipFile(f, 'r')
-                    intertable = np.load(f)
-                    f.close()
+                    with gzip.GzipFile(f, 'r') as f:
+                        intertable = np.load(f)
             self._LOADED_INTERTABLES[tbl_fullpath] = (version, intertable)
             self._log(f'Using interpolation table: {tbl_fullpath}', 'INFO')
 
diff --git a/src/pyg2p/main/interpolation/latlong.py b/src/pyg2p/main/interpolation/latlong.py
index 2fc67af..1fd8a7b 100644
--- a/src/pyg2p/main/interpolation/latlong.py
+++ b/src/pyg2p/main/interpolation/latlong.py
@@ -19,8 +19,8 @@ class LatLong(Loggable):
                 raise ApplicationException.get_exc(INVALID_INTERPOL_METHOD, 
                     f"lat map and long map should coincide when using netCDF target map, used {self._lat_map} amd {self._long_map}")
 
-            reader = NetCDFReader(self._lat_map)
-            self.lats, self.lons = reader.get_lat_lon_values()
+            with NetCDFReader(self._lat_map) as reader:
+                self.lats, self.lons = reader.get_lat_lon_values()
             self.mv = default_fillvals[self.lats.dtype.str[1:]] # take missing values from the default netCDF fillvals values
 
             self._id = reader.identifier()
@@ -56,5 +56,6 @@ class Dem(Loggable):
             reader = NetCDFReader(self._dem_map)
         else:
             reader = PCRasterReader(self._dem_map)
-        self.mv = reader.mv
-        self.values = reader.values
+        with reader:
+            self.mv = reader.mv
+            self.values = reader.values
diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 46d8e8d..76997bb 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -868,7 +868,8 @@ class ScipyInterpolation(object):
                 else:
                     reader = PCRasterReader(cdd_map)
                 # CDD map values are in km, so convert to meters to compare with distances
-                CDD_map = reader.values * 1000
+                with reader:
+                    CDD_map = reader.values * 1000
 
                 if DEBUG_BILINEAR_INTERPOLATION:
                     # target_lats=target_lats[1800-(9*20):1800-(-16*20), 3600+(-15*20):3600+(16*20)]
diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index f7ddcde..7b7d306 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -98,13 +98,18 @@ class Corrector(Loggable):
         return values
 
     def _read_geo(self, grib_file, ctx):
-        is_grib_interpolation = ctx.is_with_grib_interpolation
         reader = GRIBReader(grib_file)
+        try:
+            return self._read_geo_from(reader, grib_file, ctx)
+        finally:
+            reader.close()
+
+    def _read_geo_from(self, reader, grib_file, ctx):
+        is_grib_interpolation = ctx.is_with_grib_interpolation
         kwargs = {'shortName': GeopotentialsConfiguration.short_names}
         try:
             geopotential_gribs = reader.select_messages(**kwargs)
         except ApplicationException as exc:
-            reader.close()
             # (not to be taken as an input without messages)
             raise ApplicationException.get_exc(NO_FILE_GEOPOTENTIAL, f'{grib_file}: {exc}')
         missing = geopotential_gribs.missing_value
@@ -132,7 +137,6 @@ class Corrector(Loggable):
             # FOR GEOPOTENTIALS, SOME GRIBS COME WITHOUT LAT/LON GRIDS!
             lats, lons = grid.latlons
             values_resampled = interpolator.interpolate_scipy(lats, lons, values, self.grid_id, grid)
-        reader.close()
         return missing, values_resampled
 
     @staticmethod
diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 1fda7a1..90fc95a 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -49,10 +49,11 @@ class GRIBReader(Loggable):
     @classmethod
     def get_id(cls, grib_file, reader_args):
         reader = GRIBReader(grib_file)
-        gribs_for_id = reader._get_gids(**reader_args)
-        grid = GribGridDetails(gribs_for_id[0])
-        reader.close()
-        return grid.grid_id
+        try:
+            reader._selected_grbs = reader._get_gids(**reader_args)
+            return GribGridDetails(reader._selected_grbs[0]).grid_id
+        finally:
+            reader.close()
 
     @staticmethod
     def _find(gid, **kwargs):
@@ -93,21 +94,34 @@ class GRIBReader(Loggable):
                     gid = codes_new_from_index(self._grbindx)
                     if gid is None:
                         break
-                    grid_ids.add(GribGridDetails(gid).grid_id)
-                    codes_release(gid)
+                    try:
+                        grid_ids.add(GribGridDetails(gid).grid_id)
+                    finally:
+                        codes_release(gid)
 
         elif self._file_handler:
             while 1:
                 gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
                     break
-                if GRIBReader._find(gid, shortName=v_selected):
-                    grid_ids.add(GribGridDetails(gid).grid_id)
-                codes_release(gid)
+                try:
+                    if GRIBReader._find(gid, shortName=v_selected):
+                        grid_ids.add(GribGridDetails(gid).grid_id)
+                finally:
+                    codes_release(gid)
         return grid_ids
 
     def scan_grib(self, **kwargs):
         gribs = []
+        try:
+            self._scan_grib(gribs, **kwargs)
+        except Exception:
+            for gid in gribs:
+                codes_release(gid)
+            raise
+        return gribs
+
+    def _scan_grib(self, gribs, **kwargs):
         v_selected = kwargs['shortName']
         v_pert = kwargs.get('perturbationNumber', -1)
         if not utils.is_container(v_selected):
@@ -121,22 +135,19 @@ class GRIBReader(Loggable):
                     gid = codes_new_from_index(self._grbindx)
                     if gid is None:
                         break
-                    if GRIBReader._find(gid, **kwargs):
-                        gribs.append(gid)
-                    else:
+                    gribs.append(gid)
+                    if not GRIBReader._find(gid, **kwargs):
                         # release unused grib
-                        codes_release(gid)
+                        codes_release(gribs.pop())
         elif self._file_handler:
             while 1:
                 gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
                     break
-                if GRIBReader._find(gid, **kwargs):
-                    gribs.append(gid)
-                else:
+                gribs.append(gid)
+                if not GRIBReader._find(gid, **kwargs):
                     # release unused grib
-                    codes_release(gid)
-        return gribs
+                    codes_release(gribs.pop())
 
     def _get_gids(self, **kwargs):
         try:
@@ -246,16 +257,16 @@ class GRIBReader(Loggable):
     def get_grib_info(self, select_args):
         _gribs_for_utils = self._get_gids(**select_args)
         if len(_gribs_for_utils) > 0:
-            # instant, avg, cumul. get last stepType available because first one is sometimes misleading
-            type_of_step = codes_get(_gribs_for_utils[-1], 'stepType')
-            self._mv = codes_get_double(_gribs_for_utils[0], 'missingValue')
-            start_grib, end_grib, self._step_grib, self._step_grib2, self._change_step_at = self._find_start_end_steps(_gribs_for_utils)
-            self._log("Grib input step %d [type of step: %s]" % (self._step_grib, type_of_step))
-            self._log('Gribs from %d to %d' % (start_grib, end_grib))
-            for g in _gribs_for_utils:
-                codes_release(g)
-            _gribs_for_utils = None
-            del _gribs_for_utils
+            try:
+                # instant, avg, cumul. get last stepType available because first one is sometimes misleading
+                type_of_step = codes_get(_gribs_for_utils[-1], 'stepType')
+                self._mv = codes_get_double(_gribs_for_utils[0], 'missingValue')
+                start_grib, end_grib, self._step_grib, self._step_grib2, self._change_step_at = self._find_start_end_steps(_gribs_for_utils)
+                self._log("Grib input step %d [type of step: %s]" % (self._step_grib, type_of_step))
+                self._log('Gribs from %d to %d' % (start_grib, end_grib))
+            finally:
+                for g in _gribs_for_utils:
+                    codes_release(g)
             info = GRIBInfo(input_step=self._step_grib, input_step2=self._step_grib2,
                             change_step_at=self._change_step_at, type_of_param=type_of_step,
                             start=start_grib, end=end_grib, mv=self._mv)
diff --git a/src/pyg2p/main/readers/netcdf.py b/src/pyg2p/main/readers/netcdf.py
index e27b95c..6547242 100644
--- a/src/pyg2p/main/readers/netcdf.py
+++ b/src/pyg2p/main/readers/netcdf.py
@@ -14,6 +14,13 @@ class NetCDFReader(Loggable):
         self._log(f'Reading {nc_map}')
         nc_map = nc_map.as_posix() if isinstance(nc_map, Path) else nc_map
         self._dataset = Dataset(nc_map)
+        try:
+            self._read_properties(nc_map)
+        except Exception:
+            self.close()
+            raise
+
+    def _read_properties(self, nc_map):
         self.var_name = self.find_main_var(nc_map)
 
         self._rows, self._cols = self._dataset.variables[self.var_name].shape  # just use shape to know rows and cols...
@@ -68,8 +75,16 @@ class NetCDFReader(Loggable):
         return self._dataset.variables[self.label_lon][:].data
 
     def close(self):
+        if self._dataset is not None:
+            self._dataset.close()
         self._dataset = None
 
+    def __enter__(self):
+        return self
+
+    def __exit__(self, *_):
+        self.close()
+
     def identifier(self):
         latidentifier=f'{int(self._origX)}_{int(self._origY)}_{int(self._pxlW)}_{int(self._pxlH)}_{self.lat_min:.2f}_{self.lat_max:.2f}'
         lonidentifier=f'{int(self._origX)}_{int(self._origY)}_{int(self._pxlW)}_{int(self._pxlH)}_{self.lon_min:.2f}_{self.lon_max:.2f}'
diff --git a/src/pyg2p/main/readers/pcr.py b/src/pyg2p/main/readers/pcr.py
index 42c042a..8e74c03 100644
--- a/src/pyg2p/main/readers/pcr.py
+++ b/src/pyg2p/main/readers/pcr.py
@@ -38,5 +38,11 @@ class PCRasterReader(Loggable):
         self._band = None
         self._dataset = None
 
+    def __enter__(self):
+        return self
+
+    def __exit__(self, *_):
+        self.close()
+
     def identifier(self):
         return f'{int(self._origX)}_{int(self._origY)}_{int(self._pxlW)}_{int(self._pxlH)}_{self.min:.2f}_{self.max:.2f}'
diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index e3daac9..187223a 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -25,8 +25,8 @@ class NetCDFWriter(Writer):
         self.filepath = None
         lats_map, lons_map = args[1], args[2]
         if self._clone_map.endswith('.nc'):
-            area = NetCDFReader(self._clone_map)
-            self.area = area.values
+            with NetCDFReader(self._clone_map) as area:
+                self.area = area.values
         else:
             area = PCRasterReader(self._clone_map)
             self.area = area.values
@@ -40,8 +40,8 @@ class NetCDFWriter(Writer):
                 raise ApplicationException.get_exc(INVALID_INTERPOL_METHOD, 
                     f"lat map and long map should coincide when using netCDF target map, used {lats_map} amd {lons_map}")
 
-            self.lats_map = NetCDFReader(lats_map)
-            self.lats, self.lons = self.lats_map.get_lat_lon_values()
+            with NetCDFReader(lats_map) as self.lats_map:
+                self.lats, self.lons = self.lats_map.get_lat_lon_values()
         else:
             self.lats_map = PCRasterReader(lats_map)
             coordinates_mv = self.lats_map.mv
-- 
2.43.0


From af9f78fb3a6020e5ecebb87739e497f4a4b6eebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 85/89] fix: folders created by another execution in the
 meanwhile are not an error

---
 src/pyg2p/util/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/util/files.py b/src/pyg2p/util/files.py
index c4640d2..8dd8368 100644
--- a/src/pyg2p/util/files.py
+++ b/src/pyg2p/util/files.py
@@ -63,7 +63,8 @@ def can_read(pathnames):
 
 def create_dir(pathname, recreate=False):
     if not os.path.exists(pathname):
-        os.makedirs(pathname)
+        # (it could be created by another process in the meanwhile)
+        os.makedirs(pathname, exist_ok=True)
     elif recreate:
         delete_files_from_dir(pathname)
         os.rmdir(pathname)
-- 
2.43.0


From 66d0774f59716252e93dadb5bd0ac29b11fa812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 86/89] fix: steps and types used by aggregations are those of
 the selected messages only

---
 src/pyg2p/main/context.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 9086e37..97b15cc 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -184,6 +184,13 @@ class Context:
         reader_arguments = {'shortName': str(self._vars['parameter.shortName'])}
         if self.has_perturbation_number:
             reader_arguments['perturbationNumber'] = self._vars['parameter.perturbationNumber']
+        # steps and types are those of the messages that will be read
+        if self._vars['parameter.level'] is not None:
+            reader_arguments['level'] = self._vars['parameter.level']
+        if self._vars['parameter.dataTime'] is not None:
+            reader_arguments['dataTime'] = self._vars['parameter.dataTime']
+        if self._vars['parameter.dataDate'] is not None:
+            reader_arguments['dataDate'] = self._vars['parameter.dataDate']
         return reader_arguments
 
 
-- 
2.43.0


From 4dd9d4050d5379861a072edf80da8d50dd85ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 87/89] fix: the type of step used by aggregations does not
 depend on the order of messages

---
 src/pyg2p/main/readers/grib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 90fc95a..1cd2ff3 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -259,7 +259,8 @@ class GRIBReader(Loggable):
         if len(_gribs_for_utils) > 0:
             try:
                 # instant, avg, cumul. get last stepType available because first one is sometimes misleading
-                type_of_step = codes_get(_gribs_for_utils[-1], 'stepType')
+                # (wherever the messages are in the file)
+                type_of_step = codes_get(max(_gribs_for_utils, key=lambda g: codes_get(g, 'endStep')), 'stepType')
                 self._mv = codes_get_double(_gribs_for_utils[0], 'missingValue')
                 start_grib, end_grib, self._step_grib, self._step_grib2, self._change_step_at = self._find_start_end_steps(_gribs_for_utils)
                 self._log("Grib input step %d [type of step: %s]" % (self._step_grib, type_of_step))
-- 
2.43.0


From caceadf87ac84c2c8abbd744ac71d1798b537884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:12 +0000
Subject: [PATCH 88/89] fix: concurrent downloads of a file do not write the
 same temporary file

---
 src/pyg2p/main/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index ac0d334..ab4be5c 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -368,7 +368,8 @@ class Configuration(pyg2p.Loggable):
                 continue
             self._log(f'[{i}/{numfiles}] Downloading {f}')
             # existing files are skipped: only complete files can have the final name
-            tmp_filename = f'{local_filename}.tmp'
+            # (another process could be downloading the same one)
+            tmp_filename = f'{local_filename}.{os.getpid()}.tmp'
             with open(tmp_filename, 'wb') as local_file:
                 client.retrbinary(f'RETR {f}', local_file.write)
             os.replace(tmp_filename, local_filename)
-- 
2.43.0


From 8e3f94feb9686d206466341bcbbd5e044398d11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:12 +0000
Subject: [PATCH 89/89] fix: GRIB files can be in folders with non ASCII names

---
 src/pyg2p/main/readers/grib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 1cd2ff3..1dcfdb2 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -35,7 +35,8 @@ class GRIBReader(Loggable):
             if w_perturb:
                 index_keys.append('perturbationNumber')
             self._grbindx = codes_index_new_from_file(str(self._grib_file), index_keys)
-        except GribInternalError:
+        except (GribInternalError, UnicodeError):
+            # (the index does not accept paths with non ASCII letters)
             self._log(f"Can't use index on {self._grib_file}", 'WARN')
             self._file_handler = open(self._grib_file, 'rb')
         self._selected_grbs = []
@@ -100,6 +101,7 @@ class GRIBReader(Loggable):
                         codes_release(gid)
 
         elif self._file_handler:
+            self._file_handler.seek(0)
             while 1:
                 gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
@@ -140,6 +142,7 @@ class GRIBReader(Loggable):
                         # release unused grib
                         codes_release(gribs.pop())
         elif self._file_handler:
+            self._file_handler.seek(0)
             while 1:
                 gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
-- 
2.43.0

