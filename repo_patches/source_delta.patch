From bb574019517b2c58d460348f15ad5b15501f2c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 01/27] fix: include last row and column of processing area in
 native fill

The Cython sweeps excluded torow/tocol while the Python ones include them, so
a sweep could report 'no changes' before the surface had settled and rasters
with three rows or columns could not be filled at all.
---
 malstroem/algorithms/speedups/_fill.pyx | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/malstroem/algorithms/speedups/_fill.pyx b/malstroem/algorithms/speedups/_fill.pyx
index 293699a..420d048 100644
--- a/malstroem/algorithms/speedups/_fill.pyx
+++ b/malstroem/algorithms/speedups/_fill.pyx
@@ -28,21 +28,22 @@ cimport cython
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILL, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
+    # torow and tocol are inclusive
+    cdef unsigned int endrow = <unsigned int>(torow + rowstep)
+    cdef unsigned int endcol = <unsigned int>(tocol + colstep)
 
     cdef DTYPE_t_FILL filled_value, dtm_value, min_value, new_value
     cdef unsigned int up, down, left, right, row, col
 
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    while row != endrow:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while col != endcol:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if(filled_value > dtm_value):
@@ -72,21 +73,22 @@ def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYP
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain_no_flats(np.ndarray[DTYPE_t_DTM, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILLNOFLAT, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol, DTYPE_t_FILLNOFLAT short, DTYPE_t_FILLNOFLAT diag):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
+    # torow and tocol are inclusive
+    cdef unsigned int endrow = <unsigned int>(torow + rowstep)
+    cdef unsigned int endcol = <unsigned int>(tocol + colstep)
 
     cdef DTYPE_t_FILLNOFLAT filled_value, dtm_value, min_value, new_value
     cdef unsigned int up, down, left, right, row, col
 
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    while row != endrow:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while col != endcol:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if filled_value > dtm_value:
-- 
2.43.0


From 5e46c5bf993ccbae3d37da2069583eaf12dd8339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 02/27] fix: BluespotTool without a filter function

labeled, nlabels and bluespot_stats were only assigned when a filter was given.
---
 malstroem/bluespots.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/malstroem/bluespots.py b/malstroem/bluespots.py
index aa861be..3975a73 100644
--- a/malstroem/bluespots.py
+++ b/malstroem/bluespots.py
@@ -160,6 +160,7 @@ class BluespotTool(object):
         raw_bluespot_stats = label.label_stats(depths, raw_labeled)
         if not self.input_bluespot_filter_function:
             self.logger.info("Final number of bluespots (No filter specified): {}".format(raw_nlabels))
+            labeled, nlabels, bluespot_stats = raw_labeled, raw_nlabels, raw_bluespot_stats
             self.output_labeled_raster.write(raw_labeled)
         else:
             self.logger.info("Number of bluespots found before filtering: {}".format(raw_nlabels))
-- 
2.43.0


From cdd84f93075d5776a13a4b4c3697ff11d025d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 03/27] fix: substitute nodata when the nodata value is zero

---
 malstroem/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 91b193b..bd43325 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -75,7 +75,7 @@ class RasterReader(object):
         ndarray
         """
         data = self._bnd.ReadAsArray()
-        if self.nodata and self.nodatasubst is not None:
+        if self.nodata is not None and self.nodatasubst is not None:
             mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
             data[mask] = self.nodatasubst
         return data
-- 
2.43.0


From 1387135a1b62b342c6c688e55e133101d23e1b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 04/27] fix: nodata substitution in rasters of unsigned
 integers

The substitute silently wrapped around, so -999 became 25 in uint8 data.
---
 malstroem/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index bd43325..aa4c12c 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -77,6 +77,8 @@ class RasterReader(object):
         data = self._bnd.ReadAsArray()
         if self.nodata is not None and self.nodatasubst is not None:
             mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
+            # The substitute may not be representable in the data type of the raster (ie -999 in unsigned data)
+            data = data.astype(np.promote_types(data.dtype, np.min_scalar_type(self.nodatasubst)), copy=False)
             data[mask] = self.nodatasubst
         return data
 
-- 
2.43.0


From de668565b7dfe033ffd787085f47b23e366e318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 05/27] fix: hypsometry histogram bounds must contain zmin and
 zmax

int() truncates towards zero so cells with negative elevations fell outside the
histogram and were not counted. Rounding errors could do the same to cells on a
bin boundary.
---
 malstroem/hyps.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/malstroem/hyps.py b/malstroem/hyps.py
index 352b666..6d053b1 100644
--- a/malstroem/hyps.py
+++ b/malstroem/hyps.py
@@ -11,6 +11,7 @@
 # see http://www.gnu.org/licenses/.
 # -------------------------------------------------------------------------------------------------
 import numpy as np
+import math
 import logging
 from collections import namedtuple
 
@@ -88,10 +89,15 @@ def cumulative_volume(h : Histogram, cell_area : float):
 
 def histogram_bins(zmin, zmax, resolution):
     scale = 1 / resolution
-    min_scaled = int(zmin * scale)
-    max_scaled = int(zmax * scale)
+    min_scaled = math.floor(zmin * scale)
+    max_scaled = math.floor(zmax * scale)
+    # Rounding errors must not leave zmin or zmax outside the bounds
+    if min_scaled * resolution > zmin:
+        min_scaled -= 1
     num_bins = max_scaled - min_scaled + 1
     lower_bound = min_scaled * resolution
+    if lower_bound + num_bins * resolution < zmax:
+        num_bins += 1
     upper_bound = lower_bound + num_bins * resolution
     bins = HistogramBinsInfo(num_bins, lower_bound, upper_bound, resolution)
     return bins
-- 
2.43.0


From 52f89e4567cdd06c2d6e451dc5b97fd1b6752582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 06/27] fix: DEMs of other data types than float32

DemTool casts the DEM to DTYPE_DTM but BluespotTool and the filled, depths,
flowdir and pourpts commands did not, and failed with a buffer dtype mismatch.
---
 malstroem/bluespots.py        | 4 ++--
 malstroem/scripts/bluespot.py | 4 ++--
 malstroem/scripts/dem.py      | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/malstroem/bluespots.py b/malstroem/bluespots.py
index 3975a73..5509527 100644
--- a/malstroem/bluespots.py
+++ b/malstroem/bluespots.py
@@ -15,7 +15,7 @@ from __future__ import (absolute_import, division, print_function) #, unicode_li
 from builtins import *
 
 from .vector import transform_cell_to_world, vectorize_labels_file
-from .algorithms import label, flow, fill, speedups
+from .algorithms import label, flow, fill, speedups, dtypes
 import numpy as np
 import logging
 
@@ -203,7 +203,7 @@ class BluespotTool(object):
             del accum
         elif self.input_dem:
             self.logger.info("Calculating pour points at min filled")
-            dem = self.input_dem.read()
+            dem = self.input_dem.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
             short, diag = fill.minimum_safe_short_and_diag(dem)
             filled_no_flats = fill.fill_terrain_no_flats(dem, short, diag)
             pp_pix = label.label_min_index(filled_no_flats, labeled, nlabels)
diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index 861feae..6c48132 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -25,7 +25,7 @@ from malstroem import io
 from malstroem.bluespots import filterbluespots, assemble_pourpoints
 from malstroem.vector import vectorize_labels_file_io
 from ._utils import parse_filter
-from malstroem.algorithms import label, flow, fill
+from malstroem.algorithms import label, flow, fill, dtypes
 from osgeo import ogr
 
 @click.command('bspots')
@@ -131,7 +131,7 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
     if accum:
         pp_pix = label.label_max_index(data_reader.read(), labeled_data)
     elif dem:
-        dem_data = data_reader.read()
+        dem_data = data_reader.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
         short, diag = fill.minimum_safe_short_and_diag(dem_data)
         filled_no_flats = fill.fill_terrain_no_flats(dem_data, short, diag)
         pp_pix = label.label_min_index(filled_no_flats, labeled_data)
diff --git a/malstroem/scripts/dem.py b/malstroem/scripts/dem.py
index c186b2e..470318b 100644
--- a/malstroem/scripts/dem.py
+++ b/malstroem/scripts/dem.py
@@ -18,7 +18,7 @@ import click
 import click_log
 
 from malstroem import io
-from malstroem.algorithms import fill, flow
+from malstroem.algorithms import fill, flow, dtypes
 
 NODATASUBST = -999
 
@@ -32,7 +32,7 @@ def process_filled(dem, out):
     dem_reader = io.RasterReader(dem, nodatasubst=NODATASUBST)
     filled_writer = io.RasterWriter(out, dem_reader.transform, dem_reader.crs, NODATASUBST)
 
-    filled_data = fill.fill_terrain(dem_reader.read())
+    filled_data = fill.fill_terrain(dem_reader.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False))
     filled_writer.write(filled_data)
 
 @click.command('depths')
@@ -49,7 +49,7 @@ def process_depths(dem, filled, out):
     filled_reader = io.RasterReader(filled, nodatasubst=NODATASUBST)
     depths_writer = io.RasterWriter(out, dem_reader.transform, dem_reader.crs, NODATASUBST)
 
-    depths_data = filled_reader.read() - dem_reader.read()
+    depths_data = filled_reader.read() - dem_reader.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
 
     depths_writer.write(depths_data)
 
@@ -78,7 +78,7 @@ def process_flowdir(dem, out):
     dem_reader = io.RasterReader(dem, nodatasubst=NODATASUBST)
     flowdir_writer = io.RasterWriter(out, dem_reader.transform, dem_reader.crs, NODATASUBST)
 
-    dem_data = dem_reader.read()
+    dem_data = dem_reader.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
     short, diag = fill.minimum_safe_short_and_diag(dem_data)
     filled_no_flats = fill.fill_terrain_no_flats(dem_data, short=short, diag=diag)
     del dem_data
-- 
2.43.0


From 2281883b1e8253aceb5fe05f7b42bc6b338ace15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 07/27] fix: pourpts must substitute nodata in the DEM like
 flowdir does

---
 malstroem/scripts/bluespot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index 6c48132..d1eabde 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -28,6 +28,8 @@ from ._utils import parse_filter
 from malstroem.algorithms import label, flow, fill, dtypes
 from osgeo import ogr
 
+NODATASUBST = -999
+
 @click.command('bspots')
 @click.option('-depths', required=True, type=click.Path(exists=True), help='Depths file')
 @click.option('-out', required=True, type=click.Path(exists=False), help='Output file (bluespots)')
@@ -115,7 +117,8 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
     data = accum if accum else dem
     if not data:
         raise Exception('Either accum or dem must be specified')
-    data_reader = io.RasterReader(data)
+    # As in the flowdir command: nodata is substituted in the DEM
+    data_reader = io.RasterReader(data) if accum else io.RasterReader(data, nodatasubst=NODATASUBST)
 
     format = str(format)
     layername = str(layername)
-- 
2.43.0


From 0ed58928e66d00249bc170956cd64de852947bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 08/27] fix: accumulated flow stops at cells with no flow
 direction

The Python version raised a TypeError and the native version stepped in an
uninitialised direction.
---
 malstroem/algorithms/flow.py            | 2 ++
 malstroem/algorithms/speedups/_flow.pyx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/malstroem/algorithms/flow.py b/malstroem/algorithms/flow.py
index 180788a..2c84c47 100644
--- a/malstroem/algorithms/flow.py
+++ b/malstroem/algorithms/flow.py
@@ -338,6 +338,8 @@ def trace_accumulated_flow(flowdir, accum, cell):
         accum[cell[0], cell[1]] = s + 1
         # Go to downstream cell
         direction = flowdir[cell[0], cell[1]]
+        if direction == FLOWDIR_NODIR:
+            break
         cell = cell_in_direction(cell, direction)
 
 
diff --git a/malstroem/algorithms/speedups/_flow.pyx b/malstroem/algorithms/speedups/_flow.pyx
index 8281447..a47de16 100644
--- a/malstroem/algorithms/speedups/_flow.pyx
+++ b/malstroem/algorithms/speedups/_flow.pyx
@@ -244,6 +244,8 @@ cdef void trace_accumulated_flow_cython(DTYPE_t_FLOWDIR[:,:] flowdir, DTYPE_t_AC
         accum[cell.r, cell.c] = s + 1
         # Go to downstream cell
         downstream_direction = flowdir[cell.r, cell.c]
+        if downstream_direction == AGNPS_NODIR:
+            return
         cell = cell_in_direction_cython(cell, downstream_direction)
 
 
-- 
2.43.0


From 956ebc8c9a9999414994a47c735c9c2bf34f31a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 09/27] fix: native label_data ignored the background argument

---
 malstroem/algorithms/speedups/_label.pyx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/malstroem/algorithms/speedups/_label.pyx b/malstroem/algorithms/speedups/_label.pyx
index 7936d49..34c7df9 100644
--- a/malstroem/algorithms/speedups/_label.pyx
+++ b/malstroem/algorithms/speedups/_label.pyx
@@ -188,7 +188,8 @@ cdef label_data_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] lab
     cdef FloatArray tmp_cyarray    
     cdef unsigned int r, c
     cdef np.float32_t val
-    cdef np.int32_t lbl, background_lbl
+    cdef np.int32_t lbl
+    cdef np.int32_t background_lbl = background
 
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(FloatArray() for i in range(max_label + 1))
@@ -198,7 +199,7 @@ cdef label_data_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] lab
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <FloatArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -210,7 +211,8 @@ cdef label_data_float64_int32_cython(np.float64_t[:,:] data, np.int32_t[:,:] lab
     cdef DoubleArray tmp_cyarray    
     cdef unsigned int r, c
     cdef np.float64_t val
-    cdef np.int32_t lbl, background_lbl
+    cdef np.int32_t lbl
+    cdef np.int32_t background_lbl = background
     
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
@@ -220,7 +222,7 @@ cdef label_data_float64_int32_cython(np.float64_t[:,:] data, np.int32_t[:,:] lab
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -231,7 +233,8 @@ cdef label_data_fallback_cython(data, labels, max_label, background):
     cdef DoubleArray tmp_cyarray    
     cdef unsigned int r, c
     cdef np.float64_t val
-    cdef np.int64_t lbl, background_lbl
+    cdef np.int64_t lbl
+    cdef np.int64_t background_lbl = background
     
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
@@ -241,7 +244,7 @@ cdef label_data_fallback_cython(data, labels, max_label, background):
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
-- 
2.43.0


From e45ea38e2ebb33a01bd8e34fe675354645baf39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 10/27] fix: water level of an almost full bluespot approaches
 the full level

The last interpolation point paired the full volume with the highest terrain
elevation in the bluespot instead of with the full water level, which may be
well above it. Flat bottomed bluespots stayed at zmin until they were full.
---
 malstroem/approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index 98ff03b..3771586 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -60,9 +60,9 @@ def approx_water_level_io(finalvols_reader, hyps_reader, levels_writer):
             cum_vol = _cumulative_volume(h["hyps"].zhistogram, h["cell_area"])
             # Z value of centre of each histogram bin
             binsz = _bin_waterlevel_z(h["hyps"].zhistogram.bins)
-            # Replace bounds with acutal values. Zero volume at zmin and max_volume at zmax
+            # Replace bounds with acutal values. Zero volume at zmin and max_volume at the maximum water level
             volumes = np.concatenate(([0.0], cum_vol[1:-1], [max_vol]))
-            z = np.concatenate(([zmin], binsz[1:-1], [zmax])) 
+            z = np.concatenate(([zmin], binsz[1:-1], [zmin + h["max_depth"]]))
             # Now interpolate for final_vol
             water_level = np.interp([final_vol], volumes, z)[0]
         assert water_level is not None, "Water level calculation failed"
-- 
2.43.0


From a4f83e69677fe9822be4f72ecdad9be6ad6869e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 11/27] fix: write vector data for rasters without a coordinate
 reference system

ImportFromWkt fails on the empty string.
---
 malstroem/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index aa4c12c..d7a1661 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -260,8 +260,9 @@ class VectorWriter(object):
         if self._ds:
             return
 
-        srs = osr.SpatialReference()
-        if self.geomtype != ogr.wkbNone or self.crs:
+        srs = None
+        if self.crs:
+            srs = osr.SpatialReference()
             srs.ImportFromWkt(self.crs)
         drv = ogr.GetDriverByName(self.driver)
 
-- 
2.43.0


From 7314d30be025a5bc7c992b3a290849ccad7a9535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 12/27] fix: write vector layers without features

There is no transaction to commit when no feature has been written.
---
 malstroem/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index d7a1661..1b5398e 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -346,7 +346,9 @@ class VectorWriter(object):
             raise Exception('Error while writing to layer {}'.format(self.layername))
 
     def close(self):
-        self._lyr.CommitTransaction()
+        # The transaction is started with the first feature
+        if self.fieldsinitialized:
+            self._lyr.CommitTransaction()
         self._lyr = None
         self._ds = None
 
-- 
2.43.0


From b8edc7beae5e4b7c0a5b005a936bf8c5833b4398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 13/27] fix: complete must not exit with success when outdir is
 not empty

click ignores the return value of the command.
---
 malstroem/scripts/complete.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malstroem/scripts/complete.py b/malstroem/scripts/complete.py
index 4a2538a..3d958c9 100644
--- a/malstroem/scripts/complete.py
+++ b/malstroem/scripts/complete.py
@@ -22,6 +22,7 @@ from malstroem.vector import vectorize_labels_file_io
 from ._utils import parse_filter
 from osgeo import ogr, osr
 import os
+import sys
 
 import logging
 logger = logging.getLogger(__name__)
@@ -46,7 +47,7 @@ def process_all(dem, outdir, accum, filter, mm, zresolution, vector):
     # Check that outdir exists and is empty
     if not os.path.isdir(outdir) or not os.path.exists(outdir) or os.listdir(outdir):
         logger.error("outdir isn't an empty directory")
-        return 1
+        sys.exit(1)
 
     outvector = os.path.join(outdir, 'malstroem.gpkg')
     ogr_drv = 'gpkg'
-- 
2.43.0


From 2e2f537f1d352dcc882c9a0354110a10cfa682ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 14/27] fix: stream networks with many successive junctions

_untangle recursed once per junction along a stream and hit the recursion limit
at about a thousand junctions.
---
 malstroem/algorithms/net.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/malstroem/algorithms/net.py b/malstroem/algorithms/net.py
index 4d688da..c5b41ac 100644
--- a/malstroem/algorithms/net.py
+++ b/malstroem/algorithms/net.py
@@ -126,14 +126,18 @@ def _untangle(nodes, next_available_label):
     -------
 
     """
-    for group in _split_into_common_flow_groups(nodes, 2):
-        if len(group) > 1:
+    # Explicit stack. There may be more junctions along a stream than the recursion limit allows for.
+    stack = [iter(_split_into_common_flow_groups(nodes, 2))]
+    while stack:
+        group = next(stack[-1], None)
+        if group is None:
+            stack.pop()
+        elif len(group) > 1:
             # Group of nodes with common flow
             untangled_nodes, new_node = _prune_common_flow(group, next_available_label)
             next_available_label = next_available_label + 1
             yield new_node, next_available_label
-            for n, next_available_label in _untangle(untangled_nodes, next_available_label):
-                yield n, next_available_label
+            stack.append(iter(_split_into_common_flow_groups(untangled_nodes, 2)))
         else:
             # This node doesnt have common flow with other nodes
             yield group[0], next_available_label
-- 
2.43.0


From d752df7bea3c75bb4a57ff7f8b4f27c82a371dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 15/27] fix: substitute only cells equal to the nodata value

np.isclose also replaced elevations within 0.001 % of the nodata value.
---
 malstroem/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 1b5398e..60c8401 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -76,7 +76,7 @@ class RasterReader(object):
         """
         data = self._bnd.ReadAsArray()
         if self.nodata is not None and self.nodatasubst is not None:
-            mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
+            mask = np.isnan(data) if np.isnan(self.nodata) else data == self.nodata
             # The substitute may not be representable in the data type of the raster (ie -999 in unsigned data)
             data = data.astype(np.promote_types(data.dtype, np.min_scalar_type(self.nodatasubst)), copy=False)
             data[mask] = self.nodatasubst
-- 
2.43.0


From 300f36b2770c0e74423936284aa774abea414cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 16/27] fix: keep substitutes given as floats exact in integer
 rasters

A float substitute turned a byte raster into half precision, where -9999.0 is stored as -10000.
---
 malstroem/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 60c8401..203ad3f 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -78,7 +78,12 @@ class RasterReader(object):
         if self.nodata is not None and self.nodatasubst is not None:
             mask = np.isnan(data) if np.isnan(self.nodata) else data == self.nodata
             # The substitute may not be representable in the data type of the raster (ie -999 in unsigned data)
-            data = data.astype(np.promote_types(data.dtype, np.min_scalar_type(self.nodatasubst)), copy=False)
+            subst = self.nodatasubst
+            if data.dtype.kind in 'iu':
+                subst_type = np.min_scalar_type(int(subst)) if float(subst).is_integer() else np.float64
+            else:
+                subst_type = np.min_scalar_type(subst)
+            data = data.astype(np.promote_types(data.dtype, subst_type), copy=False)
             data[mask] = self.nodatasubst
         return data
 
-- 
2.43.0


From adfc29351f41d6f0d510b8c748c46d1c98d16311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 17/27] fix: an empty bluespot has no water

With the lowest elevation within rounding of a histogram bin boundary (ie 0.7 in a float32 DEM, bins of 0.1) the
level of an empty bluespot was half a bin too high.
---
 malstroem/approx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index 3771586..a8b8b7c 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -54,6 +54,9 @@ def approx_water_level_io(finalvols_reader, hyps_reader, levels_writer):
         if max_vol == 0 or final_vol / max_vol > 0.9999:
             # waterlevel is the maximum possible in this bluespot
             water_level = h["hyps"].zmin + h["max_depth"]
+        elif final_vol <= 0:
+            # The lowest bins are empty if zmin is within rounding of a bin boundary
+            water_level = zmin
         else:
             # Calculate estimate
             # Cumulative volume for each histogram bin
-- 
2.43.0


From 57622fff2a00b6236b6003508963838a4ea85987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 18/27] fix: report errors which occur when vector data is
 flushed

---
 malstroem/io.py     | 3 +++
 malstroem/vector.py | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 203ad3f..6683198 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -355,6 +355,9 @@ class VectorWriter(object):
         if self.fieldsinitialized:
             self._lyr.CommitTransaction()
         self._lyr = None
+        # Errors in what is still to be written are not raised when the datasource is closed
+        if self._ds is not None:
+            self._ds.FlushCache()
         self._ds = None
 
 
diff --git a/malstroem/vector.py b/malstroem/vector.py
index 333abf6..b1adb3b 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -122,4 +122,7 @@ def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_ds
 
     src_band = None
     src_ds = None
-    dst_ds = None
\ No newline at end of file
+    # Errors in what is still to be written are not raised when the datasource is closed
+    dst_layer = None
+    dst_ds.FlushCache()
+    dst_ds = None
-- 
2.43.0


From 6f5ca589048e19d9b210076e437c350da079f972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 19/27] fix: detect GeoTIFF files which could not be written
 completely

---
 malstroem/io.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index 6683198..d33907b 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -198,7 +198,21 @@ class RasterWriter(object):
             outbnd.SetNoDataValue(self.nodata)
         outbnd.WriteArray(data, 0, 0)
         outds.FlushCache()
+        outbnd = None
         outds = None
+        self._check_written(data)
+
+    def _check_written(self, data):
+        # GDAL does not report every error when writing tiles, eg when the disk is full
+        ds = gdal.Open(self.filepath)
+        band = ds.GetRasterBand(1)
+        for row in range(0, data.shape[0], 256):
+            rows = data[row:row + 256]
+            written = band.ReadAsArray(0, row, rows.shape[1], rows.shape[0])
+            if not np.array_equal(written, rows, equal_nan=True):
+                raise Exception("Could not write {}".format(self.filepath))
+        band = None
+        ds = None
 
 
 class VectorWriter(object):
-- 
2.43.0


From 4843c0aa52a7f6eb627e3f53481d4b81715b0a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 20/27] fix: refuse rasters of different dimensions

Native functions read and wrote out of bounds (crashes, corrupt results), others
silently used parts of the rasters.
---
 malstroem/algorithms/_raster_utils.py    | 18 ++++++++++++++++++
 malstroem/algorithms/flow.py             |  3 ++-
 malstroem/algorithms/label.py            |  5 +++++
 malstroem/algorithms/net.py              |  3 +++
 malstroem/algorithms/speedups/_label.pyx |  4 ++++
 malstroem/approx.py                      |  3 +++
 malstroem/scripts/bluespot.py            |  3 +++
 malstroem/scripts/dem.py                 |  2 ++
 8 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/malstroem/algorithms/_raster_utils.py b/malstroem/algorithms/_raster_utils.py
index 4e9b9f9..fdfb6e9 100644
--- a/malstroem/algorithms/_raster_utils.py
+++ b/malstroem/algorithms/_raster_utils.py
@@ -37,6 +37,24 @@ def cell_in_raster(shape, cell):
     return True
 
 
+def check_same_shape(*rasters):
+    """Check that rasters have the same dimensions.
+
+    Parameters
+    ----------
+    rasters : arrays or raster readers
+
+    Raises
+    ------
+    ValueError
+        If the dimensions differ
+
+    """
+    shapes = [tuple(r.shape) for r in rasters]
+    if any(shape != shapes[0] for shape in shapes):
+        raise ValueError("Rasters must have same dimensions. Got: {}".format(", ".join(str(shape) for shape in shapes)))
+
+
 def edge_cell_indexes(shape):
     """Return indexes of all edge cells.
 
diff --git a/malstroem/algorithms/flow.py b/malstroem/algorithms/flow.py
index 2c84c47..0efaa9c 100644
--- a/malstroem/algorithms/flow.py
+++ b/malstroem/algorithms/flow.py
@@ -16,7 +16,7 @@ from builtins import *
 import numpy as np
 import math
 from .dtypes import (DTYPE_FLOWDIR, DTYPE_ACCUM)
-from ._raster_utils import cell_in_raster, edge_cell_indexes
+from ._raster_utils import cell_in_raster, check_same_shape, edge_cell_indexes
 from collections import deque
 
 SQRT2 = math.sqrt(2)
@@ -410,5 +410,6 @@ def watersheds_from_labels(flowdir, labelled, unassigned):
     -------
 
     """
+    check_same_shape(flowdir, labelled)
     for cell in edge_cell_indexes(flowdir.shape):
         assign_watersheds_upstream(flowdir, labelled, cell, unassigned)
diff --git a/malstroem/algorithms/label.py b/malstroem/algorithms/label.py
index 0496ad8..0a37d39 100644
--- a/malstroem/algorithms/label.py
+++ b/malstroem/algorithms/label.py
@@ -14,6 +14,7 @@
 from __future__ import (absolute_import, division, print_function) #, unicode_literals)  # See issue #3
 from builtins import *
 import numpy as np
+from ._raster_utils import check_same_shape
 
 
 def connected_components(data):
@@ -53,6 +54,7 @@ def label_stats(data, labelled, nlabels=None):
     -------
 
     """
+    check_same_shape(data, labelled)
     if not nlabels:
         nlabels = np.max(labelled)
 
@@ -112,6 +114,7 @@ def label_min_index(data, labelled, nlabels=None):
 
     """
     # TODO: Use labeled_comprehension from scipy instead?
+    check_same_shape(data, labelled)
     if not nlabels:
         nlabels = np.max(labelled)
 
@@ -146,6 +149,7 @@ def label_max_index(data, labelled, nlabels=None):
 
     """
     # TODO: Use labeled_comprehension from scipy instead?
+    check_same_shape(data, labelled)
     if not nlabels:
         nlabels = np.max(labelled)
 
@@ -200,6 +204,7 @@ def label_data(data, labelled, nlabels=None, background=0):
         data_per_label: list of lists
             A list (length = nlabels) of lists which holds the data values. The data for label n are found at data_per_label[n]
     """
+    check_same_shape(data, labelled)
     if not nlabels:
         nlabels = np.max(labelled)
     
diff --git a/malstroem/algorithms/net.py b/malstroem/algorithms/net.py
index c5b41ac..04a5595 100644
--- a/malstroem/algorithms/net.py
+++ b/malstroem/algorithms/net.py
@@ -15,6 +15,7 @@ from __future__ import (absolute_import, division, print_function) #, unicode_li
 from builtins import *
 import numpy as np
 from collections import defaultdict
+from ._raster_utils import check_same_shape
 from .flow import trace_downstream
 
 
@@ -188,6 +189,7 @@ def pourpoint_network(flowdir, labeled, pour_points, background_label=None):
     -------
 
     """
+    check_same_shape(flowdir, labeled)
     net = []
     for id, pp in _pourpoint_enumerator(pour_points):
         down_lbl, _ = next_downstream_label(flowdir, labeled, pp, background_label, geometry=False)
@@ -212,6 +214,7 @@ def geometric_pourpoint_network(flowdir, labeled_bluespots, pour_points, backgro
     -------
 
     """
+    check_same_shape(flowdir, labeled_bluespots)
     upstream_nodes = defaultdict(list)
     for pid, pp in _pourpoint_enumerator(pour_points):
         down_lbl, geom = next_downstream_label(flowdir, labeled_bluespots, pp, background_label, geometry=True)
diff --git a/malstroem/algorithms/speedups/_label.pyx b/malstroem/algorithms/speedups/_label.pyx
index 34c7df9..e621b77 100644
--- a/malstroem/algorithms/speedups/_label.pyx
+++ b/malstroem/algorithms/speedups/_label.pyx
@@ -14,6 +14,7 @@
 from __future__ import (absolute_import, division, print_function) #, unicode_literals)
 import cython
 import numpy as np
+from malstroem.algorithms._raster_utils import check_same_shape
 
 # cimports
 cimport numpy as np
@@ -30,6 +31,7 @@ cdef packed struct index_record:
 
 
 def label_stats(data, labelled, nlabels=None):
+    check_same_shape(data, labelled)
     if data.dtype == np.float32 and labelled.dtype == np.int32:
         return label_stats_float32_int32_cython(data, labelled, nlabels)
     return label_stats_fallback_cython(data, labelled, nlabels)
@@ -160,11 +162,13 @@ cdef label_min_index_fallback_cython(data, labelled, nlabels=None):
     return lmin
 
 def label_min_index(data, labelled, nlabels=None):
+    check_same_shape(data, labelled)
     if data.dtype == np.float64 and labelled.dtype == np.int32:
         return label_min_index_float64_int32_cython(data, labelled, nlabels)
     return label_min_index_fallback_cython(data, labelled, nlabels)
 
 def label_data(data, labelled, nlabels=None, background=0):
+    check_same_shape(data, labelled)
     # Check types
     if not np.can_cast(background, np.int32, "safe"):
         raise TypeError("background must be integer")
diff --git a/malstroem/approx.py b/malstroem/approx.py
index a8b8b7c..110c47b 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -1,6 +1,7 @@
 """Methods to approximate bluespot water levels and extents in the final state"""
 import logging
 import numpy as np
+from malstroem.algorithms._raster_utils import check_same_shape
 from malstroem.algorithms.label import set_label_to_value
 from malstroem.hyps import Histogram, HistogramBinsInfo, hypsometrystats_from_flatdict
 
@@ -107,6 +108,7 @@ def approx_bluespots_io(
 
     logger.info("Calculating depths")
     # subtract dem to get depths (we get negative depths where bluespot water level is below ground)
+    check_same_shape(maxextent_waterlevel, dem)
     depths = maxextent_waterlevel - dem
     del dem
 
@@ -155,6 +157,7 @@ def approx_bluespots(bluespot_labels, bluespot_water_levels, dem, background_lab
     maxextent_waterlevel = set_label_to_value(bluespot_labels, value_list)
 
     # subtract dem to get depths (we get negative depths where bluespot water level is below ground)
+    check_same_shape(maxextent_waterlevel, dem)
     depths = maxextent_waterlevel - dem
 
     # Use mask for areas with negative depths and set the depth in these areas to 0
diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index d1eabde..aa59be1 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -26,6 +26,7 @@ from malstroem.bluespots import filterbluespots, assemble_pourpoints
 from malstroem.vector import vectorize_labels_file_io
 from ._utils import parse_filter
 from malstroem.algorithms import label, flow, fill, dtypes
+from malstroem.algorithms._raster_utils import check_same_shape
 from osgeo import ogr
 
 NODATASUBST = -999
@@ -114,6 +115,8 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
     depths_reader = io.RasterReader(depths)
     wsheds_reader = io.RasterReader(watersheds)
 
+    check_same_shape(bspot_reader, depths_reader, wsheds_reader)
+
     data = accum if accum else dem
     if not data:
         raise Exception('Either accum or dem must be specified')
diff --git a/malstroem/scripts/dem.py b/malstroem/scripts/dem.py
index 470318b..7a0cb56 100644
--- a/malstroem/scripts/dem.py
+++ b/malstroem/scripts/dem.py
@@ -19,6 +19,7 @@ import click_log
 
 from malstroem import io
 from malstroem.algorithms import fill, flow, dtypes
+from malstroem.algorithms._raster_utils import check_same_shape
 
 NODATASUBST = -999
 
@@ -49,6 +50,7 @@ def process_depths(dem, filled, out):
     filled_reader = io.RasterReader(filled, nodatasubst=NODATASUBST)
     depths_writer = io.RasterWriter(out, dem_reader.transform, dem_reader.crs, NODATASUBST)
 
+    check_same_shape(filled_reader, dem_reader)
     depths_data = filled_reader.read() - dem_reader.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
 
     depths_writer.write(depths_data)
-- 
2.43.0


From af074b6a5421aaa6a3ae6e5704dc9da3b759c2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 21/27] fix: accept 0 mm of rain in initvolumes

---
 malstroem/scripts/initvolume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/malstroem/scripts/initvolume.py b/malstroem/scripts/initvolume.py
index 99b2134..e909007 100644
--- a/malstroem/scripts/initvolume.py
+++ b/malstroem/scripts/initvolume.py
@@ -58,9 +58,9 @@ def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_lay
     For documentation of OGR features (format, dsco and lco) see http://www.gdal.org/ogr_formats.html
     """
     # Validate one and only one
-    if mm and pr:
+    if mm is not None and pr:
         raise click.UsageError("-mm and -pr are mutually exclusive")
-    if not mm and not pr:
+    if mm is None and not pr:
         raise click.UsageError("One of -mm and -pr must be specified")
 
     nodes_layer = nodes_layer
@@ -71,7 +71,7 @@ def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_lay
     nodes_reader = io.VectorReader(nodes, nodes_layer)
     volumes_writer = io.VectorWriter(format, out, out_layer, None, ogr.wkbPoint, nodes_reader.crs, dsco, lco) 
 
-    if mm:
+    if mm is not None:
         logger.info(f"Processing initial volumes using evenly distributed rain event of {mm}mm")
         rain_tool = raintool.SimpleVolumeTool(nodes_reader, volumes_writer, out_attribute, mm)
         rain_tool.process()
-- 
2.43.0


From eae0e861c7be9e8103c3feed8133598dd9eb1e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 22/27] fix: network and streams: IDs of pour points are read
 from the features, not from their order

---
 malstroem/streams.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/malstroem/streams.py b/malstroem/streams.py
index 885c80c..6500cde 100644
--- a/malstroem/streams.py
+++ b/malstroem/streams.py
@@ -65,13 +65,11 @@ class StreamTool(object):
         labeled_bluespots = self.input_bluespots.read()
         pourpoints = self.input_pourpoints.read_geojson_features()
 
-        pourpoints_pix = [(pp['properties']['cell_row'], pp['properties']['cell_col']) for pp in pourpoints]
-
         self.logger.info("Processing stream network")
         if self.output_streams is not None:
-            nodes = net.geometric_pourpoint_network(flowdir, labeled_bluespots, pourpoints_pix, 0)
+            nodes = net.geometric_pourpoint_network(flowdir, labeled_bluespots, pourpoints, 0)
         else:
-            nodes = net.pourpoint_network(flowdir, labeled_bluespots, pourpoints_pix, 0)
+            nodes = net.pourpoint_network(flowdir, labeled_bluespots, pourpoints, 0)
 
         self.logger.info("Writing {} nodes".format(len(nodes)))
         pp_index = {pp['properties']['bspot_id']: pp for pp in pourpoints}
-- 
2.43.0


From e074ffe94a67e47812fe912986417135e57d0e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 23/27] fix: vector output: a GeoPackage which is locked by
 another process is not deleted and created anew

---
 malstroem/io.py     | 45 ++++++++++++++++++++++++++++++++++-----------
 malstroem/vector.py | 14 +++-----------
 2 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index d33907b..55ba6d1 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -215,6 +215,39 @@ class RasterWriter(object):
         ds = None
 
 
+def open_or_create_datasource(driver, datasource, dsco=[]):
+    """Open an OGR datasource for writing. It is created if it does not exist
+
+    Parameters
+    ----------
+    driver : str
+        OGR format driver name
+    datasource : str
+        OGR datasource string
+    dsco : list
+        List of name=value OGR datasource creation options
+
+    Returns
+    -------
+    osgeo.ogr.DataSource
+    """
+    gdal.PushErrorHandler('CPLQuietErrorHandler')
+    try:
+        ds = ogr.Open(datasource, update=1)
+    except Exception as e:
+        # An existing file is deleted when it is created anew. Do not do that with a file which just cannot be
+        # opened now, eg because another process has locked it
+        if Path(datasource).is_file() and 'not recognized' not in str(e):
+            raise
+        ds = None
+    finally:
+        gdal.PopErrorHandler()
+
+    if ds is None:
+        ds = ogr.GetDriverByName(driver).CreateDataSource(datasource, options=dsco)
+    return ds
+
+
 class VectorWriter(object):
     """Writes vector data to OGR datasource
 
@@ -283,17 +316,7 @@ class VectorWriter(object):
         if self.crs:
             srs = osr.SpatialReference()
             srs.ImportFromWkt(self.crs)
-        drv = ogr.GetDriverByName(self.driver)
-
-        try:
-            gdal.PushErrorHandler('CPLQuietErrorHandler')
-            self._ds = ogr.Open(self.datasource, update=1)
-            gdal.PopErrorHandler()
-        except:
-            self._ds = None
-
-        if self._ds is None:
-            self._ds = drv.CreateDataSource(self.datasource, options=self.dsco)
+        self._ds = open_or_create_datasource(self.driver, self.datasource, self.dsco)
         if self._ds is None:
             raise Exception("Cannot open or create datasource: {} for writing of {}".format(self.datasource, self.layername))
 
diff --git a/malstroem/vector.py b/malstroem/vector.py
index b1adb3b..43edf55 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -17,6 +17,8 @@ from builtins import *
 import json
 from osgeo import gdal, ogr
 
+from .io import open_or_create_datasource
+
 
 def transform_cell_to_world(cell, geotransform):
     """Transform cell coordinate to world coordinate.
@@ -92,17 +94,7 @@ def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_ds
     src_ds = gdal.Open(labeled_file)
     src_band = src_ds.GetRasterBand(1)
 
-    # Create a memory OGR datasource to put results in.
-    try:
-        gdal.PushErrorHandler('CPLQuietErrorHandler')
-        dst_ds = ogr.Open(out_ds, update=1)
-        gdal.PopErrorHandler()
-    except:
-        dst_ds = None
-    
-    if not dst_ds:
-        dst_drv = ogr.GetDriverByName(out_format)
-        dst_ds = dst_drv.CreateDataSource(out_ds, options = out_dsco)
+    dst_ds = open_or_create_datasource(out_format, out_ds, out_dsco)
 
     srs = src_ds.GetSpatialRef()
     dst_layer = dst_ds.CreateLayer(out_layer, geom_type=ogr.wkbPolygon, srs=srs, options=out_lco)
-- 
2.43.0


From e660debed8846d94d44d562905c96fad2dda7577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:19 +0000
Subject: [PATCH 24/27] fix: dsco and lco options of the commands take values
 and are passed to the hypsometry writer

---
 malstroem/scripts/bluespot.py   | 8 ++++----
 malstroem/scripts/finalstate.py | 8 ++++----
 malstroem/scripts/hyps.py       | 6 +++---
 malstroem/scripts/initvolume.py | 4 ++--
 malstroem/scripts/stream.py     | 4 ++--
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index aa59be1..98d12c2 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -97,8 +97,8 @@ def process_wsheds(bluespots, flowdir, out):
 @click.option('-out', required=True, type=str, help='Output OGR datasource')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR format. See OGR documentation')
 @click.option('-layername', type=str, default='pourpoints', show_default=True, help='Output layer name')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, layername, dsco, lco):
     """Determine pour points.
 
@@ -155,8 +155,8 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
 @click.option('-out', required=True, type=str, help='Output OGR datasource')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR format. See OGR documentation')
 @click.option('-layername', type=str, default='polygonized', show_default=True, help='Output layer name')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 def process_polys(raster, out, format, layername, dsco, lco):
     """Polygonize ID raster.
 
diff --git a/malstroem/scripts/finalstate.py b/malstroem/scripts/finalstate.py
index cfd639e..0fe21ab 100644
--- a/malstroem/scripts/finalstate.py
+++ b/malstroem/scripts/finalstate.py
@@ -33,8 +33,8 @@ NODATASUBST = -999
 @click.option('-out', required=True, help='Output OGR datasource')
 @click.option('-out_layer', default='finalvolumes', show_default=True, help='Layer name of output final state volumes layer')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_net(inputvolumes, inputvolumes_layer, attribute, out, out_layer, format, dsco, lco):
     """Bluespot fill and stream network volumes in the final state of an event.
@@ -69,8 +69,8 @@ def process_net(inputvolumes, inputvolumes_layer, attribute, out, out_layer, for
 @click.option('-out', required=True, help='Output OGR datasource (output is nongeometric)')
 @click.option('-out_layer', default='finallevels', show_default=True, help='Layer name of output final state bluespot water level info')
 @click.option('-format', type=str, default='geojson', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_finallevels(finalvols, finalvols_layer, hyps, hyps_layer, out, out_layer, format, dsco, lco):
     """Approximate water levels of bluespots in the final state.
diff --git a/malstroem/scripts/hyps.py b/malstroem/scripts/hyps.py
index 5050d2a..4b4946d 100644
--- a/malstroem/scripts/hyps.py
+++ b/malstroem/scripts/hyps.py
@@ -27,8 +27,8 @@ NODATASUBST = -999
 @click.option('-out', required=True, help='Output OGR datasource')
 @click.option('-out_hyps_layer', default='hyps', show_default=True, help='Layer name of output hypsometry layer')
 @click.option('-format', type=str, default='CSV', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_hypsometry(bluespots, dem, pourpoints, pourpoints_layer, zresolution, out, out_hyps_layer, format, dsco, lco):
     """Statistical terrain elevation measures for each bluespot.
@@ -48,6 +48,6 @@ def process_hypsometry(bluespots, dem, pourpoints, pourpoints_layer, zresolution
     dem_reader = io.RasterReader(dem, nodatasubst=NODATASUBST)
 
     ogr_format = str(format)
-    hyps_writer = io.VectorWriter(ogr_format, out, out_hyps_layer, None, ogr.wkbNone, dem_reader.crs)
+    hyps_writer = io.VectorWriter(ogr_format, out, out_hyps_layer, None, ogr.wkbNone, dem_reader.crs, dsco, lco)
 
     hyps.bluespot_hypsometry_io(labeled_reader, dem_reader, pourpoints_reader, zresolution, hyps_writer)
\ No newline at end of file
diff --git a/malstroem/scripts/initvolume.py b/malstroem/scripts/initvolume.py
index e909007..fe7951c 100644
--- a/malstroem/scripts/initvolume.py
+++ b/malstroem/scripts/initvolume.py
@@ -42,8 +42,8 @@ logger = logging.getLogger(__name__)
 @click.option('-out_layer', default='initvolumes', show_default=True, help='Calculated model input volumes in [m3]')
 @click.option('-out_attribute', default='inputv', show_default=True, help='Name of output attribute')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_layer, out_attribute, format, dsco, lco):
     """Set up initial water volumes for each watershed.
diff --git a/malstroem/scripts/stream.py b/malstroem/scripts/stream.py
index ac5cc7c..a4ae8a5 100644
--- a/malstroem/scripts/stream.py
+++ b/malstroem/scripts/stream.py
@@ -35,8 +35,8 @@ from malstroem import io, streams
 @click.option('-out_nodes_layer', default='nodes', show_default=True, help='Layer name of output nodes layer')
 @click.option('-out_streams_layer', default='streams',show_default=True, help='Layer name of output streams layer')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_network(bluespots, flowdir, pourpoints, pourpoints_layer, out, out_nodes_layer, out_streams_layer, format, dsco, lco):
     """Calculate stream network between bluespots.
-- 
2.43.0


From b70abe9235abc4a2523f9f2e50335c01b586e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:25 +0000
Subject: [PATCH 25/27] fix: attributes whose names the driver changes keep
 their values

---
 malstroem/io.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 55ba6d1..9eae95e 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -329,8 +329,15 @@ class VectorWriter(object):
         for ix in range(featuredefn.GetFieldCount()):
             fielddefn = featuredefn.GetFieldDefn(ix)
             self.fields.append(fielddefn)
+        # Names may be changed by the driver (ie shortened in shapefiles). Keep track of where each field went
+        created = {}
         for f in self.fields:
+            count = self._lyr.GetLayerDefn().GetFieldCount()
             self._lyr.CreateField(f)
+            layerdefn = self._lyr.GetLayerDefn()
+            index = count if layerdefn.GetFieldCount() > count else layerdefn.GetFieldIndex(f.GetName())
+            created.setdefault(f.GetName(), index)
+        self._fieldmap = [created[featuredefn.GetFieldDefn(ix).GetName()] for ix in range(featuredefn.GetFieldCount())]
         self.fieldsinitialized = True
         self._lyr.StartTransaction()
 
@@ -381,7 +388,7 @@ class VectorWriter(object):
             self._init_fields(ogrfeature)
         feature = ogr.Feature(self._lyr.GetLayerDefn())
 
-        feature.SetFrom(ogrfeature, forgiving=1)
+        feature.SetFromWithMap(ogrfeature, True, self._fieldmap)
 
         err = self._lyr.CreateFeature(feature)
         if err:
-- 
2.43.0


From 1c0bb5b94923482871d273fda5ad1150bed4b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:18 +0000
Subject: [PATCH 26/27] fix: background of final depths is dry for terrain
 below -999

Labels of the background (and of removed bluespots) were given a water level of -999, so terrain
below that level got final depths (and id 0 is dry by definition).
---
 malstroem/approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index 110c47b..87f352c 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -172,7 +172,7 @@ def approx_bluespots(bluespot_labels, bluespot_water_levels, dem, background_lab
 
 
 
-def _labelvaluedict_to_list(labelvaluedict, background=0, set_background_to=-999.0):
+def _labelvaluedict_to_list(labelvaluedict, background=0, set_background_to=float("-inf")):
     max_label = max([x for x in labelvaluedict.keys()])
     l = []
     for ix in range(max_label + 1):
-- 
2.43.0


From 7d0282fa3a79eb0b6f5c3ea3ae08d4e0a0df9277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:18 +0000
Subject: [PATCH 27/27] fix: bluespots dropped by the filter do not add
 capacity to the background

The pour point of the background (bspot_id 0) had the total depth of the bluespots which did not pass
the filter as its volume, so finalstate kept water there. According to the documentation their capacity is not
taken into account.
---
 malstroem/bluespots.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/malstroem/bluespots.py b/malstroem/bluespots.py
index 5509527..8163ac1 100644
--- a/malstroem/bluespots.py
+++ b/malstroem/bluespots.py
@@ -75,9 +75,12 @@ def assemble_pourpoints(transform, pp_pix, bluespot_stats, watershed_stats):
         p = dict(bspot_id=ix)
         p['cell_row'] = int(stats[0]['row'])
         p['cell_col'] = int(stats[0]['col'])
-        p['bspot_dmax'] = float(stats[1]['max'])  # Bluespot max depth
+        # Bluespots which do not pass the filter are part of the background (id=0), their capacity must not be taken
+        # into account
+        is_background = ix == 0
+        p['bspot_dmax'] = 0.0 if is_background else float(stats[1]['max'])  # Bluespot max depth
         p['bspot_area'] = stats[1]['count'] * cell_area  # Bluespot area
-        p['bspot_vol'] = stats[1]['sum'] * cell_area  # Bluespot volume
+        p['bspot_vol'] = 0.0 if is_background else stats[1]['sum'] * cell_area  # Bluespot volume
         p['wshed_area'] = stats[2] * cell_area  # Local bluespot watershed area
         p['bspot_fumm'] = 1000 * p['bspot_vol'] / p['wshed_area']  # mm rain to fill bluespot with water from local wshed
 
-- 
2.43.0

