From 30b53fa472ce73fb334a4883ddefa412570f73cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 01/21] fix: interpolate the requested fine points in lazy grid
 and spline interpolation

The dask tasks interpolated at positions 0..n-1 of the result instead of at the fine
points asked for, so lazy and eager results differed for any other fine points.
---
 geotiepoints/interpolator.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index c35fbbf..f6c0d9e 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -271,17 +271,23 @@ class AbstractSingleInterpolator(ABC):
         token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
         name = 'interpolate-' + token
 
-        interpolate_slices = partial(self.interpolate_slices, **interpolator_call_kwargs)
+        interpolate_chunk = partial(self._interpolate_chunk, **interpolator_call_kwargs)
+        v_fine_points, h_fine_points = np.asarray(v_fine_points), np.asarray(h_fine_points)
 
-        dskx = {(name, ) + position: (interpolate_slices,
-                                      slices)
-                for position, slices in _enumerate_chunk_slices(chunks)}
+        dskx = {(name, ) + position: (interpolate_chunk,
+                                      v_fine_points[slice_y],
+                                      h_fine_points[slice_x])
+                for position, (slice_y, slice_x) in _enumerate_chunk_slices(chunks)}
 
         res = da.Array(dskx, name, shape=list(shape),
                        chunks=chunks,
                        dtype=self.values.dtype)
         return res
 
+    def _interpolate_chunk(self, v_fine_points, h_fine_points, **interpolator_call_kwargs):
+        """Interpolate one chunk of the target grid."""
+        return self.interpolate_numpy((v_fine_points, h_fine_points), **interpolator_call_kwargs)
+
     @abstractmethod
     def interpolate_numpy(self, fine_points, **interpolator_call_kwargs):
         """Interpolate to a numpy array."""
-- 
2.43.0


From cb9c76ed45a9481d407a855e1fd4c80a492904fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 02/21] fix: give lazy interpolations of different kind or
 options different task names

The token did not cover the interpolator class and its options, so computing e.g. a linear
and a nearest interpolation of the same data in one graph returned the same values for both.
---
 geotiepoints/interpolator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index f6c0d9e..639ce41 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -241,6 +241,7 @@ class AbstractSingleInterpolator(ABC):
         self.interpolator = scipy_interpolator(points, values, **interpolator_init_kwargs)
         self.points = points
         self.values = values
+        self._init_kwargs = interpolator_init_kwargs
 
     def interpolate(self, fine_points, chunks=None, **interpolator_call_kwargs):
         """Interpolate the value points to the *fine_points* grid.
@@ -268,7 +269,8 @@ class AbstractSingleInterpolator(ABC):
 
         chunks = normalize_chunks(chunks, shape, dtype=self.values.dtype)
 
-        token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
+        token = tokenize(type(self), self._init_kwargs, chunks, self.points, self.values, fine_points,
+                         interpolator_call_kwargs)
         name = 'interpolate-' + token
 
         interpolate_chunk = partial(self._interpolate_chunk, **interpolator_call_kwargs)
@@ -339,6 +341,7 @@ class SingleSplineInterpolator(AbstractSingleInterpolator):
         self.interpolator = RectBivariateSpline(*points, values, **interpolator_init_kwargs)
         self.points = points
         self.values = values
+        self._init_kwargs = interpolator_init_kwargs
 
     def interpolate_numpy(self, fine_points, **interpolator_call_kwargs):
         """Interpolate to a numpy array."""
-- 
2.43.0


From 2967e4e770d179aa0ae48de0627ef10b27483b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 03/21] fix: accept dask chunks smaller than a scan in MODIS
 interpolation

A first row chunk smaller than a scan made the new chunk size zero (ZeroDivisionError).
---
 geotiepoints/_modis_utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index b290cb0..8d0570f 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -183,7 +183,7 @@ def _rechunk_dask_arrays_if_needed(args, rows_per_scan: int):
     if good_row_chunks and good_col_chunks and all_same_chunks:
         return args
 
-    new_row_chunks = (row_chunks[0] // rows_per_scan) * rows_per_scan
+    new_row_chunks = max(row_chunks[0] // rows_per_scan, 1) * rows_per_scan
     new_args = [arr.rechunk((new_row_chunks, -1)) if hasattr(arr, "chunks") else arr for arr in args]
     return new_args
 
-- 
2.43.0


From 33d2837f6caced3fc5f5bcf5284ebf656217732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 04/21] fix: mix numpy, dask and DataArray arguments in MODIS
 interpolation

With a dask longitude and a numpy latitude every block was combined with the first rows of the
latitudes (silently wrong result), and numpy-backed DataArrays raised AttributeError.
---
 geotiepoints/_modis_utils.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 8d0570f..7eb0e79 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -102,7 +102,7 @@ def scanline_mapblocks(func):
         first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
         if first_arr.ndim != 2 or first_arr.ndim != 2:
             raise ValueError("Expected 2D input arrays.")
-        if hasattr(first_arr, "compute"):
+        if any(hasattr(arr, "compute") for arr in args):
             # assume it is dask or xarray with dask, ensure proper chunk size
             # if DataArray get just the dask array
             dask_args = _extract_dask_arrays_from_args(args)
@@ -130,7 +130,11 @@ def scanline_mapblocks(func):
 
 
 def _extract_dask_arrays_from_args(args):
-    return [arr_obj.data if hasattr(arr_obj, "dims") else arr_obj for arr_obj in args]
+    return [_as_dask_array(arr_obj) if hasattr(arr_obj, "ndim") else arr_obj for arr_obj in args]
+
+
+def _as_dask_array(arr_obj):
+    return da.asarray(arr_obj.data if hasattr(arr_obj, "dims") else arr_obj)
 
 
 def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **kwargs):
-- 
2.43.0


From 4c08e54edf6b0924b9ec3a3932d1f83d5c97ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 05/21] fix: make the tasks of chunked MODIS interpolation
 picklable

The task function was a closure with the name of the decorated function, which cannot be
pickled, so lazy results could not be computed with dask's process or cluster schedulers.
---
 geotiepoints/_modis_utils.pyx | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 7eb0e79..f3fcfd1 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -109,7 +109,7 @@ def scanline_mapblocks(func):
             rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
             rechunked_args = _rechunk_dask_arrays_if_needed(dask_args, rows_per_scan)
             results = _call_map_blocks_interp(
-                func,
+                _wrapper,
                 coarse_resolution,
                 fine_resolution,
                 *rechunked_args,
@@ -144,8 +144,9 @@ def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **k
     fine_pixels_per_1km = {250: 4, 500: 2, 1000: 1}[fine_resolution]
     fine_scan_width = 1354 * fine_pixels_per_1km
     new_col_chunks = (fine_scan_width,)
-    wrapped_func = _map_blocks_handler(func)
-    res = da.map_blocks(wrapped_func, *args,
+    # tasks have to be picklable: pass on the public function, it can be imported by name
+    res = da.map_blocks(_map_blocks_handler, *args,
+                        interp_func=func,
                         coarse_resolution=coarse_resolution,
                         fine_resolution=fine_resolution,
                         **kwargs,
@@ -192,13 +193,8 @@ def _rechunk_dask_arrays_if_needed(args, rows_per_scan: int):
     return new_args
 
 
-def _map_blocks_handler(func):
-    @wraps(func)
-    def _map_blocks_wrapper(*args, **kwargs):
-        results = func(*args, **kwargs)
-        return np.concatenate(
-            tuple(result[np.newaxis] for result in results),
-            axis=0)
-    return _map_blocks_wrapper
-
-
+def _map_blocks_handler(*args, interp_func, **kwargs):
+    results = interp_func(*args, **kwargs)
+    return np.concatenate(
+        tuple(result[np.newaxis] for result in results),
+        axis=0)
-- 
2.43.0


From f7f29c4dc420bf27dfbcee8a291b7c28bbaecdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 06/21] fix: accept float64 data in the angle based MODIS
 interpolation

The coordinates were always float32, so float64 tie points failed with a dtype mismatch.
---
 geotiepoints/_modis_interpolator.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index bed18ee..59a042c 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -145,8 +145,8 @@ cdef class MODISInterpolator:
         cdef floating[:, ::1] a_scan_view = a_scan
 
         cdef tuple coords_xy = self._get_coords()
-        cdef np.ndarray[floating, ndim=1] x = coords_xy[0]
-        cdef np.ndarray[floating, ndim=1] y = coords_xy[1]
+        cdef np.ndarray[floating, ndim=1] x = coords_xy[0].astype(lon1.dtype, copy=False)
+        cdef np.ndarray[floating, ndim=1] y = coords_xy[1].astype(lon1.dtype, copy=False)
         cdef floating[::1] x_view = x
         cdef floating[::1] y_view = y
 
-- 
2.43.0


From 130bc1be20028a9c839e99be6d0a7ccdb43e4ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 07/21] fix: propagate errors out of the simple MODIS
 interpolation

_compute_interpolated_xyz_scan was noexcept although it calls scipy: a MemoryError or a
KeyboardInterrupt in there was printed and ignored, and uninitialised or stale values of
the previous scan were returned as geolocation.
---
 geotiepoints/_simple_modis_interpolator.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/_simple_modis_interpolator.pyx b/geotiepoints/_simple_modis_interpolator.pyx
index f1e4c58..4d4db01 100644
--- a/geotiepoints/_simple_modis_interpolator.pyx
+++ b/geotiepoints/_simple_modis_interpolator.pyx
@@ -87,7 +87,7 @@ cdef void _compute_interpolated_xyz_scan(
         floating[:, :, ::1] coordinates_view,
         floating[:, :, ::1] xyz_input_view,
         floating[:, :, ::1] xyz_result_view,
-) noexcept nogil:
+) except * nogil:
     cdef Py_ssize_t comp_index
     cdef floating[:, :] input_view, result_view
     with gil:
-- 
2.43.0


From 596c9bd87645e953ef13825467edc8b5c955fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 08/21] fix: accept read-only arrays in the compiled
 interpolators

Arrays from memory-mapped files or delivered by a dask cluster are not
writable; the kernels only read them, so take const views.
---
 geotiepoints/_modis_interpolator.pyx        | 26 +++++++--------
 geotiepoints/_modis_utils.pxd               |  4 +--
 geotiepoints/_modis_utils.pyx               |  4 +--
 geotiepoints/_simple_modis_interpolator.pyx |  4 +--
 geotiepoints/multilinear_cython.pyx         | 35 +++++++++++----------
 5 files changed, 37 insertions(+), 36 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 59a042c..f861941 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -38,7 +38,7 @@ def interpolate(
     return interp.interpolate(lon1, lat1, satz1)
 
 
-cdef void _compute_expansion_alignment(floating[:, :] satz_a, floating [:, :] satz_b, int scan_width,
+cdef void _compute_expansion_alignment(const floating[:, :] satz_a, const floating[:, :] satz_b, int scan_width,
                                        floating[:, ::1] c_expansion, floating[:, ::1] c_alignment) noexcept nogil:
     """Fill in expansion and alignment.
     
@@ -82,11 +82,11 @@ cdef inline floating _compute_zeta(floating phi) noexcept nogil:
     return asin((R + H) * sin(phi) / R)
 
 
-cdef inline floating[:, :] _get_upper_left_corner(floating[:, ::1] arr) noexcept nogil:
+cdef inline const floating[:, :] _get_upper_left_corner(const floating[:, ::1] arr) noexcept nogil:
     return arr[:arr.shape[0] - 1, :arr.shape[1] - 1]
 
 
-cdef inline floating[:, :] _get_upper_right_corner(floating[:, ::1] arr) noexcept nogil:
+cdef inline const floating[:, :] _get_upper_right_corner(const floating[:, ::1] arr) noexcept nogil:
     return arr[:arr.shape[0] - 1, 1:]
 
 
@@ -167,9 +167,9 @@ cdef class MODISInterpolator:
         cdef unsigned int scans = satz1.shape[0] // self._coarse_scan_length
         cdef np.ndarray[floating, ndim=2] new_lons = np.empty((satz1.shape[0] * self._fine_pixels_per_coarse_pixel, self._fine_scan_width), dtype=lon1.dtype)
         cdef np.ndarray[floating, ndim=2] new_lats = np.empty((satz1.shape[0] * self._fine_pixels_per_coarse_pixel, self._fine_scan_width), dtype=lon1.dtype)
-        cdef floating[:, ::1] coarse_lons = lon1
-        cdef floating[:, ::1] coarse_lats = lat1
-        cdef floating[:, ::1] coarse_satz = satz1
+        cdef const floating[:, ::1] coarse_lons = lon1
+        cdef const floating[:, ::1] coarse_lats = lat1
+        cdef const floating[:, ::1] coarse_satz = satz1
         cdef floating[:, ::1] fine_lons = new_lons
         cdef floating[:, ::1] fine_lats = new_lats
         with nogil:
@@ -250,9 +250,9 @@ cdef class MODISInterpolator:
 
     cdef void _interpolate_lons_lats(self,
                                      unsigned int scans,
-                                     floating[:, ::1] coarse_lons,
-                                     floating[:, ::1] coarse_lats,
-                                     floating[:, ::1] coarse_satz,
+                                     const floating[:, ::1] coarse_lons,
+                                     const floating[:, ::1] coarse_lats,
+                                     const floating[:, ::1] coarse_satz,
                                      floating[::1] x,
                                      floating[::1] y,
                                      floating[:, ::1] a_track,
@@ -266,7 +266,7 @@ cdef class MODISInterpolator:
                                      floating[:, ::1] fine_lons,
                                      floating[:, ::1] fine_lats,
                                      ) noexcept nogil:
-        cdef floating[:, ::1] lons_scan, lats_scan, satz_scan
+        cdef const floating[:, ::1] lons_scan, lats_scan, satz_scan
         cdef floating[:, ::1] new_lons_scan, new_lats_scan
         cdef Py_ssize_t scan_idx
         for scan_idx in range(0, scans):
@@ -294,7 +294,7 @@ cdef class MODISInterpolator:
 
     cdef void _get_atrack_ascan(
             self,
-            floating[:, ::1] satz,
+            const floating[:, ::1] satz,
             floating[::1] x,
             floating[::1] y,
             floating[:, ::1] c_exp_coarse,
@@ -304,8 +304,8 @@ cdef class MODISInterpolator:
             floating[:, ::1] a_track,
             floating[:, ::1] a_scan
     ) noexcept nogil:
-        cdef floating[:, :] satz_a_view = _get_upper_left_corner(satz)
-        cdef floating[:, :] satz_b_view = _get_upper_right_corner(satz)
+        cdef const floating[:, :] satz_a_view = _get_upper_left_corner(satz)
+        cdef const floating[:, :] satz_b_view = _get_upper_right_corner(satz)
         cdef Py_ssize_t scan_idx
         _compute_expansion_alignment(
             satz_a_view,
diff --git a/geotiepoints/_modis_utils.pxd b/geotiepoints/_modis_utils.pxd
index c8bf665..d9741b7 100644
--- a/geotiepoints/_modis_utils.pxd
+++ b/geotiepoints/_modis_utils.pxd
@@ -6,8 +6,8 @@ ctypedef fused floating:
     np.float64_t
 
 cdef void lonlat2xyz(
-        floating[:, ::1] lons,
-        floating[:, ::1] lats,
+        const floating[:, ::1] lons,
+        const floating[:, ::1] lats,
         floating[:, :, ::1] xyz,
 ) noexcept nogil
 
diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index f3fcfd1..063de4f 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -24,8 +24,8 @@ DEF EARTH_RADIUS = 6370997.0
 
 
 cdef void lonlat2xyz(
-        floating[:, ::1] lons,
-        floating[:, ::1] lats,
+        const floating[:, ::1] lons,
+        const floating[:, ::1] lats,
         floating[:, :, ::1] xyz,
 ) noexcept nogil:
     """Convert lons and lats to cartesian coordinates."""
diff --git a/geotiepoints/_simple_modis_interpolator.pyx b/geotiepoints/_simple_modis_interpolator.pyx
index 4d4db01..0f77181 100644
--- a/geotiepoints/_simple_modis_interpolator.pyx
+++ b/geotiepoints/_simple_modis_interpolator.pyx
@@ -35,8 +35,8 @@ def interpolate_geolocation_cartesian(
     cdef np.ndarray[floating, ndim=3] xyz_in = np.empty(
         (rows_per_scan, num_cols, 3), dtype=lon_array.dtype)
     cdef floating[:, :, ::1] xyz_in_view = xyz_in
-    cdef floating[:, ::1] lon_in_view = lon_array
-    cdef floating[:, ::1] lat_in_view = lat_array
+    cdef const floating[:, ::1] lon_in_view = lon_array
+    cdef const floating[:, ::1] lat_in_view = lat_array
 
     cdef np.ndarray[floating, ndim=2] new_lons = np.empty((res_factor * num_rows, res_factor * num_cols),
                                                           dtype=lon_array.dtype)
diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index c69c624..cef3484 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -10,7 +10,8 @@ import numpy as np
 np.import_array()
 
 
-def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders, floating[:,::1] values, floating[:,::1] s):
+def multilinear_interpolation(const floating[:] smin, const floating[:] smax, const long[:] orders,
+                              const floating[:,::1] values, const floating[:,::1] s):
 
     cdef Py_ssize_t d = s.shape[0]
     cdef Py_ssize_t n_s = s.shape[1]
@@ -23,7 +24,7 @@ def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders
 
     cdef np.ndarray[floating, ndim=2] result_arr = np.empty((n_v, n_s), dtype=dtype)
     cdef floating[:, ::1] result = result_arr
-    cdef floating[:] vals
+    cdef const floating[:] vals
     cdef floating[:] res
 
     if d > 4:
@@ -45,9 +46,9 @@ def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders
     return result_arr
 
 
-cdef void multilinear_interpolation_1d(floating[:] smin, floating[:] smax,
-                                       long[:] orders, floating[:] V,
-                                       int n_s, floating[:,::1] s, floating[:] output) noexcept nogil:
+cdef void multilinear_interpolation_1d(const floating[:] smin, const floating[:] smax,
+                                       const long[:] orders, const floating[:] V,
+                                       int n_s, const floating[:,::1] s, floating[:] output) noexcept nogil:
 
     cdef int i
     cdef floating lam_0, s_0, sn_0, snt_0
@@ -78,9 +79,9 @@ cdef void multilinear_interpolation_1d(floating[:] smin, floating[:] smax,
             output[i] = (1-lam_0)*(v_0) + (lam_0)*(v_1)
 
 
-cdef void multilinear_interpolation_2d(floating[:] smin, floating[:] smax,
-                                       long[:] orders, floating[:] V,
-                                       int n_s, floating[:,::1] s, floating[:] output) noexcept nogil:
+cdef void multilinear_interpolation_2d(const floating[:] smin, const floating[:] smax,
+                                       const long[:] orders, const floating[:] V,
+                                       int n_s, const floating[:,::1] s, floating[:] output) noexcept nogil:
 
     cdef int i
     cdef floating lam_0, s_0, sn_0, snt_0
@@ -123,9 +124,9 @@ cdef void multilinear_interpolation_2d(floating[:] smin, floating[:] smax,
             output[i] = (1-lam_0)*((1-lam_1)*(v_00) + (lam_1)*(v_01)) + (lam_0)*((1-lam_1)*(v_10) + (lam_1)*(v_11))
 
 
-cdef void multilinear_interpolation_3d(floating[:] smin, floating[:] smax,
-                                       long[:] orders, floating[:] V,
-                                       int n_s, floating[:,::1] s, floating[:] output) noexcept nogil:
+cdef void multilinear_interpolation_3d(const floating[:] smin, const floating[:] smax,
+                                       const long[:] orders, const floating[:] V,
+                                       int n_s, const floating[:,::1] s, floating[:] output) noexcept nogil:
     cdef int i
     cdef floating lam_0, s_0, sn_0, snt_0
     cdef floating lam_1, s_1, sn_1, snt_1
@@ -183,9 +184,9 @@ cdef void multilinear_interpolation_3d(floating[:] smin, floating[:] smax,
             output[i] = (1-lam_0)*((1-lam_1)*((1-lam_2)*(v_000) + (lam_2)*(v_001)) + (lam_1)*((1-lam_2)*(v_010) + (lam_2)*(v_011))) + (lam_0)*((1-lam_1)*((1-lam_2)*(v_100) + (lam_2)*(v_101)) + (lam_1)*((1-lam_2)*(v_110) + (lam_2)*(v_111)))
 
 
-cdef void multilinear_interpolation_4d(floating[:] smin, floating[:] smax,
-                                       long[:] orders, floating[:] V,
-                                       int n_s, floating[:,::1] s, floating[:] output) noexcept nogil:
+cdef void multilinear_interpolation_4d(const floating[:] smin, const floating[:] smax,
+                                       const long[:] orders, const floating[:] V,
+                                       int n_s, const floating[:,::1] s, floating[:] output) noexcept nogil:
 
     cdef int i
     cdef floating lam_0, s_0, sn_0, snt_0
@@ -268,9 +269,9 @@ cdef void multilinear_interpolation_4d(floating[:] smin, floating[:] smax,
             output[i] = (1-lam_0)*((1-lam_1)*((1-lam_2)*((1-lam_3)*(v_0000) + (lam_3)*(v_0001)) + (lam_2)*((1-lam_3)*(v_0010) + (lam_3)*(v_0011))) + (lam_1)*((1-lam_2)*((1-lam_3)*(v_0100) + (lam_3)*(v_0101)) + (lam_2)*((1-lam_3)*(v_0110) + (lam_3)*(v_0111)))) + (lam_0)*((1-lam_1)*((1-lam_2)*((1-lam_3)*(v_1000) + (lam_3)*(v_1001)) + (lam_2)*((1-lam_3)*(v_1010) + (lam_3)*(v_1011))) + (lam_1)*((1-lam_2)*((1-lam_3)*(v_1100) + (lam_3)*(v_1101)) + (lam_2)*((1-lam_3)*(v_1110) + (lam_3)*(v_1111))))
 
 
-cdef void multilinear_interpolation_5d(floating[:] smin, floating[:] smax,
-                                       long[:] orders, floating[:] V,
-                                       int n_s, floating[:,::1] s, floating[:] output) noexcept nogil:
+cdef void multilinear_interpolation_5d(const floating[:] smin, const floating[:] smax,
+                                       const long[:] orders, const floating[:] V,
+                                       int n_s, const floating[:,::1] s, floating[:] output) noexcept nogil:
     cdef int i
     cdef floating lam_0, s_0, sn_0, snt_0
     cdef floating lam_1, s_1, sn_1, snt_1
-- 
2.43.0


From dfec4c580361667b49675031588aa336200c10e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 09/21] fix: build interpolation results locally so that a
 shared Interpolator is safe

Another thread interpolating the same object could get the half-filled
arrays, and a result list handed out earlier changed with the next call.
---
 geotiepoints/interpolator.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 639ce41..8e0f44e 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -198,7 +198,8 @@ class Interpolator:
         if np.array_equal(self.hrow_indices, self.row_indices):
             return self._interp1d()
 
-        for num, data in enumerate(self.tie_data):
+        new_data = []
+        for data in self.tie_data:
             spl = RectBivariateSpline(self.row_indices,
                                       self.col_indices,
                                       data,
@@ -206,27 +207,32 @@ class Interpolator:
                                       kx=self.kx_,
                                       ky=self.ky_)
 
-            self.new_data[num] = spl(self.hrow_indices, self.hcol_indices, grid=True)
+            new_data.append(spl(self.hrow_indices, self.hcol_indices, grid=True))
+        return new_data
 
     def _interp1d(self):
         """Interpolate in one dimension."""
         lines = len(self.hrow_indices)
 
+        new_data = []
         for num, data in enumerate(self.tie_data):
-            self.new_data[num] = np.empty((len(self.hrow_indices),
-                                           len(self.hcol_indices)),
-                                          data.dtype)
+            new_data.append(np.empty((len(self.hrow_indices),
+                                      len(self.hcol_indices)),
+                                     data.dtype))
 
             for cnt in range(lines):
                 tck = splrep(self.col_indices, data[cnt, :], k=self.ky_, s=0)
-                self.new_data[num][cnt, :] = splev(
+                new_data[num][cnt, :] = splev(
                     self.hcol_indices, tck, der=0)
+        return new_data
 
     def interpolate(self):
         """Do the interpolation, and return resulting longitudes and latitudes."""
-        self._interp()
+        new_data = self._interp()
+        # keep an own list: the one returned belongs to the caller
+        self.new_data = list(new_data)
 
-        return self.new_data
+        return new_data
 
 
 class AbstractSingleInterpolator(ABC):
-- 
2.43.0


From 6e527c8a108fac64115a7d9a7186f2cb199150fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 10/21] fix: leave the Interpolator unchanged when filling
 borders fails

A failure between the arrays or dimensions left some of them extended;
repeating the call extended those again.
---
 geotiepoints/interpolator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 8e0f44e..e226f36 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -93,8 +93,14 @@ class Interpolator:
             except KeyError:
                 raise NameError("Unrecognized dimension: " + str(dim))
 
-        for fun in to_run:
-            fun()
+        state = list(self.tie_data), self.row_indices, self.col_indices
+        try:
+            for fun in to_run:
+                fun()
+        except BaseException:
+            # do not leave half of the borders filled
+            self.tie_data, self.row_indices, self.col_indices = state
+            raise
 
     def _extrapolate_cols(self, data, first=True, last=True):
         """Extrapolate the column of data, to get the first and last together with the data."""
-- 
2.43.0


From 7a1f58a93309bef485251b5b4a0a2ea6bdbf933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 11/21] fix: use tie point units in generic_modis5kmto1km

Like in modis5kmto1km the indices have to be in units of 5km pixels: the
border filling assigns no tie points to a scan otherwise and raises.
---
 geotiepoints/interpolator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index e226f36..e3cd771 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -8,11 +8,11 @@ from scipy.interpolate import RectBivariateSpline, splev, splrep, RegularGridInt
 
 def generic_modis5kmto1km(*data5km):
     """Get 1km data for modis from 5km tiepoints."""
-    cols5km = np.arange(2, 1354, 5)
-    cols1km = np.arange(1354)
+    cols5km = np.arange(2, 1354, 5) / 5.0
+    cols1km = np.arange(1354) / 5.0
     lines = data5km[0].shape[0] * 5
-    rows5km = np.arange(2, lines, 5)
-    rows1km = np.arange(lines)
+    rows5km = np.arange(2, lines, 5) / 5.0
+    rows1km = np.arange(lines) / 5.0
 
     along_track_order = 1
     cross_track_order = 3
-- 
2.43.0


From 99b86ac82c2d1819a075b430e758456d56595e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 12/21] fix: DataFrame.as_matrix does not exist any more in
 BasicSatelliteInterpolator

---
 geotiepoints/basic_interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/basic_interpolator.py b/geotiepoints/basic_interpolator.py
index 7b990dd..5245f76 100644
--- a/geotiepoints/basic_interpolator.py
+++ b/geotiepoints/basic_interpolator.py
@@ -54,10 +54,10 @@ class BasicSatelliteInterpolator(object):
             return self._pandas_interp(data, self.row_indices)
         
         if axis == 1:
-            data_transposed = data.as_matrix().T
+            data_transposed = data.to_numpy().T
             data_interpol_transposed = self._pandas_interp(data_transposed, 
                                                             self.col_indices)
-            data_interpol = data_interpol_transposed.as_matrix().T
+            data_interpol = data_interpol_transposed.to_numpy().T
 
             return data_interpol
 
-- 
2.43.0


From 2f177134a50e234c733da8848d89882a6c2bede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 13/21] fix: grid of a one-dimensional MultilinearInterpolator

numpy.linspace does not take an array for the number of points.
---
 geotiepoints/multilinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/multilinear.py b/geotiepoints/multilinear.py
index aedad4e..f0aa9d5 100644
--- a/geotiepoints/multilinear.py
+++ b/geotiepoints/multilinear.py
@@ -8,7 +8,7 @@ from geotiepoints.multilinear_cython import multilinear_interpolation
 def mlinspace(smin, smax, orders):
     if len(orders) == 1:
         res = np.atleast_2d(
-            np.linspace(np.array(smin), np.array(smax), np.array(orders)))
+            np.linspace(smin[0], smax[0], orders[0]))
         return res.copy()  # workaround for strange bug
     else:
         meshes = np.meshgrid(
-- 
2.43.0


From 897a56d3c43de4a1ed21c45bbbb6668d4fc64660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 14/21] fix: raise instead of hanging when a worker process of
 a multi-core call dies

multiprocessing.Pool replaces a dead worker but never completes its task,
so that joining the pool did not return.
---
 geotiepoints/__init__.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/geotiepoints/__init__.py b/geotiepoints/__init__.py
index dbbb260..3ede38e 100644
--- a/geotiepoints/__init__.py
+++ b/geotiepoints/__init__.py
@@ -1,6 +1,6 @@
 """Interpolation of geographical tiepoints."""
 
-from multiprocessing import Pool
+from concurrent.futures import ProcessPoolExecutor
 
 import numpy as np
 from numpy import arccos, arcsin, rad2deg, sign, sqrt
@@ -74,22 +74,16 @@ def modis5kmto1km(lons5km, lats5km):
 def _multi(fun, lons, lats, chunk_size, cores=1):
     """Work on multiple cores.
     """
-    pool = Pool(processes=cores)
-
     splits = get_scene_splits(lons.shape[0], chunk_size, cores)
 
     lons_parts = np.vsplit(lons, splits)
     lats_parts = np.vsplit(lats, splits)
 
-    results = [pool.apply_async(fun,
-                                (lons_parts[i],
-                                 lats_parts[i]))
-               for i in range(len(lons_parts))]
-
-    pool.close()
-    pool.join()
+    # unlike multiprocessing.Pool, this raises when a worker process dies
+    with ProcessPoolExecutor(max_workers=cores) as pool:
+        results = list(pool.map(fun, lons_parts, lats_parts))
 
-    lons, lats = zip(*(res.get() for res in results))
+    lons, lats = zip(*results)
 
     return np.vstack(lons), np.vstack(lats)
 
-- 
2.43.0


From 75af7dfe826ec01961d11c5687a90f1b77eb1cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:56 +0000
Subject: [PATCH 15/21] fix: reject MODIS arguments that are not 2D arrays of
 one shape instead of reading outside them

---
 geotiepoints/_modis_utils.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 063de4f..2b0cf9a 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -99,9 +99,11 @@ def scanline_mapblocks(func):
     def _wrapper(*args, coarse_resolution=None, fine_resolution=None, **kwargs):
         if coarse_resolution is None or fine_resolution is None:
             raise ValueError("'coarse_resolution' and 'fine_resolution' are required keyword arguments.")
-        first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
-        if first_arr.ndim != 2 or first_arr.ndim != 2:
+        if not args or any(getattr(arr, "ndim", None) != 2 for arr in args):
             raise ValueError("Expected 2D input arrays.")
+        first_arr = args[0]
+        if any(arr.shape != first_arr.shape for arr in args):
+            raise ValueError("Expected input arrays of the same shape.")
         if any(hasattr(arr, "compute") for arr in args):
             # assume it is dask or xarray with dask, ensure proper chunk size
             # if DataArray get just the dask array
-- 
2.43.0


From e67ae9508068ed5173e33b1c3582810b2d533bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:18 +0000
Subject: [PATCH 16/21] fix: reject MODIS numpy arrays of partial scans instead
 of returning uninitialised rows

---
 geotiepoints/_modis_utils.pyx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 2b0cf9a..47aae5c 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -104,11 +104,14 @@ def scanline_mapblocks(func):
         first_arr = args[0]
         if any(arr.shape != first_arr.shape for arr in args):
             raise ValueError("Expected input arrays of the same shape.")
+        rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
+        if first_arr.shape[0] % rows_per_scan != 0:
+            raise ValueError("Input longitude/latitude data does not consist of "
+                             f"whole scans ({rows_per_scan} rows per scan).")
         if any(hasattr(arr, "compute") for arr in args):
             # assume it is dask or xarray with dask, ensure proper chunk size
             # if DataArray get just the dask array
             dask_args = _extract_dask_arrays_from_args(args)
-            rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
             rechunked_args = _rechunk_dask_arrays_if_needed(dask_args, rows_per_scan)
             results = _call_map_blocks_interp(
                 _wrapper,
@@ -174,15 +177,11 @@ def _rechunk_dask_arrays_if_needed(args, rows_per_scan: int):
     first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
     row_chunks = first_arr.chunks[0]
     col_chunks = first_arr.chunks[1]
-    num_rows = first_arr.shape[0]
     num_cols = first_arr.shape[1]
     good_row_chunks = all(x % rows_per_scan == 0 for x in row_chunks)
     good_col_chunks = len(col_chunks) == 1 and col_chunks[0] != num_cols
     all_orig_chunks = [arr.chunks for arr in args if hasattr(arr, "chunks")]
 
-    if num_rows % rows_per_scan != 0:
-        raise ValueError("Input longitude/latitude data does not consist of "
-                         "whole scans (10 rows per scan).")
     all_same_chunks = all(
         all_orig_chunks[0] == some_chunks
         for some_chunks in all_orig_chunks[1:]
-- 
2.43.0


From b4656323b75c8c545e2575b95cdbbb7c8b031df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:13 +0000
Subject: [PATCH 17/21] fix: reject MODIS arrays of a width that cannot be
 interpolated instead of reading and writing outside them

---
 geotiepoints/_modis_interpolator.pyx        | 5 +++++
 geotiepoints/_simple_modis_interpolator.pyx | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index f861941..10be6e9 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -35,6 +35,11 @@ def interpolate(
             "Can't interpolate if 5km tiepoints have less than 270 columns."
         )
     interp = MODISInterpolator(coarse_resolution, fine_resolution, coarse_scan_width=coarse_scan_width or 0)
+    if lon1.shape[1] != interp._coarse_scan_width:
+        raise NotImplementedError(
+            f"Can't interpolate {coarse_resolution}m tiepoints of {lon1.shape[1]} columns, "
+            f"{interp._coarse_scan_width} columns are needed."
+        )
     return interp.interpolate(lon1, lat1, satz1)
 
 
diff --git a/geotiepoints/_simple_modis_interpolator.pyx b/geotiepoints/_simple_modis_interpolator.pyx
index 0f77181..eb9c792 100644
--- a/geotiepoints/_simple_modis_interpolator.pyx
+++ b/geotiepoints/_simple_modis_interpolator.pyx
@@ -22,6 +22,8 @@ def interpolate_geolocation_cartesian(
     cdef Py_ssize_t num_rows = lon_array.shape[0]
     cdef Py_ssize_t num_cols = lon_array.shape[1]
     cdef unsigned int num_scans = num_rows // rows_per_scan
+    if num_cols < 2:
+        raise ValueError("Can't interpolate data of less than 2 columns.")
 
     # SciPy's map_coordinates requires the x/y dimension to be first
     cdef np.ndarray[floating, ndim=3] coordinates = np.empty(
-- 
2.43.0


From c5ce744bd27a228a2cefc023dfb5e409fc8c86cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 18/21] fix: declared width of lazy simple MODIS results of
 other widths than 1354

---
 geotiepoints/_modis_utils.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 47aae5c..09e5e3a 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -147,7 +147,10 @@ def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **k
     res_factor = coarse_resolution // fine_resolution
     new_row_chunks = tuple(x * res_factor for x in first_arr.chunks[0])
     fine_pixels_per_1km = {250: 4, 500: 2, 1000: 1}[fine_resolution]
-    fine_scan_width = 1354 * fine_pixels_per_1km
+    if coarse_resolution == 1000:
+        fine_scan_width = first_arr.shape[1] * fine_pixels_per_1km
+    else:
+        fine_scan_width = 1354 * fine_pixels_per_1km
     new_col_chunks = (fine_scan_width,)
     # tasks have to be picklable: pass on the public function, it can be imported by name
     res = da.map_blocks(_map_blocks_handler, *args,
-- 
2.43.0


From cce11e14ab7dce8e5d8e678f6cd9086151a83aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 19/21] fix: reject grids, values and points of different sizes
 in multilinear_interpolation instead of reading outside them

---
 geotiepoints/multilinear_cython.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index cef3484..e776b4e 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -29,6 +29,10 @@ def multilinear_interpolation(const floating[:] smin, const floating[:] smax, co
 
     if d > 4:
         raise Exception("Can't interpolate in dimension strictly greater than 5")
+    if d < 1 or not smin.shape[0] == smax.shape[0] == orders.shape[0] == d:
+        raise ValueError("Expected as many grid limits and orders as coordinates of the points.")
+    if np.prod(orders) != values.shape[1]:
+        raise ValueError("Expected as many values as there are points in the grid.")
 
     with nogil:
         for i in range(n_v):
-- 
2.43.0


From 47d22dc431ae6071726a5d6dc7894e2f140f1911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 20/21] fix: the basic interpolator hands out writable arrays
 of the caller's own

---
 geotiepoints/basic_interpolator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/basic_interpolator.py b/geotiepoints/basic_interpolator.py
index 5245f76..aeded9d 100644
--- a/geotiepoints/basic_interpolator.py
+++ b/geotiepoints/basic_interpolator.py
@@ -57,7 +57,8 @@ class BasicSatelliteInterpolator(object):
             data_transposed = data.to_numpy().T
             data_interpol_transposed = self._pandas_interp(data_transposed, 
                                                             self.col_indices)
-            data_interpol = data_interpol_transposed.to_numpy().T
+            # to_numpy alone gives a view that may be read-only
+            data_interpol = data_interpol_transposed.to_numpy(copy=True).T
 
             return data_interpol
 
@@ -82,7 +83,9 @@ class BasicSatelliteInterpolator(object):
     def interpolate(self):
         """Do the interpolation and return resulting longitudes and latitudes.
         """
-        self.latitude = self._interp(self.lat_tiepoint)
-        self.longitude = self._interp(self.lon_tiepoint)
+        # not by way of self: another thread may have put its own arrays there
+        latitude = self._interp(self.lat_tiepoint)
+        longitude = self._interp(self.lon_tiepoint)
+        self.latitude, self.longitude = latitude, longitude
 
-        return self.latitude, self.longitude
\ No newline at end of file
+        return latitude, longitude
\ No newline at end of file
-- 
2.43.0


From 86ca62b74548a8e13eac2112f2d3cfad74b39020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:16 +0000
Subject: [PATCH 21/21] fix: multilinear interpolation in grids with a single
 point along a dimension read behind the values

---
 geotiepoints/multilinear_cython.pyx | 136 ++++++++++++++++------------
 1 file changed, 79 insertions(+), 57 deletions(-)

diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index e776b4e..4887a5c 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -31,6 +31,8 @@ def multilinear_interpolation(const floating[:] smin, const floating[:] smax, co
         raise Exception("Can't interpolate in dimension strictly greater than 5")
     if d < 1 or not smin.shape[0] == smax.shape[0] == orders.shape[0] == d:
         raise ValueError("Expected as many grid limits and orders as coordinates of the points.")
+    if np.min(orders) < 1:
+        raise ValueError("Expected at least one grid point along each dimension.")
     if np.prod(orders) != values.shape[1]:
         raise ValueError("Expected as many values as there are points in the grid.")
 
@@ -57,6 +59,8 @@ cdef void multilinear_interpolation_1d(const floating[:] smin, const floating[:]
     cdef int i
     cdef floating lam_0, s_0, sn_0, snt_0
     cdef int order_0 = orders[0]
+    # step to the next point, if there is one
+    cdef int e_0 = order_0 > 1
     cdef int q_0
     cdef floating v_0
     cdef floating v_1
@@ -77,7 +81,7 @@ cdef void multilinear_interpolation_1d(const floating[:] smin, const floating[:]
 
             # v_ij: values on vertices of hypercube "containing" the point
             v_0 = V[(q_0)]
-            v_1 = V[(q_0+1)]
+            v_1 = V[(q_0+e_0)]
 
             # interpolated/extrapolated value
             output[i] = (1-lam_0)*(v_0) + (lam_0)*(v_1)
@@ -92,6 +96,9 @@ cdef void multilinear_interpolation_2d(const floating[:] smin, const floating[:]
     cdef floating lam_1, s_1, sn_1, snt_1
     cdef int order_0 = orders[0]
     cdef int order_1 = orders[1]
+    # step to the next point, if there is one
+    cdef int e_0 = order_0 > 1
+    cdef int e_1 = order_1 > 1
     cdef int q_0
     cdef int q_1
     cdef int M_0 = order_1
@@ -120,9 +127,9 @@ cdef void multilinear_interpolation_2d(const floating[:] smin, const floating[:]
 
             # v_ij: values on vertices of hypercube "containing" the point
             v_00 = V[M_0*(q_0) + (q_1)]
-            v_01 = V[M_0*(q_0) + (q_1+1)]
-            v_10 = V[M_0*(q_0+1) + (q_1)]
-            v_11 = V[M_0*(q_0+1) + (q_1+1)]
+            v_01 = V[M_0*(q_0) + (q_1+e_1)]
+            v_10 = V[M_0*(q_0+e_0) + (q_1)]
+            v_11 = V[M_0*(q_0+e_0) + (q_1+e_1)]
 
             # interpolated/extrapolated value
             output[i] = (1-lam_0)*((1-lam_1)*(v_00) + (lam_1)*(v_01)) + (lam_0)*((1-lam_1)*(v_10) + (lam_1)*(v_11))
@@ -138,6 +145,10 @@ cdef void multilinear_interpolation_3d(const floating[:] smin, const floating[:]
     cdef int order_0 = orders[0]
     cdef int order_1 = orders[1]
     cdef int order_2 = orders[2]
+    # step to the next point, if there is one
+    cdef int e_0 = order_0 > 1
+    cdef int e_1 = order_1 > 1
+    cdef int e_2 = order_2 > 1
     cdef int q_0
     cdef int q_1
     cdef int q_2
@@ -176,13 +187,13 @@ cdef void multilinear_interpolation_3d(const floating[:] smin, const floating[:]
 
             # v_ij: values on vertices of hypercube "containing" the point
             v_000 = V[M_0*(q_0) + M_1*(q_1) + (q_2)]
-            v_001 = V[M_0*(q_0) + M_1*(q_1) + (q_2+1)]
-            v_010 = V[M_0*(q_0) + M_1*(q_1+1) + (q_2)]
-            v_011 = V[M_0*(q_0) + M_1*(q_1+1) + (q_2+1)]
-            v_100 = V[M_0*(q_0+1) + M_1*(q_1) + (q_2)]
-            v_101 = V[M_0*(q_0+1) + M_1*(q_1) + (q_2+1)]
-            v_110 = V[M_0*(q_0+1) + M_1*(q_1+1) + (q_2)]
-            v_111 = V[M_0*(q_0+1) + M_1*(q_1+1) + (q_2+1)]
+            v_001 = V[M_0*(q_0) + M_1*(q_1) + (q_2+e_2)]
+            v_010 = V[M_0*(q_0) + M_1*(q_1+e_1) + (q_2)]
+            v_011 = V[M_0*(q_0) + M_1*(q_1+e_1) + (q_2+e_2)]
+            v_100 = V[M_0*(q_0+e_0) + M_1*(q_1) + (q_2)]
+            v_101 = V[M_0*(q_0+e_0) + M_1*(q_1) + (q_2+e_2)]
+            v_110 = V[M_0*(q_0+e_0) + M_1*(q_1+e_1) + (q_2)]
+            v_111 = V[M_0*(q_0+e_0) + M_1*(q_1+e_1) + (q_2+e_2)]
 
             # interpolated/extrapolated value
             output[i] = (1-lam_0)*((1-lam_1)*((1-lam_2)*(v_000) + (lam_2)*(v_001)) + (lam_1)*((1-lam_2)*(v_010) + (lam_2)*(v_011))) + (lam_0)*((1-lam_1)*((1-lam_2)*(v_100) + (lam_2)*(v_101)) + (lam_1)*((1-lam_2)*(v_110) + (lam_2)*(v_111)))
@@ -201,6 +212,11 @@ cdef void multilinear_interpolation_4d(const floating[:] smin, const floating[:]
     cdef int order_1 = orders[1]
     cdef int order_2 = orders[2]
     cdef int order_3 = orders[3]
+    # step to the next point, if there is one
+    cdef int e_0 = order_0 > 1
+    cdef int e_1 = order_1 > 1
+    cdef int e_2 = order_2 > 1
+    cdef int e_3 = order_3 > 1
     cdef int q_0
     cdef int q_1
     cdef int q_2
@@ -253,21 +269,21 @@ cdef void multilinear_interpolation_4d(const floating[:] smin, const floating[:]
 
             # v_ij: values on vertices of hypercube "containing" the point
             v_0000 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2) + (q_3)]
-            v_0001 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2) + (q_3+1)]
-            v_0010 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2+1) + (q_3)]
-            v_0011 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2+1) + (q_3+1)]
-            v_0100 = V[M_0*(q_0) + M_1*(q_1+1) + M_2*(q_2) + (q_3)]
-            v_0101 = V[M_0*(q_0) + M_1*(q_1+1) + M_2*(q_2) + (q_3+1)]
-            v_0110 = V[M_0*(q_0) + M_1*(q_1+1) + M_2*(q_2+1) + (q_3)]
-            v_0111 = V[M_0*(q_0) + M_1*(q_1+1) + M_2*(q_2+1) + (q_3+1)]
-            v_1000 = V[M_0*(q_0+1) + M_1*(q_1) + M_2*(q_2) + (q_3)]
-            v_1001 = V[M_0*(q_0+1) + M_1*(q_1) + M_2*(q_2) + (q_3+1)]
-            v_1010 = V[M_0*(q_0+1) + M_1*(q_1) + M_2*(q_2+1) + (q_3)]
-            v_1011 = V[M_0*(q_0+1) + M_1*(q_1) + M_2*(q_2+1) + (q_3+1)]
-            v_1100 = V[M_0*(q_0+1) + M_1*(q_1+1) + M_2*(q_2) + (q_3)]
-            v_1101 = V[M_0*(q_0+1) + M_1*(q_1+1) + M_2*(q_2) + (q_3+1)]
-            v_1110 = V[M_0*(q_0+1) + M_1*(q_1+1) + M_2*(q_2+1) + (q_3)]
-            v_1111 = V[M_0*(q_0+1) + M_1*(q_1+1) + M_2*(q_2+1) + (q_3+1)]
+            v_0001 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2) + (q_3+e_3)]
+            v_0010 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2+e_2) + (q_3)]
+            v_0011 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2+e_2) + (q_3+e_3)]
+            v_0100 = V[M_0*(q_0) + M_1*(q_1+e_1) + M_2*(q_2) + (q_3)]
+            v_0101 = V[M_0*(q_0) + M_1*(q_1+e_1) + M_2*(q_2) + (q_3+e_3)]
+            v_0110 = V[M_0*(q_0) + M_1*(q_1+e_1) + M_2*(q_2+e_2) + (q_3)]
+            v_0111 = V[M_0*(q_0) + M_1*(q_1+e_1) + M_2*(q_2+e_2) + (q_3+e_3)]
+            v_1000 = V[M_0*(q_0+e_0) + M_1*(q_1) + M_2*(q_2) + (q_3)]
+            v_1001 = V[M_0*(q_0+e_0) + M_1*(q_1) + M_2*(q_2) + (q_3+e_3)]
+            v_1010 = V[M_0*(q_0+e_0) + M_1*(q_1) + M_2*(q_2+e_2) + (q_3)]
+            v_1011 = V[M_0*(q_0+e_0) + M_1*(q_1) + M_2*(q_2+e_2) + (q_3+e_3)]
+            v_1100 = V[M_0*(q_0+e_0) + M_1*(q_1+e_1) + M_2*(q_2) + (q_3)]
+            v_1101 = V[M_0*(q_0+e_0) + M_1*(q_1+e_1) + M_2*(q_2) + (q_3+e_3)]
+            v_1110 = V[M_0*(q_0+e_0) + M_1*(q_1+e_1) + M_2*(q_2+e_2) + (q_3)]
+            v_1111 = V[M_0*(q_0+e_0) + M_1*(q_1+e_1) + M_2*(q_2+e_2) + (q_3+e_3)]
 
             # interpolated/extrapolated value
             output[i] = (1-lam_0)*((1-lam_1)*((1-lam_2)*((1-lam_3)*(v_0000) + (lam_3)*(v_0001)) + (lam_2)*((1-lam_3)*(v_0010) + (lam_3)*(v_0011))) + (lam_1)*((1-lam_2)*((1-lam_3)*(v_0100) + (lam_3)*(v_0101)) + (lam_2)*((1-lam_3)*(v_0110) + (lam_3)*(v_0111)))) + (lam_0)*((1-lam_1)*((1-lam_2)*((1-lam_3)*(v_1000) + (lam_3)*(v_1001)) + (lam_2)*((1-lam_3)*(v_1010) + (lam_3)*(v_1011))) + (lam_1)*((1-lam_2)*((1-lam_3)*(v_1100) + (lam_3)*(v_1101)) + (lam_2)*((1-lam_3)*(v_1110) + (lam_3)*(v_1111))))
@@ -287,6 +303,12 @@ cdef void multilinear_interpolation_5d(const floating[:] smin, const floating[:]
     cdef int order_2 = orders[2]
     cdef int order_3 = orders[3]
     cdef int order_4 = orders[4]
+    # step to the next point, if there is one
+    cdef int e_0 = order_0 > 1
+    cdef int e_1 = order_1 > 1
+    cdef int e_2 = order_2 > 1
+    cdef int e_3 = order_3 > 1
+    cdef int e_4 = order_4 > 1
     cdef int q_0
     cdef int q_1
     cdef int q_2
@@ -361,37 +383,37 @@ cdef void multilinear_interpolation_5d(const floating[:] smin, const floating[:]
 
             # v_ij: values on vertices of hypercube "containing" the point
             v_00000 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2) + M_3*(q_3) + (q_4)]
-            v_00001 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2) + M_3*(q_3) + (q_4+1)]
-            v_00010 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2) + M_3*(q_3+1) + (q_4)]
-            v_00011 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2) + M_3*(q_3+1) + (q_4+1)]
-            v_00100 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2+1) + M_3*(q_3) + (q_4)]
-            v_00101 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2+1) + M_3*(q_3) + (q_4+1)]
-            v_00110 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2+1) + M_3*(q_3+1) + (q_4)]
-            v_00111 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2+1) + M_3*(q_3+1) + (q_4+1)]
-            v_01000 = V[M_0*(q_0) + M_1*(q_1+1) + M_2*(q_2) + M_3*(q_3) + (q_4)]
-            v_01001 = V[M_0*(q_0) + M_1*(q_1+1) + M_2*(q_2) + M_3*(q_3) + (q_4+1)]
-            v_01010 = V[M_0*(q_0) + M_1*(q_1+1) + M_2*(q_2) + M_3*(q_3+1) + (q_4)]
-            v_01011 = V[M_0*(q_0) + M_1*(q_1+1) + M_2*(q_2) + M_3*(q_3+1) + (q_4+1)]
-            v_01100 = V[M_0*(q_0) + M_1*(q_1+1) + M_2*(q_2+1) + M_3*(q_3) + (q_4)]
-            v_01101 = V[M_0*(q_0) + M_1*(q_1+1) + M_2*(q_2+1) + M_3*(q_3) + (q_4+1)]
-            v_01110 = V[M_0*(q_0) + M_1*(q_1+1) + M_2*(q_2+1) + M_3*(q_3+1) + (q_4)]
-            v_01111 = V[M_0*(q_0) + M_1*(q_1+1) + M_2*(q_2+1) + M_3*(q_3+1) + (q_4+1)]
-            v_10000 = V[M_0*(q_0+1) + M_1*(q_1) + M_2*(q_2) + M_3*(q_3) + (q_4)]
-            v_10001 = V[M_0*(q_0+1) + M_1*(q_1) + M_2*(q_2) + M_3*(q_3) + (q_4+1)]
-            v_10010 = V[M_0*(q_0+1) + M_1*(q_1) + M_2*(q_2) + M_3*(q_3+1) + (q_4)]
-            v_10011 = V[M_0*(q_0+1) + M_1*(q_1) + M_2*(q_2) + M_3*(q_3+1) + (q_4+1)]
-            v_10100 = V[M_0*(q_0+1) + M_1*(q_1) + M_2*(q_2+1) + M_3*(q_3) + (q_4)]
-            v_10101 = V[M_0*(q_0+1) + M_1*(q_1) + M_2*(q_2+1) + M_3*(q_3) + (q_4+1)]
-            v_10110 = V[M_0*(q_0+1) + M_1*(q_1) + M_2*(q_2+1) + M_3*(q_3+1) + (q_4)]
-            v_10111 = V[M_0*(q_0+1) + M_1*(q_1) + M_2*(q_2+1) + M_3*(q_3+1) + (q_4+1)]
-            v_11000 = V[M_0*(q_0+1) + M_1*(q_1+1) + M_2*(q_2) + M_3*(q_3) + (q_4)]
-            v_11001 = V[M_0*(q_0+1) + M_1*(q_1+1) + M_2*(q_2) + M_3*(q_3) + (q_4+1)]
-            v_11010 = V[M_0*(q_0+1) + M_1*(q_1+1) + M_2*(q_2) + M_3*(q_3+1) + (q_4)]
-            v_11011 = V[M_0*(q_0+1) + M_1*(q_1+1) + M_2*(q_2) + M_3*(q_3+1) + (q_4+1)]
-            v_11100 = V[M_0*(q_0+1) + M_1*(q_1+1) + M_2*(q_2+1) + M_3*(q_3) + (q_4)]
-            v_11101 = V[M_0*(q_0+1) + M_1*(q_1+1) + M_2*(q_2+1) + M_3*(q_3) + (q_4+1)]
-            v_11110 = V[M_0*(q_0+1) + M_1*(q_1+1) + M_2*(q_2+1) + M_3*(q_3+1) + (q_4)]
-            v_11111 = V[M_0*(q_0+1) + M_1*(q_1+1) + M_2*(q_2+1) + M_3*(q_3+1) + (q_4+1)]
+            v_00001 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2) + M_3*(q_3) + (q_4+e_4)]
+            v_00010 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2) + M_3*(q_3+e_3) + (q_4)]
+            v_00011 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2) + M_3*(q_3+e_3) + (q_4+e_4)]
+            v_00100 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2+e_2) + M_3*(q_3) + (q_4)]
+            v_00101 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2+e_2) + M_3*(q_3) + (q_4+e_4)]
+            v_00110 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2+e_2) + M_3*(q_3+e_3) + (q_4)]
+            v_00111 = V[M_0*(q_0) + M_1*(q_1) + M_2*(q_2+e_2) + M_3*(q_3+e_3) + (q_4+e_4)]
+            v_01000 = V[M_0*(q_0) + M_1*(q_1+e_1) + M_2*(q_2) + M_3*(q_3) + (q_4)]
+            v_01001 = V[M_0*(q_0) + M_1*(q_1+e_1) + M_2*(q_2) + M_3*(q_3) + (q_4+e_4)]
+            v_01010 = V[M_0*(q_0) + M_1*(q_1+e_1) + M_2*(q_2) + M_3*(q_3+e_3) + (q_4)]
+            v_01011 = V[M_0*(q_0) + M_1*(q_1+e_1) + M_2*(q_2) + M_3*(q_3+e_3) + (q_4+e_4)]
+            v_01100 = V[M_0*(q_0) + M_1*(q_1+e_1) + M_2*(q_2+e_2) + M_3*(q_3) + (q_4)]
+            v_01101 = V[M_0*(q_0) + M_1*(q_1+e_1) + M_2*(q_2+e_2) + M_3*(q_3) + (q_4+e_4)]
+            v_01110 = V[M_0*(q_0) + M_1*(q_1+e_1) + M_2*(q_2+e_2) + M_3*(q_3+e_3) + (q_4)]
+            v_01111 = V[M_0*(q_0) + M_1*(q_1+e_1) + M_2*(q_2+e_2) + M_3*(q_3+e_3) + (q_4+e_4)]
+            v_10000 = V[M_0*(q_0+e_0) + M_1*(q_1) + M_2*(q_2) + M_3*(q_3) + (q_4)]
+            v_10001 = V[M_0*(q_0+e_0) + M_1*(q_1) + M_2*(q_2) + M_3*(q_3) + (q_4+e_4)]
+            v_10010 = V[M_0*(q_0+e_0) + M_1*(q_1) + M_2*(q_2) + M_3*(q_3+e_3) + (q_4)]
+            v_10011 = V[M_0*(q_0+e_0) + M_1*(q_1) + M_2*(q_2) + M_3*(q_3+e_3) + (q_4+e_4)]
+            v_10100 = V[M_0*(q_0+e_0) + M_1*(q_1) + M_2*(q_2+e_2) + M_3*(q_3) + (q_4)]
+            v_10101 = V[M_0*(q_0+e_0) + M_1*(q_1) + M_2*(q_2+e_2) + M_3*(q_3) + (q_4+e_4)]
+            v_10110 = V[M_0*(q_0+e_0) + M_1*(q_1) + M_2*(q_2+e_2) + M_3*(q_3+e_3) + (q_4)]
+            v_10111 = V[M_0*(q_0+e_0) + M_1*(q_1) + M_2*(q_2+e_2) + M_3*(q_3+e_3) + (q_4+e_4)]
+            v_11000 = V[M_0*(q_0+e_0) + M_1*(q_1+e_1) + M_2*(q_2) + M_3*(q_3) + (q_4)]
+            v_11001 = V[M_0*(q_0+e_0) + M_1*(q_1+e_1) + M_2*(q_2) + M_3*(q_3) + (q_4+e_4)]
+            v_11010 = V[M_0*(q_0+e_0) + M_1*(q_1+e_1) + M_2*(q_2) + M_3*(q_3+e_3) + (q_4)]
+            v_11011 = V[M_0*(q_0+e_0) + M_1*(q_1+e_1) + M_2*(q_2) + M_3*(q_3+e_3) + (q_4+e_4)]
+            v_11100 = V[M_0*(q_0+e_0) + M_1*(q_1+e_1) + M_2*(q_2+e_2) + M_3*(q_3) + (q_4)]
+            v_11101 = V[M_0*(q_0+e_0) + M_1*(q_1+e_1) + M_2*(q_2+e_2) + M_3*(q_3) + (q_4+e_4)]
+            v_11110 = V[M_0*(q_0+e_0) + M_1*(q_1+e_1) + M_2*(q_2+e_2) + M_3*(q_3+e_3) + (q_4)]
+            v_11111 = V[M_0*(q_0+e_0) + M_1*(q_1+e_1) + M_2*(q_2+e_2) + M_3*(q_3+e_3) + (q_4+e_4)]
 
             # interpolated/extrapolated value
             output[i] = (1-lam_0)*((1-lam_1)*((1-lam_2)*((1-lam_3)*((1-lam_4)*(v_00000) + (lam_4)*(v_00001)) + (lam_3)*((1-lam_4)*(v_00010) + (lam_4)*(v_00011))) + (lam_2)*((1-lam_3)*((1-lam_4)*(v_00100) + (lam_4)*(v_00101)) + (lam_3)*((1-lam_4)*(v_00110) + (lam_4)*(v_00111)))) + (lam_1)*((1-lam_2)*((1-lam_3)*((1-lam_4)*(v_01000) + (lam_4)*(v_01001)) + (lam_3)*((1-lam_4)*(v_01010) + (lam_4)*(v_01011))) + (lam_2)*((1-lam_3)*((1-lam_4)*(v_01100) + (lam_4)*(v_01101)) + (lam_3)*((1-lam_4)*(v_01110) + (lam_4)*(v_01111))))) + (lam_0)*((1-lam_1)*((1-lam_2)*((1-lam_3)*((1-lam_4)*(v_10000) + (lam_4)*(v_10001)) + (lam_3)*((1-lam_4)*(v_10010) + (lam_4)*(v_10011))) + (lam_2)*((1-lam_3)*((1-lam_4)*(v_10100) + (lam_4)*(v_10101)) + (lam_3)*((1-lam_4)*(v_10110) + (lam_4)*(v_10111)))) + (lam_1)*((1-lam_2)*((1-lam_3)*((1-lam_4)*(v_11000) + (lam_4)*(v_11001)) + (lam_3)*((1-lam_4)*(v_11010) + (lam_4)*(v_11011))) + (lam_2)*((1-lam_3)*((1-lam_4)*(v_11100) + (lam_4)*(v_11101)) + (lam_3)*((1-lam_4)*(v_11110) + (lam_4)*(v_11111)))))
-- 
2.43.0

