From d08c353269af1f05ce84feb883086c4ec4453b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:45 +0000
Subject: [PATCH 01/52] fix: Time must not shift the caller's array (or another
 Time) in place

---
 gridded/time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/time.py b/gridded/time.py
index 0893aec..3ef4386 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -308,7 +308,9 @@ class Time:
         if isinstance(data, self.__class__) or data.__class__ in self.__class__.__mro__:
             data = data.data
         # add check for valid datetime list?
-        self._data = np.asarray(data)
+        # copy: the time axis gets shifted in place (tz_offset, origin, displacement),
+        # which must not change the array (or Time object) that was passed in
+        self._data = np.array(data)
 
     @property
     def info(self):
-- 
2.43.0


From 6777987b19434fd4b6bce0305f3ef4bf4ebc526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:16 +0000
Subject: [PATCH 02/52] fix: S_Depth boundary levels for data on layers

surface_index/bottom_index count levels; with layer data the last index
points past the profile.
---
 gridded/depth.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridded/depth.py b/gridded/depth.py
index 749c4c5..e5250d4 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -679,6 +679,9 @@ class S_Depth(DepthBase):
                                                 data_shape=data_shape,
                                                 _hash=_hash,
                                                 extrapolate=extrapolate)
+        # surface_index and bottom_index count levels; data on layers has one entry fewer
+        surface_index = min(surface_index, depth_profiles.shape[1] - 1)
+        bottom_index = min(bottom_index, depth_profiles.shape[1] - 1)
 
         indices = np.ma.MaskedArray(
             data=-np.ones((len(points)), dtype=np.int64) * 1000, mask=np.zeros((len(points)), dtype=bool)
-- 
2.43.0


From ee8e21ca23cba7e23251f4ef9f24349bf3016e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:33 +0000
Subject: [PATCH 03/52] fix: depth interpolation of points on or beyond the
 first and last level

points on/below the last level used another level's points (or raised
UnboundLocalError/IndexError), points before the first level of layer data
were left NaN.
---
 gridded/variable.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 6e2c426..bf80d48 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -745,23 +745,23 @@ class Variable:
         uniq_idx = np.unique(d_indices)
         if np.ma.masked in uniq_idx:  # the [0:-1] is required to skip all masked indices
             uniq_idx = uniq_idx[0:-1]
-        if self.data.shape[dim_idx] == self.depth.num_layers:
+        num_z = self.data.shape[dim_idx]
+        if num_z == self.depth.num_layers:
             #data is located on cell centers, so value is held constant across cell.
             for idx in uniq_idx:
-                if idx == -1:
-                    #special case for out of bounds and extrapolation.
-                    idx = 0
                 lay_idxs = np.where(d_indices == idx)[0]
-                values.put(lay_idxs, val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs))
+                # points beyond the first or last level (extrapolation) use the end layer
+                lay = min(max(idx, 0), num_z - 1)
+                values.put(lay_idxs, val_func(points[lay_idxs], time, extrapolate, slices=slices + (lay,), **kwargs))
         else:
             #data is on cell edge, or on nodes, so we need to interpolate between the two levels.
             for idx in uniq_idx:
-                if idx == self.data.shape[dim_idx] - 1:
+                lay_idxs = np.where(d_indices == idx)[0]
+                if idx == num_z - 1:
                     # special case, index == depth dim length, so only v0 is valid
                     v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
                     values.put(lay_idxs, v0)
                     continue
-                lay_idxs = np.where(d_indices == idx)[0]
                 v1 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx + 1,), **kwargs)
                 v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
                 sub_vals = v0 + (v1 - v0) * d_alphas[lay_idxs]
-- 
2.43.0


From 13226527f8e0704affe77a9cec520c7c19dd8103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:33 +0000
Subject: [PATCH 04/52] fix: keep the depth index when interpolating time
 inside depth

at (or beyond) the first/last time the slices already chosen were dropped.
---
 gridded/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index bf80d48..ad8a994 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -680,9 +680,9 @@ class Variable:
 
         if time == self.time.min_time or (extrapolate and time < self.time.min_time):
             # min or before
-            return val_func(points, time, extrapolate, slices=(0,), **kwargs)
+            return val_func(points, time, extrapolate, slices=slices + (0,), **kwargs)
         elif time == self.time.max_time or (extrapolate and time > self.time.max_time):
-            return val_func(points, time, extrapolate, slices=(-1,), **kwargs)
+            return val_func(points, time, extrapolate, slices=slices + (-1,), **kwargs)
         else:
             ind = self.time.index_of(time)
             s1 = slices + (ind,)
-- 
2.43.0


From ff1357c2f2894abf71f3fec4b0ea605097a33e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:33 +0000
Subject: [PATCH 05/52] fix: VectorVariable.time can be set from an iterable
 (collections.Iterable is gone)

---
 gridded/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index ad8a994..abb9b7e 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1131,7 +1131,7 @@ class VectorVariable:
                     Original error: {str(e)}""")
         if isinstance(t, Time_class):
             self._time = t
-        elif isinstance(t, collections.Iterable) or isinstance(t, nc4.Variable):
+        elif isinstance(t, collections.abc.Iterable) or isinstance(t, nc4.Variable):
             self._time = Time_class(t)
         else:
             raise ValueError("Time must be set with an iterable container or netCDF variable")
-- 
2.43.0


From 0bee2bd5b190dedd44670f32601edadbd6e73d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:50 +0000
Subject: [PATCH 06/52] fix: VectorVariable default names: the first listed
 name wins

as documented for Variable; the last match in the list was used.
---
 gridded/variable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index abb9b7e..6c0d1cb 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1072,7 +1072,7 @@ class VectorVariable:
             for n in v:
                 if n in df.variables.keys():
                     rd[k] = n
-                    continue
+                    break
             if k not in rd.keys():
                 rd[k] = None
         for k in cls.comp_order:
@@ -1088,6 +1088,8 @@ class VectorVariable:
                         ):
                             rd[k] = var.name
                             break
+                    if rd[k] is not None:
+                        break
         return collections.namedtuple("varnames", cls.comp_order)(**rd)
 
     def __str__(self):
-- 
2.43.0


From ef52fcdcede470398f52130f28494c97af6d4261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:18 +0000
Subject: [PATCH 07/52] fix: surface-only depth works with Variable.at
 (num_levels/num_layers missing)

---
 gridded/depth.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gridded/depth.py b/gridded/depth.py
index e5250d4..2ccd27f 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -64,6 +64,15 @@ class DepthBase:
         # for the system being represented
         return self._bottom_index
 
+    @property
+    def num_levels(self):
+        # the base class only represents the surface
+        return 1
+
+    @property
+    def num_layers(self):
+        return 1
+
     def interpolation_alphas(
         self,
         points,
-- 
2.43.0


From 8112730eaee0ef04e011dc6911b0d5929d858328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:02 +0000
Subject: [PATCH 08/52] fix: Variable/VectorVariable result cache must not
 change answers

the cache key ignored extrapolate, unmask, units, the boundary conditions and
the shape of the points; replacing the data or time kept old results; the
returned (cached) masked array could be altered by the caller.
---
 gridded/variable.py | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 6c0d1cb..64170c3 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -39,6 +39,9 @@ class Variable:
     cf_names = []
     _instance_count = 0
 
+    # counts changes of the data and time, see _forget_results
+    _revision = 0
+
     _default_component_types = {"time": Time, "grid": Grid, "depth": Depth}
 
     def __init__(
@@ -117,7 +120,6 @@ class Variable:
         self.filename = data_file
         self.grid_file = grid_file
         self.varname = varname
-        self._result_memo = collections.OrderedDict()
         self.fill_value = fill_value
 
         self.attributes = {} if attributes is None else attributes
@@ -359,6 +361,7 @@ class Variable:
     @time.setter
     def time(self, t):
         Time_class = self.__class__._default_component_types["time"]
+        self._forget_results()
         if t is None:
             self._time = None
             return
@@ -391,6 +394,12 @@ class Variable:
                     f"Grid shape is {self.grid.node_lon.shape}"
                 )
         self._data = d
+        self._forget_results()
+
+    def _forget_results(self):
+        # results computed from the previous data or time are no longer valid
+        self._result_memo = collections.OrderedDict()
+        self._revision += 1
 
     @property
     def units(self):
@@ -602,8 +611,19 @@ class Variable:
         if _hash is None:
             _hash = self._get_hash(pts, time)
 
+        # everything that changes the answer is part of the key
+        memo_key = (
+            _hash,
+            pts.shape,
+            units,
+            bool(extrapolate),
+            bool(unmask),
+            self.surface_boundary_condition,
+            self.bottom_boundary_condition,
+            repr(sorted(kwargs.items())),
+        )
         if _mem:
-            res = self._get_memoed(pts, time, self._result_memo, _hash=_hash)
+            res = self._get_memoed(pts, time, self._result_memo, _copy=True, _hash=memo_key)
             if res is not None:
                 return res
 
@@ -623,7 +643,7 @@ class Variable:
             value = np.ma.filled(value)
 
         if _mem:
-            self._memoize_result(pts, time, value, self._result_memo, _hash=_hash)
+            self._memoize_result(pts, time, value, self._result_memo, _copy=True, _hash=memo_key)
         return value
 
     interpolate = at  # common request
@@ -1270,8 +1290,22 @@ class VectorVariable:
         if _hash is None:
             _hash = self._get_hash(pts, time)
 
+        # everything that changes the answer is part of the key
+        memo_key = (
+            _hash,
+            pts.shape,
+            units,
+            bool(extrapolate),
+            bool(unmask),
+            tuple(
+                getattr(v, attr, None)
+                for v in self.variables
+                for attr in ("surface_boundary_condition", "bottom_boundary_condition", "_revision")
+            ),
+            repr(sorted(kwargs.items())),
+        )
         if _mem:
-            res = self._get_memoed(pts, time, self._result_memo, _hash=_hash)
+            res = self._get_memoed(pts, time, self._result_memo, _hash=memo_key)
             if res is not None:
                 return res
 
@@ -1292,7 +1326,7 @@ class VectorVariable:
         )
 
         if _mem:
-            self._memoize_result(pts, time, value, self._result_memo, _hash=_hash)
+            self._memoize_result(pts, time, value, self._result_memo, _hash=memo_key)
 
         return value
 
-- 
2.43.0


From 11622e2b4c1d83ec44d14e12cc94f3c07c8d5ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:44 +0000
Subject: [PATCH 09/52] fix: UGrid.locate_faces of a single point: repeatable,
 and leaves the point alone

a repeated query returned an array instead of an index, the caller's array was
reshaped in place, and index_of passed an argument locate_faces does not have.
---
 gridded/pyugrid/ugrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 964cd28..93e0d50 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -610,14 +610,14 @@ class UGrid:
         """
         points = np.asarray(points, dtype=np.float64)
         just_one = points.ndim == 1
-        points.shape = (-1, 2)
+        points = points.reshape(-1, 2)
 
         if _memo:
             if _hash is None:
                 _hash = self._hash_of_pts(points)
             result = self._get_memoed(points, self._ind_memo_dict, _copy, _hash)
             if result is not None:
-                return result
+                return result[0] if just_one else result
 
         if method == "celltree":
             try:
@@ -652,7 +652,7 @@ class UGrid:
             return indices
 
     def index_of(self, points, method="celltree", _memo=False, _copy=False, _hash=None, use_mask=True):
-        return self.locate_faces(points=points, method=method, _memo=_memo, _copy=_copy, _hash=_hash, use_mask=use_mask)
+        return self.locate_faces(points=points, method=method, _memo=_memo, _copy=_copy, _hash=_hash)
 
     def build_celltree(self):
         """
-- 
2.43.0


From e4f7e7a3e86191a5c5bc150706c77493141405d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:44 +0000
Subject: [PATCH 10/52] fix: UGrid forgets its search trees and cached lookups
 when nodes or faces are replaced

---
 gridded/pyugrid/ugrid.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 93e0d50..47c54ce 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -283,11 +283,22 @@ class UGrid:
             self.nodes = np.zeros((0, 2), dtype=NODE_DT)
         else:
             self._nodes = np.asanyarray(nodes_coords, dtype=NODE_DT)
+        self._clear_search_structures()
+
+    def _clear_search_structures(self):
+        """
+        forget everything that was built from the previous nodes and faces
+        """
+        self._kdtree = None
+        self._cell_tree = None
+        self._ind_memo_dict = OrderedDict()
+        self._alpha_memo_dict = OrderedDict()
 
     @nodes.deleter
     def nodes(self):
         # If there are no nodes, there can't be anything else.
         self._nodes = np.zeros((0, 2), dtype=NODE_DT)
+        self._clear_search_structures()
         self._edges = None
         self._faces = None
         self._boundaries = None
@@ -301,6 +312,7 @@ class UGrid:
         # Room here to do consistency checking, etc.
         if self._nodes is None:
             raise ValueError("Nodes must be defined before faces")
+        self._clear_search_structures()
         if faces_indexes is not None:
             faces_indexes = np.asanyarray(faces_indexes, dtype=IND_DT)
             if faces_indexes.max() > len(self.nodes):
@@ -332,7 +344,7 @@ class UGrid:
     @faces.deleter
     def faces(self):
         self._faces = None
-        self._faces = None
+        self._clear_search_structures()
         # Other things are no longer valid.
         self._face_face_connectivity = None
         self._face_edge_connectivity = None
-- 
2.43.0


From ac54f97ea308c5d051089e5490335fecda1d7175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:01 +0000
Subject: [PATCH 11/52] fix: UGrid must not renumber the caller's one-based
 faces array in place

---
 gridded/pyugrid/ugrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 47c54ce..de84f9c 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -324,6 +324,7 @@ class UGrid:
                 # faces index maximum equal to number of nodes, so we need to decrement by 1
                 # but only if the minimum is also gte 1
                 if faces_indexes.min() >= 1:
+                    faces_indexes = faces_indexes.copy()  # the array may be the caller's
                     faces_indexes[faces_indexes > 0] -= 1
                     warnings.warn("faces index maximum equal to number of nodes, automatic decrement by 1 applied")
                 else:
-- 
2.43.0


From 7dacff2d00901294cb4c29aeb1ba7c92ab76d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:01 +0000
Subject: [PATCH 12/52] fix: UGrid interpolation off the grid is zero whatever
 the last face holds

NaN or masked data on the last face leaked to the points off the grid.
---
 gridded/pyugrid/ugrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index de84f9c..9a48307 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -716,7 +716,7 @@ class UGrid:
         alpha2s = (reflons - lon1) * (lat3 - lat1) - (reflats - lat1) * (lon3 - lon1)
         alpha3s = (reflats - lat1) * (lon2 - lon1) - (reflons - lon1) * (lat2 - lat1)
         alphas = np.column_stack((alpha1s / denoms, alpha2s / denoms, alpha3s / denoms))
-        alphas[indices == -1] *= 0
+        alphas[indices == -1] = 0
 
         if _memo:
             self._add_memo(points, alphas, self._alpha_memo_dict, _copy, _hash)
@@ -797,7 +797,7 @@ class UGrid:
         inds = self.locate_faces(points, "celltree", _copy, _memo, _hash)
         if location == "face":
             vals = variable[inds]
-            vals[inds == -1] = vals[inds == -1] * 0
+            vals[inds == -1] = 0
             return vals
         #             raise NotImplementedError("Currently does not support interpolation of a "
         #                                       "variable defined on the faces")
@@ -806,7 +806,7 @@ class UGrid:
             vals = variable.take(self.faces[inds], axis=0)
             if len(vals.shape) == (len(pos_alphas.shape) + 1):
                 pos_alphas = pos_alphas[:, :, np.newaxis]
-            vals[inds == -1] = vals[inds == -1] * 0
+            vals[inds == -1] = 0
             return np.sum(vals * pos_alphas, axis=1)
         return None
 
-- 
2.43.0


From d4e65e200b9500c75330c544e606fc2a2df7efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:01 +0000
Subject: [PATCH 13/52] fix: UGrid.interpolate_var_to_points accepts a plain
 array without a location

---
 gridded/pyugrid/ugrid.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 9a48307..3fd2ad4 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -783,7 +783,6 @@ class UGrid:
         # (for compatibility with old code)
         if location is None:
             location = self.infer_location(variable)
-            variable.location = location
         if location is None:
             raise ValueError("Data is incompatible with grid nodes or faces")
 
-- 
2.43.0


From c069c64d22cdb71b76d9d2af0ea2fad123893377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:21 +0000
Subject: [PATCH 14/52] fix: order_boundary_segments extends an open boundary
 at its start

---
 gridded/io/verdat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/io/verdat.py b/gridded/io/verdat.py
index e215f17..b598fd1 100644
--- a/gridded/io/verdat.py
+++ b/gridded/io/verdat.py
@@ -175,7 +175,7 @@ def order_boundary_segments(bound_segs):
                     bound.append(p0)
                     bound_segs.pop(i)
                 elif p0 == bound[0]:
-                    bound.insert(p1)
+                    bound.insert(0, p1)
                     bound_segs.pop(i)
                 elif p1 == bound[0]:
                     bound.insert(0, p0)
-- 
2.43.0


From d776cdc1941cc90608e7999c766f08f96dba5b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:22 +0000
Subject: [PATCH 15/52] fix: point_in_tri for clockwise triangles (every point
 was inside)

---
 gridded/pyugrid/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pyugrid/util.py b/gridded/pyugrid/util.py
index 16c2c8c..10f2938 100644
--- a/gridded/pyugrid/util.py
+++ b/gridded/pyugrid/util.py
@@ -21,7 +21,7 @@ def point_in_tri(face_points, point, return_weights=False):
     sub_tri_areas[0] = _signed_area_tri(np.vstack((face_points[(0, 1), :], point)))
     sub_tri_areas[1] = _signed_area_tri(np.vstack((face_points[(1, 2), :], point)))
     sub_tri_areas[2] = _signed_area_tri(np.vstack((face_points[(0, 2), :], point)))
-    tri_area = _signed_area_tri(face_points)
+    tri_area = abs(_signed_area_tri(face_points))
 
     if abs(np.abs(sub_tri_areas).sum() - tri_area) / tri_area <= epsilon:
         if return_weights:
-- 
2.43.0


From d7fa4ffa44db53baa5928d4085a7978085d1a09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:17 +0000
Subject: [PATCH 16/52] fix: UGRID files of three faces or two edges are not
 transposed on loading

the face_dimension/edge_dimension attributes of the convention are written and
honoured; without them a square connectivity array is taken as it is.
---
 gridded/pyugrid/read_netcdf.py | 14 ++++++++++++--
 gridded/pyugrid/ugrid.py       |  2 ++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 27dbe0c..1180929 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -65,21 +65,25 @@ grid_defs = [
     {
         "grid_attr": "faces",  # Name in UGrid object.
         "role": "face_node_connectivity",  # Name in mesh variable.
+        "dimension_attr": "face_dimension",  # Attribute naming the dimension of the elements.
         "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
     },
     {
         "grid_attr": "face_face_connectivity",  # Name in UGrid object.
         "role": "face_face_connectivity",  # Name in mesh variable.
+        "dimension_attr": "face_dimension",
         "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
     },
     {
         "grid_attr": "boundaries",  # Name in UGrid object.
         "role": "boundary_node_connectivity",  # Name in mesh var.
+        "dimension_attr": "boundary_dimension",
         "num_ind": 2,  # Number of idx (3 for faces, 2 for segments).
     },
     {
         "grid_attr": "edges",  # Name in UGrid object.
         "role": "edge_node_connectivity",  # Name in mesh variable.
+        "dimension_attr": "edge_dimension",
         "num_ind": 2,  # Number of idx (3 for faces, 2 for segments).
     },
 ]
@@ -214,8 +218,14 @@ def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
                 continue
             array = var[:, :]
             # Fortran order, instead of C order, transpose the array
-            # logic below will fail for 3 node or two edge grids.
-            if array.shape[0] == defs["num_ind"]:
+            # The mesh variable can name the dimension that counts the elements,
+            # otherwise guess from the shape.
+            element_dim = getattr(mesh_var, defs["dimension_attr"], None)
+            if element_dim in var.dimensions:
+                fortran_order = var.dimensions[0] != element_dim
+            else:
+                fortran_order = array.shape[0] == defs["num_ind"] != array.shape[1]
+            if fortran_order:
                 array = array.T
             try:
                 start_index = int(var.start_index)
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 3fd2ad4..c7b1a1d 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1049,12 +1049,14 @@ class UGrid:
         if self._edges is not None:
             # Attribute required if variables will be defined on edges.
             mesh.edge_node_connectivity = mesh_name + "_edge_nodes"
+            mesh.edge_dimension = mesh_name + "_num_edge"
             if self.edge_coordinates is not None:
                 # Optional attribute (requires edge_node_connectivity).
                 coord = "{0}_edge_lon {0}_edge_lat".format
                 mesh.edge_coordinates = coord(mesh_name)
         if self._faces is not None:
             mesh.face_node_connectivity = mesh_name + "_face_nodes"
+            mesh.face_dimension = mesh_name + "_num_face"
             if self.face_coordinates is not None:
                 # Optional attribute.
                 coord = "{0}_face_lon {0}_face_lat".format
-- 
2.43.0


From 0abb45af7a519c570d3c395db0acb04fed2c2868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:17 +0000
Subject: [PATCH 17/52] fix: saved UGRID files name their boundary coordinates,
 so that they load again

---
 gridded/pyugrid/ugrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index c7b1a1d..8864cab 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1069,6 +1069,9 @@ class UGrid:
             mesh.face_face_connectivity = mesh_name + "_face_links"
         if self._boundaries is not None:
             mesh.boundary_node_connectivity = mesh_name + "_boundary_nodes"
+            if self.boundary_coordinates is not None:
+                coord = "{0}_boundary_lon {0}_boundary_lat".format
+                mesh.boundary_coordinates = coord(mesh_name)
 
         # FIXME: This could be re-factored to be more generic, rather than
         # separate for each type of data see the coordinates example below.
-- 
2.43.0


From 65e64929a00b536278bdbe07451e4d5dd09a6c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:36 +0000
Subject: [PATCH 18/52] fix: UGRID files contain the face connectivity
 variables that the mesh names

---
 gridded/pyugrid/ugrid.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 8864cab..443de1f 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1114,6 +1114,21 @@ class UGrid:
             boundary_nodes.long_name = "Maps every boundary segment to the two nodes that it connects."
             boundary_nodes.start_index = IND_DT(0)
 
+        # Optional connectivity of the faces.
+        for role, name, array in (
+            ("face_face_connectivity", mesh_name + "_face_links", self.face_face_connectivity),
+            ("face_edge_connectivity", mesh_name + "_face_edges", self.face_edge_connectivity),
+        ):
+            if array is not None:
+                face_conn = nclocal.createVariable(
+                    name,
+                    IND_DT,
+                    (mesh_name + "_num_face", mesh_name + "_num_vertices"),
+                )
+                face_conn[:] = array
+                face_conn.cf_role = role
+                face_conn.start_index = IND_DT(0)
+
         # Optional "coordinate variables."
         for location in ["face", "edge", "boundary"]:
             loc = f"{location}_coordinates"
-- 
2.43.0


From 7ad6cfdfda77c8d79c6151162c04aca70b047d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:04 +0000
Subject: [PATCH 19/52] fix: SGrid.interpolate_var_to_points without slices (or
 with a list of slices)

as in the docstring's examples; None added an axis to the data.
---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 381623f..9d41eb0 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1139,7 +1139,7 @@ class SGrid:
         # else:
         #     slices = (xslice, yslice)
         zero_aligned_idxs = idxs#.copy() - [xslice.start, yslice.start]
-        var = variable[slices]
+        var = variable[:] if slices is None else variable[tuple(slices)]
         if len(var.shape) > 2:
             raise ValueError(
                 "Variable has too many dimensions to \
-- 
2.43.0


From 065972ed04987ac7c31deb2f21013bc653af0cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:04 +0000
Subject: [PATCH 20/52] fix: SGrid logical coordinates in rotated, transposed
 and sheared cells

l was 0/0 when the longitude does not change along a row, the quadratic formula
lost all precision for (nearly) parallel edges, and rounding on a cell's edge
selected the wrong solution.
---
 gridded/pysgrid/sgrid.py | 68 +++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 39 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 9d41eb0..de7ae6b 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1293,53 +1293,43 @@ class SGrid:
         (l,m) - coordinate in logical space to use for interpolation
 
         Eqns:
-        m = (-bb +- sqrt(bb^2 - 4*aa*cc))/(2*aa)
-        l = (l-a1 - a3*m)/(a2 + a4*m)
-        """
-
-        def quad_eqn(l, m, t, aa, bb, cc):
-            """
-            solves the following eqns for m and l
-            m = (-bb +- sqrt(bb^2 - 4*aa*cc))/(2*aa)
-            l = (l-a1 - a3*m)/(a2 + a4*m)
-            """
-            if len(aa) == 0:
-                return
-            k = bb * bb - 4 * aa * cc
-            k = np.ma.masked_less(k, 0)
-
-            det = np.ma.sqrt(k)
-            m1 = (-bb - det) / (2 * aa)
-            l1 = (x[t] - a[0][t] - a[2][t] * m1) / (a[1][t] + a[3][t] * m1)
-
-            m2 = (-bb + det) / (2 * aa)
-            l2 = (x[t] - a[0][t] - a[2][t] * m2) / (a[1][t] + a[3][t] * m2)
+        x = a0 + a1*l + a2*m + a3*l*m
+        y = b0 + b1*l + b2*m + b3*l*m
 
-            t1 = np.logical_or(l1 < 0, l1 > 1)
-            t2 = np.logical_or(m1 < 0, m1 > 1)
-            t3 = np.logical_or(t1, t2)
-
-            m[t] = np.choose(t3, (m1, m2))
-            l[t] = np.choose(t3, (l1, l2))
+        Eliminating l gives aa*m^2 + bb*m + cc = 0. Of its two solutions, the one
+        that is in (or closest to) the cell, i.e. the unit square, is returned.
+        """
 
         a = a.T
         b = b.T
         aa = a[3] * b[2] - a[2] * b[3]
         bb = a[3] * b[0] - a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + x * b[3] - y * a[3]
         cc = a[1] * b[0] - a[0] * b[1] + x * b[1] - y * a[1]
-        m = np.zeros(bb.shape)
-        l = np.zeros(bb.shape)
-
-        t = aa[:] == 0
-
-        # Attempts to solve the simpler linear case first.
-        with np.errstate(invalid="ignore"):
-            m[t] = -cc[t] / bb[t]
-            l[t] = (x[t] - a[0][t] - a[2][t] * m[t]) / (a[1][t] + a[3][t] * m[t])
-        # now solve the quadratic cases
-        quad_eqn(l, m, ~t, aa[~t], bb[~t], cc[~t])
 
-        return (l, m)
+        def l_of_m(m):
+            # either equation gives l: use the one that is better conditioned
+            den_x = a[1] + a[3] * m
+            den_y = b[1] + b[3] * m
+            use_x = np.abs(den_x) >= np.abs(den_y)
+            num = np.where(use_x, x - a[0] - a[2] * m, y - b[0] - b[2] * m)
+            return num / np.where(use_x, den_x, den_y)
+
+        def distance_to_cell(l, m):
+            d = np.maximum(np.abs(l - 0.5), np.abs(m - 0.5))
+            return np.where(np.isnan(d), np.inf, np.maximum(d - 0.5, 0))
+
+        with np.errstate(invalid="ignore", divide="ignore", over="ignore"):
+            # The usual formula for one solution and cc for the other: no cancellation
+            # when aa is (close to) zero, which is the case for parallelograms.
+            det = np.sqrt(np.maximum(bb * bb - 4 * aa * cc, 0))
+            q = -0.5 * np.where(bb < 0, bb - det, bb + det)
+            m1 = q / aa
+            m2 = cc / q
+            l1 = l_of_m(m1)
+            l2 = l_of_m(m2)
+            first = distance_to_cell(l1, m1) < distance_to_cell(l2, m2)
+
+        return (np.where(first, l1, l2), np.where(first, m1, m2))
 
 
 class SGridAttributes:
-- 
2.43.0


From a0c631c20b57c2bbf93a5e7f0371cdea41e76135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:34 +0000
Subject: [PATCH 21/52] fix: SGrid.compute_interpolant masks the points that
 have masked values

the mask was laid out by columns but applied by rows, so other points were masked;
'mirror' counted the points instead of the values per point.
---
 gridded/pysgrid/sgrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index de7ae6b..2bd2119 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1009,7 +1009,7 @@ class SGrid:
         if mask_behavior is None:
             mask_behavior = self.masked_interpolant_behavior
 
-        if mask_behavior == "mirror" and len(values) > 2:
+        if mask_behavior == "mirror" and values.shape[-1] > 2:
             raise ValueError("Mirror behavior is not implemented for more than two values")
 
         if mask_behavior == "zero":
@@ -1017,8 +1017,8 @@ class SGrid:
         elif mask_behavior == "mirror":
             filled_values = self.mirror_mask_values(values)
         elif mask_behavior == "mask":
-            filled_values = values.copy()
-            filled_values.mask = np.tile(np.any(values.mask, axis=-1), 2)
+            any_masked = np.any(np.ma.getmaskarray(values), axis=-1, keepdims=True)
+            filled_values = np.ma.MaskedArray(values, mask=np.broadcast_to(any_masked, values.shape), copy=True)
         else:
             raise ValueError(f"unrecognized mask_behavior: {mask_behavior}")
 
-- 
2.43.0


From ecab91bcfbe454848d77bc10c63522f4a772d589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:34 +0000
Subject: [PATCH 22/52] fix: SGrid.interpolate_var_to_points accepts
 precomputed alphas, as documented

---
 gridded/pysgrid/sgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 2bd2119..a3faaf2 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1122,7 +1122,8 @@ class SGrid:
 
         if alphas is None:
             # Better name for this would be per_cell_logical_offset
-            alphas = per_cell_log_offset = logical_coords - ind
+            alphas = logical_coords - ind
+        per_cell_log_offset = alphas.copy()  # changed below
 
         if padding is None:
             padding = self.get_padding_by_location(location)
-- 
2.43.0


From 66fd32d6bfb038bef550412751db3e540b7da417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:34 +0000
Subject: [PATCH 23/52] fix: SGrid: unmask when every point is off the grid;
 build the nearest-neighbour tree on first use

---
 gridded/pysgrid/sgrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index a3faaf2..1ae029a 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -678,7 +678,7 @@ class SGrid:
         points = np.asarray(points, dtype=np.float64)
         points = points.reshape(-1, 2)
 
-        if self._kd_trees[grid] is None:
+        if self._kd_trees.get(grid) is None:
             self.build_kdtree(grid)
         tree = self._kd_trees[grid]
         lin_indices = np.array(tree.query(points))[1].astype(np.int32)
@@ -1113,7 +1113,8 @@ class SGrid:
             # ind has to be writable
             ind = self.locate_faces(points, _memo, _copy, _hash)
             if (ind.mask).all():
-                return np.ma.masked_all((points.shape[0], 1))
+                result = np.ma.masked_all((points.shape[0], 1))
+                return result.filled(fill_value) if unmask else result
 
         if self._l_coeffs is None:
             self._compute_transform_coeffs()
-- 
2.43.0


From 9bde431bf5c44ac1f2cfd7ddf848dbfe2632bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:04 +0000
Subject: [PATCH 24/52] fix: S_Depth.interpolation_alphas with plain (unmasked)
 depth profiles

---
 gridded/depth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 2ccd27f..5928857 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -710,8 +710,10 @@ class S_Depth(DepthBase):
 
         # depth_profile mask is True where the point is outside the grid horizontally
         # so it must be reapplied
-        indices = np.ma.array(indices, mask=depth_profiles.mask[:, 0].copy())
-        alphas.mask = depth_profiles.mask[:, 0].copy()
+        # (it may be absent altogether: the terms can be plain numpy arrays)
+        off_grid = np.ma.getmaskarray(depth_profiles)[:, 0]
+        indices = np.ma.array(indices, mask=off_grid.copy())
+        alphas.mask = off_grid.copy()
         indices, alphas, oob_mask = self._apply_boundary_conditions(
             indices, alphas, surface_index, bottom_index, surface_boundary_condition, bottom_boundary_condition
         )
-- 
2.43.0


From 80abac42e0caea2a586734597e568a098db9493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:11 +0000
Subject: [PATCH 25/52] fix: depth interpolation of cell-centered data mixed up
 the points

---
 gridded/variable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/variable.py b/gridded/variable.py
index 64170c3..7550691 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -784,6 +784,8 @@ class Variable:
                     continue
                 v1 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx + 1,), **kwargs)
                 v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
+                # one value per point (data on cell centers comes back as a column)
+                v0, v1 = v0.reshape(-1), v1.reshape(-1)
                 sub_vals = v0 + (v1 - v0) * d_alphas[lay_idxs]
                 # partially fill the values array for this layer
                 values.put(lay_idxs, sub_vals)
-- 
2.43.0


From 914c4740ac2f6dbd247ae40e5cfb8236f9c76b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:53 +0000
Subject: [PATCH 26/52] fix: cell tree lookups lost some points inside the grid

---
 gridded/pysgrid/sgrid.py | 3 ++-
 gridded/pyugrid/ugrid.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 1ae029a..19986b9 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -908,7 +908,8 @@ class SGrid:
         else:
             lin_nodes = np.ascontiguousarray(np.stack((lon, lat), axis=-1).reshape(-1, 2).astype(np.float64))
 
-        self._cell_tree = (CellTree(lin_nodes, lin_faces), lin_nodes, lin_faces)
+        # with its default of four buckets the tree misses some points of the grid
+        self._cell_tree = (CellTree(lin_nodes, lin_faces, num_buckets=2), lin_nodes, lin_faces)
 
     def nearest_var_to_points(
         self,
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 443de1f..5cdd302 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -676,7 +676,8 @@ class UGrid:
 
         if self.nodes is None or self.faces is None:
             raise ValueError("Nodes and faces must be defined in order to create and use CellTree")
-        self._cell_tree = CellTree(self.nodes, self.faces)
+        # with its default of four buckets the tree misses some points of the grid
+        self._cell_tree = CellTree(self.nodes, self.faces, num_buckets=2)
 
     def interpolation_alphas(self, points, indices=None, _copy=False, _memo=True, _hash=None):
         """
-- 
2.43.0


From 190ff876702b3c1c30f73f1dc8a5f1a2666a4557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:09 +0000
Subject: [PATCH 27/52] fix: Grid_R interpolation of masked and netCDF data
 when no slices are given

---
 gridded/grids.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 8c36d60..68ff08a 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -405,10 +405,9 @@ class Grid_R(GridBase):
         points_x = points[:, 0]  # lon
         y, x = self.lonlat_to_yx(variable)
 
-        if slices is not None:
-            variable = variable[slices]
-            if np.ma.isMA(variable):
-                variable = variable.filled(0)  # eventually should use Variable fill value
+        variable = variable[...] if slices is None else variable[slices]
+        if np.ma.isMA(variable):
+            variable = variable.filled(0)  # eventually should use Variable fill value
 
         # idx_y = np.digitize(points_y, y) - 1
         # idx_x = np.digitize(points_x, x) - 1
-- 
2.43.0


From 5e4d128b48611599eedd2d9bc4a781e5a76ddaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:29 +0000
Subject: [PATCH 28/52] fix: Grid_R interpolation when longitudes and latitudes
 are the same array

---
 gridded/grids.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 68ff08a..f2429ed 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -404,6 +404,10 @@ class Grid_R(GridBase):
         points_y = points[:, 1]  # lat
         points_x = points[:, 0]  # lon
         y, x = self.lonlat_to_yx(variable)
+        lon_first = y is self.node_lon
+        if x is y:
+            # longitudes and latitudes are the same array: only the dimensions tell them apart
+            lon_first = variable.dimensions[-2] == self.dimensions[1]
 
         variable = variable[...] if slices is None else variable[slices]
         if np.ma.isMA(variable):
@@ -430,7 +434,7 @@ class Grid_R(GridBase):
         #     return iv
 
         interp_func = RegularGridInterpolator((y, x), variable, method=method, bounds_error=False, fill_value=0)
-        if y is self.node_lon:
+        if lon_first:
             vals = interp_func(points, method=method)
         else:
             vals = interp_func(points[:, ::-1], method=method)
-- 
2.43.0


From 797d8dfae35d06125cdac067a12098cd9ac5897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:35 +0000
Subject: [PATCH 29/52] fix: Grid_R.infer_location raised AttributeError for
 shapes that fit no location

---
 gridded/grids.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index f2429ed..4236a4f 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -461,10 +461,6 @@ class Grid_R(GridBase):
         difference = (var_shape - node_shape).tolist()
         if (difference == [1, 1] or difference == [-1, -1]) and self.center_lon is not None:
             return "center"
-        elif difference == [1, 0] and self.edge1_lon is not None:
-            return "edge1"
-        elif difference == [0, 1] and self.edge2_lon is not None:
-            return "edge2"
         elif difference == [0, 0] and self.node_lon is not None:
             return "node"
         else:
-- 
2.43.0


From ed3400fab7d6e49ef4ad05b059208705c10fb013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:49 +0000
Subject: [PATCH 30/52] fix: SGrid cell lookup with a node mask only, or with a
 center mask without land

---
 gridded/pysgrid/sgrid.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 19986b9..18d36f3 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -14,7 +14,7 @@ from netCDF4 import Dataset
 from gridded.pysgrid.read_netcdf import NetCDFDataset, find_grid_topology_var, parse_padding
 from gridded.pysgrid.utils import GridPadding, calculate_angle_from_true_east, pair_arrays
 from gridded.pysgrid.variables import SGridVariable
-from gridded.utilities import gen_celltree_mask_from_center_mask
+from gridded.utilities import convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask
 
 node_alternate_names = ["node", "nodes", "psi", "vertex", "vertices", "point", "points"]
 center_alternate_names = ["center", "centers", "face", "faces", "cell", "cells"]
@@ -832,17 +832,17 @@ class SGrid:
         if lon is None or lat is None:
             raise ValueError("node_lon and node_lat must be defined in order to create and use CellTree for this grid")
 
-        if use_mask and (
-            (self.node_mask is not None and self.node_mask is not False)
-            or (self.center_mask is not None and self.center_mask is not False)
-        ):
-            if np.any(self.center_mask):
-                cell_mask = gen_celltree_mask_from_center_mask(
-                    self.center_mask, self.get_padding_slices(self.center_padding)
-                )
-            else:
-                pass
+        cell_mask = None
+        if use_mask and self.center_mask is not None and self.center_mask is not False:
+            cell_mask = gen_celltree_mask_from_center_mask(
+                self.center_mask, self.get_padding_slices(self.center_padding)
+            )
+        elif use_mask and self.node_mask is not None and self.node_mask is not False:
+            # removing a node removes all adjacent cells
+            nm = convert_mask_to_numpy_mask(self.node_mask)
+            cell_mask = nm[:-1, :-1] | nm[:-1, 1:] | nm[1:, 1:] | nm[1:, :-1]
 
+        if cell_mask is not None:
             lin_faces = np.empty(shape=(lon[1::, 1::].size, 4))
             if lin_faces.shape[0] != cell_mask.size:
                 raise ValueError(
-- 
2.43.0


From 36de5d8d9dcc517ef43ff475ca87a022a6468e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:30 +0000
Subject: [PATCH 31/52] fix: SGrid cell lookup with masked node coordinates
 (crashed or found wrong cells)

---
 gridded/pysgrid/sgrid.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 18d36f3..eb32e22 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -842,6 +842,12 @@ class SGrid:
             nm = convert_mask_to_numpy_mask(self.node_mask)
             cell_mask = nm[:-1, :-1] | nm[:-1, 1:] | nm[1:, 1:] | nm[1:, :-1]
 
+        nm = np.ma.getmaskarray(lon[:]) | np.ma.getmaskarray(lat[:])
+        if nm.any():
+            # cells with missing node coordinates can not be searched
+            nm = nm[:-1, :-1] | nm[:-1, 1:] | nm[1:, 1:] | nm[1:, :-1]
+            cell_mask = nm if cell_mask is None else cell_mask.reshape(nm.shape) | nm
+
         if cell_mask is not None:
             lin_faces = np.empty(shape=(lon[1::, 1::].size, 4))
             if lin_faces.shape[0] != cell_mask.size:
@@ -901,7 +907,7 @@ class SGrid:
             )
         lin_faces = np.ascontiguousarray(lin_faces.reshape(-1, 4).astype(np.int32))
 
-        if isinstance(lon, np.ma.MaskedArray) and lon.mask is not False and use_mask:
+        if self._cell_tree_mask is not None:
             lin_nodes = np.ascontiguousarray(
                 np.column_stack((np.ma.compressed(lon[:]), np.ma.compressed(lat[:]))).reshape(-1, 2).astype(np.float64)
             )
-- 
2.43.0


From 6c1f487f39c43eceabf3e864b1af336ecbd98a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 32/52] fix: clear the connectivity of a UGrid when its faces
 are replaced

build_boundaries uses face_face_connectivity if it is there, so after new
faces were assigned it returned the boundary of the old ones.
---
 gridded/pyugrid/ugrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 5cdd302..6b816b3 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -338,9 +338,9 @@ class UGrid:
 
         else:
             self._faces = None
-            # Other things are no longer valid.
-            self._face_face_connectivity = None
-            self._face_edge_connectivity = None
+        # Other things are no longer valid.
+        self._face_face_connectivity = None
+        self._face_edge_connectivity = None
 
     @faces.deleter
     def faces(self):
-- 
2.43.0


From ec264839f7de7d9eebb19f6f0f8e619b9bfa7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 33/52] fix: load the face-edge connectivity of a UGRID file

It was saved (and named by the mesh variable) but ignored on loading.
---
 gridded/pyugrid/read_netcdf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 1180929..6f2a397 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -74,6 +74,12 @@ grid_defs = [
         "dimension_attr": "face_dimension",
         "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
     },
+    {
+        "grid_attr": "face_edge_connectivity",  # Name in UGrid object.
+        "role": "face_edge_connectivity",  # Name in mesh variable.
+        "dimension_attr": "face_dimension",
+        "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
+    },
     {
         "grid_attr": "boundaries",  # Name in UGrid object.
         "role": "boundary_node_connectivity",  # Name in mesh var.
-- 
2.43.0


From 4e24ac43fb3dd41120460600aca08ffb6ee41b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 34/52] fix: do not guess the index base of face numbers from
 the number of nodes

A UGRID file without start_index got all face-face connectivity entries
decremented (including the flag value) when its highest face number was
the number of nodes.
---
 gridded/pyugrid/read_netcdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 6f2a397..c7acfcc 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -236,7 +236,8 @@ def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
             try:
                 start_index = int(var.start_index)
             except AttributeError:
-                if array.max() == grid.nodes.shape[0]:
+                # Only an array of node numbers can be compared with the number of nodes.
+                if defs["role"].endswith("node_connectivity") and array.max() == grid.nodes.shape[0]:
                     start_index = 1
                 else:
                     start_index = 0
-- 
2.43.0


From 3cf8c7f67684d2198b2839e0e7eb89913b71acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 35/52] fix: grid_topology finds the variables it names

Names with capitals were not found (the variables are looked up in lower
case), and composite node coordinates were looked up under the name of
the attribute instead of the variable.
---
 gridded/grids.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 4236a4f..8b72bd9 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -78,9 +78,9 @@ class GridBase:
         else:
             for n, v in grid_topology.items():
                 if n in node_attrs:
-                    init_args[n] = gf_vars[v][:]
+                    init_args[n] = gf_vars[v.lower()][:]
                 if n in composite_node_names:
-                    v = gf_vars[n][:].reshape(-1, 2)
+                    v = gf_vars[v.lower()][:].reshape(-1, 2)
                     init_args[node_attrs[0]] = v[:, 0]
                     init_args[node_attrs[1]] = v[:, 1]
             gt = grid_topology
@@ -136,7 +136,7 @@ class Grid_U(GridBase, UGrid):
         else:
             for n, v in grid_topology.items():
                 if n in face_attrs:
-                    init_args[n] = gf_vars[v][:]
+                    init_args[n] = gf_vars[v.lower()][:]
                     break
             gt = grid_topology
         # fixme: This is assuming that the array will be in Fortran order and index
@@ -224,11 +224,11 @@ class Grid_S(GridBase, SGrid):
 
         else:
             for n, v in grid_topology.items():
-                if n in center_attrs + edge1_attrs + edge2_attrs and v in gf_vars:
-                    init_args[n] = gf_vars[v][:]
-                if n in mask_attrs and v in gf_vars:
+                if n in center_attrs + edge1_attrs + edge2_attrs and v.lower() in gf_vars:
+                    init_args[n] = gf_vars[v.lower()][:]
+                if n in mask_attrs and v.lower() in gf_vars:
                     # masks are not dereferenced
-                    init_args[n] = gf_vars[v]
+                    init_args[n] = gf_vars[v.lower()]
             gt = grid_topology
         return init_args, gt
 
-- 
2.43.0


From 7d58bb624533d19ef8d759ff4c781345e5c1b858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 36/52] fix: save meshes and datasets in the requested format

---
 gridded/gridded.py       | 2 +-
 gridded/pyugrid/ugrid.py | 4 ++--
 gridded/utilities.py     | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index a7735a1..9b0ee93 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -215,7 +215,7 @@ class Dataset:
             raise ValueError(f"format: {format} not supported. Options are: {format_options}")
 
         # create an ncdataset
-        ncds = get_writable_dataset(filename)
+        ncds = get_writable_dataset(filename, format)
 
         # Save the grid and variables
         self.grid.save(ncds, format="netcdf4", variables=self.variables)
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 6b816b3..a3e2b45 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1000,7 +1000,7 @@ class UGrid:
         :param format: format to save -- 'netcdf3' or 'netcdf4'
                        are the only options at this point.
         """
-        self.save(filename, format="netcdf4")
+        self.save(filename, format=format)
 
     def save(self, filepath, format="netcdf4", variables={}):
         """
@@ -1024,7 +1024,7 @@ class UGrid:
 
         mesh_name = self.mesh_name
 
-        nclocal = get_writable_dataset(filepath)
+        nclocal = get_writable_dataset(filepath, format)
 
         nclocal.createDimension(mesh_name + "_num_node", len(self.nodes))
         if self._edges is not None:
diff --git a/gridded/utilities.py b/gridded/utilities.py
index ab5dafc..fbdb38b 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -446,7 +446,8 @@ def get_writable_dataset(ncfile, format="netcdf4"):
         return ncfile
     elif isstring(ncfile):  # Fixme: should be pathlike...
         print("filename is:", ncfile)
-        return nc4.Dataset(ncfile, mode="w", clobber=True, format="NETCDF4")
+        nc_format = {"netcdf3": "NETCDF3_64BIT_OFFSET", "netcdf4": "NETCDF4"}[format]
+        return nc4.Dataset(ncfile, mode="w", clobber=True, format=nc_format)
     else:
         raise ValueError("Must be a string path or a netcdf4 Dataset")
 
-- 
2.43.0


From f10ce4086ea0e2a12162db2498b8a02f0c7949a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:15 +0000
Subject: [PATCH 37/52] fix: load SGRID files without vertical dimensions or
 without face coordinates

---
 gridded/pysgrid/sgrid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index eb32e22..4c212e9 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -269,7 +269,7 @@ class SGrid:
 
     def all_padding(self):
         all_padding = self.get_all_face_padding() + self.get_all_edge_padding()
-        if self.vertical_padding is not None:
+        if self._vertical_padding is not None:
             all_padding += self._vertical_padding
         return all_padding
 
@@ -1418,6 +1418,8 @@ class SGridAttributes:
         if not angles:
             # FIXME: Get rid of pair_arrays.
             center_lon, center_lat = self.get_cell_center_lat_lon()
+            if center_lon is None:
+                return None
             cell_centers = pair_arrays(center_lon, center_lat)
             centers_start = cell_centers[..., :-1, :]
             centers_end = cell_centers[..., 1:, :]
-- 
2.43.0


From e49327dcc55b57e8464e73943fd52ac6316217c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:02 +0000
Subject: [PATCH 38/52] fix: match the masks of SGRID files by dimensions, not
 by shape

---
 gridded/pysgrid/sgrid.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 4c212e9..fa36490 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -200,7 +200,9 @@ class SGrid:
         edge2_lon, edge2_lat = sa.get_cell_edge2_lat_lon()
         face_dimensions, face_padding = sa.get_attr_dimension("face_dimensions")  # noqa
         face_coordinates = sa.get_attr_coordinates("face_coordinates")
-        node_mask, center_mask, edge1_mask, edge2_mask = sa.get_masks(node_lon, center_lon, edge1_lon, edge2_lon)
+        node_mask, center_mask, edge1_mask, edge2_mask = sa.get_masks(
+            node_coordinates, face_coordinates, edge1_coordinates, edge2_coordinates
+        )
         sgrid = cls(
             angles=angles,
             node_lon=node_lon,
@@ -1467,27 +1469,29 @@ class SGridAttributes:
         return edge2_lon, edge2_lat
 
     def get_masks(self, node, center, edge1, edge2):
-        node_shape = node.shape if node is not None and node.shape else None
-        center_shape = center.shape if center is not None and center.shape else None
-        edge1_shape = edge1.shape if edge1 is not None and edge1.shape else None
-        edge2_shape = edge2.shape if edge2 is not None and edge2.shape else None
+        """
+        Find the mask of each location: a mask has the dimensions of the
+        coordinate variables of its location. Shapes do not tell: they are the
+        same for several locations with some paddings.
+
+        :param node: names of the coordinate variables of the nodes, or None
+        :param center, edge1, edge2: the same of the other locations
+        """
         mask_candidates = [
-            var.name
+            var
             for var in self.nc.variables.values()
             if "mask" in var.name or (hasattr(var, "long_name") and "mask" in var.long_name)
         ]
-        node_mask = center_mask = edge1_mask = edge2_mask = None
-        for mc in mask_candidates:
-            if node_shape and self.nc.variables[mc].shape == node_shape and node_mask is None:
-                node_mask = self.nc.variables[mc]  # do not [:] mask variables. They contain important metadata
-            if center_shape and self.nc.variables[mc].shape == center_shape and center_mask is None:
-                center_mask = self.nc.variables[mc]
-            if edge1_shape and self.nc.variables[mc].shape == edge1_shape and edge1_mask is None:
-                edge1_mask = self.nc.variables[mc]
-            if edge2_shape and self.nc.variables[mc].shape == edge2_shape and edge2_mask is None:
-                edge2_mask = self.nc.variables[mc]
-
-        return node_mask, center_mask, edge1_mask, edge2_mask
+        masks = []
+        for coordinates in (node, center, edge1, edge2):
+            mask = None
+            if coordinates is not None:
+                dimensions = self.nc[coordinates[0]].dimensions
+                for candidate in mask_candidates:
+                    if mask is None and dimensions and candidate.dimensions == dimensions:
+                        mask = candidate  # do not [:] mask variables. They contain important metadata
+            masks.append(mask)
+        return tuple(masks)
 
 
 def load_grid(nc):
-- 
2.43.0


From 0879c983e6c171d42906af0e40435c32d1970709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:40 +0000
Subject: [PATCH 39/52] fix: save the edge coordinates and masks of structured
 grids

---
 gridded/pysgrid/sgrid.py | 43 +++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index fa36490..ae12239 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -420,24 +420,24 @@ class SGrid:
             dim_name, dim_size = grid_dim
             nc_file.createDimension(dim_name, dim_size)
         # Create variables.
-        center_lon, center_lat = self.face_coordinates
-        center_lon_obj = getattr(self, center_lon)
-        center_lat_obj = getattr(self, center_lat)
-        center_lon = nc_file.createVariable(center_lon_obj.variable, center_lon_obj.dtype, center_lon_obj.dimensions)
-        center_lat = nc_file.createVariable(center_lat_obj.variable, center_lat_obj.dtype, center_lat_obj.dimensions)
-        center_lon[:] = self.center_lon[:]
-        center_lat[:] = self.center_lat[:]
-        try:
-            node_lon, node_lat = self.node_coordinates
-        except TypeError:
-            pass
-        else:
-            node_lon_obj = getattr(self, node_lon)
-            grid_node_lon = nc_file.createVariable(node_lon_obj.variable, node_lon_obj.dtype, node_lon_obj.dimensions)
-            node_lat_obj = getattr(self, node_lat)
-            grid_node_lat = nc_file.createVariable(node_lat_obj.variable, node_lat_obj.dtype, node_lat_obj.dimensions)
-            grid_node_lon[:] = self.node_lon[:]
-            grid_node_lat[:] = self.node_lat[:]
+        for coordinates, lon, lat in (
+            (self.face_coordinates, self.center_lon, self.center_lat),
+            (self.node_coordinates, self.node_lon, self.node_lat),
+            (self.edge1_coordinates, self.edge1_lon, self.edge1_lat),
+            (self.edge2_coordinates, self.edge2_lon, self.edge2_lat),
+        ):
+            if coordinates is None:
+                continue
+            for name, values in zip(coordinates, (lon, lat)):
+                var_obj = getattr(self, name)
+                if var_obj.variable not in nc_file.variables:
+                    nc_var = nc_file.createVariable(var_obj.variable, var_obj.dtype, var_obj.dimensions)
+                    nc_var[:] = values[:]
+        masks = {
+            mask.name: mask
+            for mask in (self.node_mask, self.center_mask, self.edge1_mask, self.edge2_mask)
+            if mask is not None and hasattr(mask, "name")
+        }
         grid_var_obj = getattr(self, grid_var)
         grid_vars = nc_file.createVariable(grid_var_obj.variable, grid_var_obj.dtype)
         grid_vars.cf_role = "grid_topology"
@@ -467,6 +467,13 @@ class SGrid:
             except RuntimeError:
                 continue
             else:
+                if dataset_variable in masks:
+                    # the attributes tell what the values mean
+                    mask = masks[dataset_variable]
+                    for attr in mask.ncattrs():
+                        if attr != "_FillValue":
+                            dataset_grid_var.setncattr(attr, mask.getncattr(attr))
+                    dataset_grid_var[:] = mask[:]
                 axes = []
                 if dataset_var_obj.grid is not None:
                     dataset_grid_var.grid = grid_var
-- 
2.43.0


From bf114e9ddc20d1e4d918d2a728a2a410979a082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:36 +0000
Subject: [PATCH 40/52] fix: variables of an SGRID file do not replace
 attributes of the grid of the same name

---
 gridded/pysgrid/sgrid.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index ae12239..3b5095a 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -122,6 +122,7 @@ class SGrid:
         self.edge2_padding = edge2_padding
         self.grid_topology_var = grid_topology_var
         self.variables = variables
+        self._sgrid_variables = {}  # the variables of the file, by name
         self.grid_variables = grid_variables
         self.dimensions = dimensions
         self.node_dimensions = node_dimensions
@@ -413,6 +414,11 @@ class SGrid:
             location = None
         return location
 
+    def _get_sgrid_variable(self, name):
+        if name in self._sgrid_variables:
+            return self._sgrid_variables[name]
+        return getattr(self, name)
+
     def _save_common_components(self, nc_file):
         grid_var = self.grid_topology_var
         # Create dimensions.
@@ -429,7 +435,7 @@ class SGrid:
             if coordinates is None:
                 continue
             for name, values in zip(coordinates, (lon, lat)):
-                var_obj = getattr(self, name)
+                var_obj = self._get_sgrid_variable(name)
                 if var_obj.variable not in nc_file.variables:
                     nc_var = nc_file.createVariable(var_obj.variable, var_obj.dtype, var_obj.dimensions)
                     nc_var[:] = values[:]
@@ -438,7 +444,7 @@ class SGrid:
             for mask in (self.node_mask, self.center_mask, self.edge1_mask, self.edge2_mask)
             if mask is not None and hasattr(mask, "name")
         }
-        grid_var_obj = getattr(self, grid_var)
+        grid_var_obj = self._get_sgrid_variable(grid_var)
         grid_vars = nc_file.createVariable(grid_var_obj.variable, grid_var_obj.dtype)
         grid_vars.cf_role = "grid_topology"
         grid_vars.topology_dimension = self.topology_dimension
@@ -459,7 +465,7 @@ class SGrid:
             if self.angles is not None:
                 grid_angle[:] = self.angles[:]
         for dataset_variable in self.variables:
-            dataset_var_obj = getattr(self, dataset_variable)
+            dataset_var_obj = self._get_sgrid_variable(dataset_variable)
             try:
                 dataset_grid_var = nc_file.createVariable(
                     dataset_var_obj.variable, dataset_var_obj.dtype, dataset_var_obj.dimensions
@@ -1415,7 +1421,9 @@ class SGridAttributes:
         for nc_variable in nc_variables:
             nc_var = nc_variables[nc_variable]
             sgrid_var = SGridVariable.create_variable(nc_var, sgrid)
-            setattr(sgrid, sgrid_var.variable, sgrid_var)
+            sgrid._sgrid_variables[sgrid_var.variable] = sgrid_var
+            if not hasattr(sgrid, sgrid_var.variable):  # never in place of the grid's own attributes
+                setattr(sgrid, sgrid_var.variable, sgrid_var)
             dataset_variables.append(nc_var.name)
             if hasattr(nc_var, "grid"):
                 grid_variables.append(nc_var.name)
-- 
2.43.0


From 800a6ca8ab626b0c663a750d7433f414f9f8a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:05 +0000
Subject: [PATCH 41/52] fix: trim the padding at the high end of SGRID
 variables, not all but the first cell

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 3b5095a..bbfdea4 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -23,7 +23,7 @@ edge2_alternate_names = ["edge2", "v"]
 
 
 class SGrid:
-    padding_slices = {"both": (1, -1), "none": (None, None), "low": (1, None), "high": (None, 1)}
+    padding_slices = {"both": (1, -1), "none": (None, None), "low": (1, None), "high": (None, -1)}
 
     topology_dimension = 2
 
-- 
2.43.0


From fc29add5b008d872aaf1b1a0da27764815d88a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:14 +0000
Subject: [PATCH 42/52] fix: refuse points that are text or bytes of any
 length, or times

---
 gridded/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index fbdb38b..714dd96 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -231,7 +231,7 @@ def _reorganize_spatial_data(points):
     if points is None:
         return None
     points_arr = np.array(points).squeeze()
-    if points_arr.dtype in (np.object_, np.bytes_, np.bool_):
+    if not np.issubdtype(points_arr.dtype, np.number):
         raise TypeError("points data does not convert to a numeric array type")
     shp = points_arr.shape
     # special cases
-- 
2.43.0


From 38fbb6f0830ac0a9ef40cbe4a3423b55106b8d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:37 +0000
Subject: [PATCH 43/52] fix: locate data of structured grids by the shapes of
 the coordinates of each location

---
 gridded/pysgrid/sgrid.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index bbfdea4..1721271 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -401,17 +401,16 @@ class SGrid:
             return None  # Variable has no shape attribute!
         if len(variable.shape) < 2:
             return None
-        difference = (shape[-2:] - self.node_lon.shape).tolist()
-        if (difference == [1, 1] or difference == [-1, -1]) and self.center_lon is not None:
-            location = "center"
-        elif difference == [1, 0] and self.edge1_lon is not None:
-            location = "edge1"
-        elif difference == [0, 1] and self.edge2_lon is not None:
-            location = "edge2"
-        elif difference == [0, 0] and self.node_lon is not None:
-            location = "node"
-        else:
-            location = None
+        # data of a location have the shape of its coordinates
+        location = None
+        for name, lon in (
+            ("node", self.node_lon),
+            ("center", self.center_lon),
+            ("edge1", self.edge1_lon),
+            ("edge2", self.edge2_lon),
+        ):
+            if location is None and lon is not None and tuple(lon.shape) == tuple(shape[-2:]):
+                location = name
         return location
 
     def _get_sgrid_variable(self, name):
-- 
2.43.0


From 05864a87460a68a9eae1fbfb2ce17581bf658137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:52 +0000
Subject: [PATCH 44/52] fix: scalar and one-dimensional variables of files with
 regular grids are not data on the grid

---
 gridded/grids.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/grids.py b/gridded/grids.py
index 8b72bd9..e2d90cc 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -454,6 +454,8 @@ class Grid_R(GridBase):
         if hasattr(variable, "location"):
             return variable.location
 
+        if len(variable.shape) < 2:
+            return None
         x_len = len(self.node_lon)
         y_len = len(self.node_lat)
         node_shape = np.array((y_len, x_len))
-- 
2.43.0


From c00033f10f6fabce623ef401b556434276093347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:49 +0000
Subject: [PATCH 45/52] fix: nearest values of SGrid variables that are plain
 arrays

---
 gridded/pysgrid/sgrid.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 1721271..fe14969 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -794,14 +794,11 @@ class SGrid:
         """
         var = var[:]
         rv = np.ma.zeros((index.shape[0], 1), dtype=np.float64)
-        mask = np.ma.zeros((index.shape[0], 1), dtype=bool)
         raw = np.ravel_multi_index(index.T, var.shape, mode="clip")
         if np.ma.is_masked(index):
             raw.mask = index.mask[:, 0]  # need to remask raw because ravel_multi_index wipes out index's mask
         rv[:, 0] = np.take(var, raw)
-        if var.mask is False:
-            mask[:, 0] = np.take(var.mask, raw)
-        return np.ma.array(rv, mask=mask)
+        return rv
 
     def build_kdtree(self, grid="node"):
         """Builds the kdtree for the specified grid"""
-- 
2.43.0


From a3f131163638679b8caaddcf5025a3ed3fbbb8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:56 +0000
Subject: [PATCH 46/52] fix: times of a file with an offset in the units are
 kept in that offset

netCDF4.num2date() converts the times to UTC if the units have an offset that it
understands (hh:mm), but they were labelled with the offset of the file.
---
 gridded/time.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/gridded/time.py b/gridded/time.py
index 3ef4386..a681c3c 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -83,6 +83,18 @@ def parse_time_offset(unit_str):
     return offset_hours, name
 
 
+def _drop_time_offset(unit_str):
+    """
+    CF-style time units string without its time offset
+
+    :param unit_str: CF-style time unit string, with a time offset.
+    """
+    from dateutil import parser
+
+    interval, t_string = unit_str.split("since")
+    return f"{interval}since {parser.parse(t_string).replace(tzinfo=None)}"
+
+
 class Time:
     # Used to make a singleton with the constant_time class method.
     #  question: why not a ContantTime Class?
@@ -253,23 +265,27 @@ class Time:
         if isinstance(varname, str):
             tvar = dataset.variables[varname]
 
+        time_units = tvar.units
         # figure out the timezone_offset
         if isinstance(tz_offset, str) and tz_offset.lower() == "naive":
             tz_offset = None
             name = "No Timezone Specified"
         elif tz_offset is None:
             # look in the time units attribute:
-            tz_offset, name = parse_time_offset(tvar.units)
+            tz_offset, name = parse_time_offset(time_units)
             # assuming, for netcdf files, that no specified offset is UTC (CF standard)
             if tz_offset is None:
                 tz_offset = 0
                 name = "UTC"
+            elif tz_offset != 0:
+                # num2date() would convert the times to UTC, but they are to be in the offset of the file.
+                time_units = _drop_time_offset(time_units)
         else:
             name = offset_as_iso_string(tz_offset)
         if tz_offset_name is None:
             tz_offset_name = name
 
-        tdata = nc4.num2date(tvar[:], units=tvar.units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
+        tdata = nc4.num2date(tvar[:], units=time_units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
         # Fixme: use the name and pass it through?
         time = cls(
             data=tdata,
-- 
2.43.0


From 0b752c75663525c4987a94a0b8ec06a54359c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:56 +0000
Subject: [PATCH 47/52] fix: Variable.from_netCDF(load_all=True) keeps the
 attributes of the variable

---
 gridded/variable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridded/variable.py b/gridded/variable.py
index 7550691..a0e15a8 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -277,6 +277,9 @@ class Variable:
             if hasattr(data, "location"):
                 location = data.location
         if load_all:
+            # an array has no attributes, so keep those of the netCDF variable
+            file_attrs = {attr: data.getncattr(attr) for attr in data.ncattrs()}
+            kwargs["attributes"] = {**(kwargs.get("attributes") or {}), **file_attrs}
             data = data[:]
         return cls(
             name=name,
-- 
2.43.0


From 63770d42639fba3ed5d2ef123d6ca479d29ec903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:56 +0000
Subject: [PATCH 48/52] fix: variables are not left out of a Dataset for their
 name being a word in the description of the grid

---
 gridded/gridded.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index 9b0ee93..b88e9e7 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -151,9 +151,12 @@ class Dataset:
         #        It *should* have already gotten the grid and depth and time,
         #        and then the variables can be loaded directly.
         variables = {}
+        # the words of a description are not names of variables
+        descriptive = ("cf_role", "long_name", "standard_name")
+        grid_attrs = [v for a, v in self.grid.grid_topology.items() if a not in descriptive]
         for k in ds.variables.keys():
             # find which netcdf variables are used to define the grid
-            is_not_grid_attr = all([k not in str(v).split() for v in self.grid.grid_topology.values()])
+            is_not_grid_attr = all([k not in str(v).split() for v in grid_attrs])
             if is_not_grid_attr:
                 ncvar = ds[k]
                 # find the location of the variable
-- 
2.43.0


From 41dcda4e1afe1e2278002630dad72a9d045b1f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:51 +0000
Subject: [PATCH 49/52] fix: the variable with the name of a term of the depth
 comes before others that share its standard name

---
 gridded/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 714dd96..a43e6ba 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -469,11 +469,12 @@ def search_netcdf_vars(cls=None, ds=None, dg=None):
     """
     vn_search = search_dataset_for_variables_by_varname(ds, cls.default_names)
     ds_search = search_dataset_for_variables_by_longname(ds, cls.cf_names)
-    found_vars = merge_var_search_dicts(ds_search, vn_search)
+    # the default names come first: standard names may be shared by several variables
+    found_vars = merge_var_search_dicts(vn_search, ds_search)
     if ds != dg:
         dg_vn_search = search_dataset_for_variables_by_varname(dg, cls.default_names)
         dg_ln_search = search_dataset_for_variables_by_longname(dg, cls.cf_names)
-        dg_search = merge_var_search_dicts(dg_ln_search, dg_vn_search)
+        dg_search = merge_var_search_dicts(dg_vn_search, dg_ln_search)
         found_vars = merge_var_search_dicts(found_vars, dg_search)
     return found_vars
 
-- 
2.43.0


From 061480bb5da9f8cb34063c05a8b497c28f160ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:59 +0000
Subject: [PATCH 50/52] fix: the surface-only depth of a file keeps the
 surface_index it is asked for

---
 gridded/depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 5928857..6bf94d0 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -50,7 +50,7 @@ class DepthBase:
 
     @classmethod
     def from_netCDF(cls, surface_index=-1, **kwargs):
-        return cls(surface_index, **kwargs)
+        return cls(surface_index=surface_index, **kwargs)
 
     @property
     def surface_index(self):
-- 
2.43.0


From 91db9e96c2044ac0934aa0e9e788fbd857926ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:59 +0000
Subject: [PATCH 51/52] fix: depth axes can be read with the bathymetry given
 and zeta of the file

---
 gridded/depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 6bf94d0..7df50c1 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -544,7 +544,7 @@ class S_Depth(DepthBase):
                 warnings.warn(warn)
                 zeta = Zeta.constant(0)
             else:
-                if 'node' in grid.infer_location(bathy_var):
+                if 'node' in grid.infer_location(zeta_var):
                     zeta = Zeta(data=zeta_var, grid=grid, time=time, name="zeta")
                 else:
                     #zeta data is on cell centers, but needs to be averaged to the nodes in order
-- 
2.43.0


From 7b15f0a9010367445527ccf166a665e517081394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 52/52] fix: depth axes can be read with a free surface that
 does not change in time

---
 gridded/depth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 7df50c1..1b6ecde 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -508,7 +508,8 @@ class S_Depth(DepthBase):
             elif isinstance(zeta, Variable) and zeta.time is not None:
                 time = zeta.time
             else:
-                time = Time.from_netCDF(dataset=ds, origin=time_origin, displacement=displacement, tz_offset=tz_offset)
+                # the free surface does not change in time
+                time = Time.constant_time()
 
         if bathymetry is None:
             bathy_var = nc_vars.get("bathymetry", None)
-- 
2.43.0

