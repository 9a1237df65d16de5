From ac4cd5954b36461c2bfd75b9dd5b692b0e6bc7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 01/40] fix: DataTable.row_stacked uses np.vstack (np.row_stack
 is gone in NumPy 2)

---
 src/pyhipp/core/containers/data_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/containers/data_table.py b/src/pyhipp/core/containers/data_table.py
index c1d3ded..8babe3a 100644
--- a/src/pyhipp/core/containers/data_table.py
+++ b/src/pyhipp/core/containers/data_table.py
@@ -185,7 +185,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
         return np.column_stack(list(self.values()))
 
     def row_stacked(self) -> np.ndarray:
-        return np.row_stack(list(self.values()))
+        return np.vstack(list(self.values()))
 
     def concat(self, *other: Mapping[Key, Value]) -> DataTable:
         '''
-- 
2.43.0


From 9a9d33eab2458594e3e09aacf7f2f662048fa26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 02/40] fix: DataTable no longer recurses infinitely when
 copied or unpickled

---
 src/pyhipp/core/containers/data_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyhipp/core/containers/data_table.py b/src/pyhipp/core/containers/data_table.py
index 8babe3a..85e21fa 100644
--- a/src/pyhipp/core/containers/data_table.py
+++ b/src/pyhipp/core/containers/data_table.py
@@ -135,6 +135,8 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
 
     # For attribute access
     def __getattr__(self, key: Key) -> Value:
+        if key == '_data':      # not initialized, e.g. being unpickled/copied
+            raise AttributeError(f'Attribute {key} not found')
         try:
             return self[key]
         except KeyError:
-- 
2.43.0


From 4286129a7f7e372e1675c55f806bd973553c9920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 03/40] fix: copy=False means "copy only if needed" under NumPy
 2 as well

---
 src/pyhipp/core/abc.py                   | 2 +-
 src/pyhipp/core/arrays/array.py          | 2 +-
 src/pyhipp/core/containers/data_table.py | 6 +++---
 src/pyhipp/core/dataproc/data_structs.py | 2 +-
 src/pyhipp/core/dataproc/mask.py         | 2 +-
 src/pyhipp/stats/binning.py              | 4 ++--
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pyhipp/core/abc.py b/src/pyhipp/core/abc.py
index 849b008..7fc3f09 100644
--- a/src/pyhipp/core/abc.py
+++ b/src/pyhipp/core/abc.py
@@ -120,7 +120,7 @@ class HasValue:
     def __init__(self, value: np.ndarray, copy=True, **kw) -> None:
         super().__init__(**kw)
 
-        self.value = np.array(value, copy=copy)
+        self.value = np.array(value, copy=copy or None)
 
     def set_value(self, value: np.ndarray) -> None:
         self.value[...] = value
diff --git a/src/pyhipp/core/arrays/array.py b/src/pyhipp/core/arrays/array.py
index 2ab0730..15fffff 100644
--- a/src/pyhipp/core/arrays/array.py
+++ b/src/pyhipp/core/arrays/array.py
@@ -22,7 +22,7 @@ class Array(HasDictRepr):
         if isinstance(data, Array):
             data = data._impl
             
-        self._impl = np.array(data, dtype=dtype, copy=copy)
+        self._impl = np.array(data, dtype=dtype, copy=copy or None)
         
     @classmethod
     def zeros(cls, shape: Shape, dtype: DType = None, **kw) -> Array:
diff --git a/src/pyhipp/core/containers/data_table.py b/src/pyhipp/core/containers/data_table.py
index 85e21fa..f473fb8 100644
--- a/src/pyhipp/core/containers/data_table.py
+++ b/src/pyhipp/core/containers/data_table.py
@@ -52,7 +52,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
         assert isinstance(data, Mapping)
 
         self._data = OrderedDict({
-            k: np.array(v, copy=copy) for k, v in data.items()
+            k: np.array(v, copy=copy or None) for k, v in data.items()
         })
 
     def __getitem__(self, key: KeyOrKeys) -> ValueOrValues:
@@ -127,7 +127,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
 
     def update(self, other: Mapping[Key, Value], copy=True) -> None:
         self._data.update({
-            k: np.array(v, copy=copy) for k, v in other.items()
+            k: np.array(v, copy=copy or None) for k, v in other.items()
         })
 
     def clear(self) -> None:
@@ -178,7 +178,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
         return cls(**init_kw)
 
     def to_dict(self, copy=True) -> dict[str, np.ndarray]:
-        return {k: np.array(v, copy=copy) for k, v in self.items()}
+        return {k: np.array(v, copy=copy or None) for k, v in self.items()}
 
     def to_dict_of_list(self) -> dict[str, list]:
         return {k: v.tolist() for k, v in self.items()}
diff --git a/src/pyhipp/core/dataproc/data_structs.py b/src/pyhipp/core/dataproc/data_structs.py
index 6909bf5..5f9c15a 100644
--- a/src/pyhipp/core/dataproc/data_structs.py
+++ b/src/pyhipp/core/dataproc/data_structs.py
@@ -44,7 +44,7 @@ class Array:
     def __as_array_one(x, copy):
         if x is None:
             return None
-        return np.array(x, copy=copy)
+        return np.array(x, copy=copy or None)
 
     
     @staticmethod
diff --git a/src/pyhipp/core/dataproc/mask.py b/src/pyhipp/core/dataproc/mask.py
index f5bc15a..3e747d7 100644
--- a/src/pyhipp/core/dataproc/mask.py
+++ b/src/pyhipp/core/dataproc/mask.py
@@ -47,7 +47,7 @@ class Mask:
     
     @staticmethod
     def on_array(mask: Any, a: np.ndarray, copy: bool = False):
-        return np.array(a[mask], copy=copy)
+        return np.array(a[mask], copy=copy or None)
         
     @staticmethod
     def on_arrays(mask: Any, 
diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index f2b3bb7..1da0c97 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -71,13 +71,13 @@ class Bin:
     
     @staticmethod
     def edges_to_centers(e, stride=1):
-        e = np.array(e, copy=False)
+        e = np.asarray(e)
         lo, hi = e[:-stride], e[stride:]
         return .5 * ( lo + hi )
     
     @staticmethod
     def edges_to_widths(e, stride=1):
-        e = np.array(e, copy=False)
+        e = np.asarray(e)
         lo, hi = e[:-stride], e[stride:]
         return hi - lo
     
-- 
2.43.0


From c17694f13785708d65d38f4dd7feb37f047cfe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 04/40] fix: point_group.Group.__len__ referred to a missing
 attribute

---
 src/pyhipp/group_theory/point_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/group_theory/point_group.py b/src/pyhipp/group_theory/point_group.py
index 919da09..ad382a6 100644
--- a/src/pyhipp/group_theory/point_group.py
+++ b/src/pyhipp/group_theory/point_group.py
@@ -90,7 +90,7 @@ class Group(abc.HasName, abc.HasSimpleRepr):
         return iter(self.ops)
     
     def __len__(self) -> int:
-        return len(self.opts)
+        return len(self.ops)
     
     def __getitem__(self, idx) -> Op:
         return self.ops[idx]
-- 
2.43.0


From 0e4d6621deb9abbb953c8b6ccaacf1fd0476c010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 05/40] fix: Array.argsort passes its arguments to
 FlatIndexArray in order

---
 src/pyhipp/core/arrays/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/arrays/array.py b/src/pyhipp/core/arrays/array.py
index 15fffff..facc840 100644
--- a/src/pyhipp/core/arrays/array.py
+++ b/src/pyhipp/core/arrays/array.py
@@ -49,7 +49,7 @@ class Array(HasDictRepr):
             -> Union[FlatIndexArray, IntArray]:
         out = self._impl.argsort(axis=axis, kind=kind)
         if axis is None:
-            out = FlatIndexArray(out, self.size, copy=False)
+            out = FlatIndexArray(self.size, out, copy=False)
         else:
             out = IntArray(out, copy=False)
         return out
-- 
2.43.0


From acb97bc3937eb82998532fa9da5652a99ab64aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 06/40] fix: EqualSpaceBins.locate agrees with x_edges for
 rounding, huge, infinite and scalar x

---
 src/pyhipp/stats/binning.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index 1da0c97..80a5f0e 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -188,10 +188,7 @@ class EqualSpaceBins(Bins):
         self._x_step = x_step
         
     def locate(self, x: np.ndarray) -> np.ndarray:
-        b, x_step, n_bins = self._x_range[0], self._x_step, self._n_bins
-        ids = np.floor((x - b) / x_step).astype(np.int64)
-        np.clip(ids, -1, n_bins, out=ids)
-        return ids
+        return np.searchsorted(self.x_edges, x, side='right') - 1
         
     def to_simple_repr(self) -> dict:
         return {
-- 
2.43.0


From bf8b8f1176c099d82e7d0cf8da1b37939a3f768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 07/40] fix: StdDev (and Errorbar mean+sd) fills empty samples
 with empty_fill, not nan

---
 src/pyhipp/stats/reduction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index 5501a2e..6ccf5c5 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -168,7 +168,10 @@ class StdDev(Reduce):
         if x.ndim == 2:
             x_mean = x_mean[:, None]
         dx = x - x_mean
-        return np.sqrt(mean(dx * dx, weight, mask))
+        out = np.asarray(np.sqrt(Mean(0.)(dx * dx, weight, mask)))
+        out[Count()(x, mask=mask) < 1] = self.empty_fill
+
+        return out
 
 
 class Quantile(Reduce):
-- 
2.43.0


From 2ccd6c670e668b8115701218033a285a446c5362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 08/40] fix: Count returns one value per row for 2-D data
 without mask, as with mask

---
 src/pyhipp/stats/reduction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index 6ccf5c5..5f9009f 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -107,7 +107,9 @@ class Count(Reduce):
 
     def _impl(self, x: np.ndarray, weight: np.ndarray = None,
               mask: np.ndarray = None) -> np.ndarray:
-        out = x.shape[-1] if mask is None else mask.sum(-1)
+        if mask is None:
+            mask = np.ones(x.shape, dtype=bool)
+        out = mask.sum(-1)
         return np.asarray(out)
 
 
-- 
2.43.0


From a9cf373282b6b01a79e1626dcbdc468254dec562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 09/40] fix: interpolate.Linear check rejects nodes that are
 not ascending

---
 src/pyhipp/numerical/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/numerical/interpolate.py b/src/pyhipp/numerical/interpolate.py
index 1ce3518..27086d1 100644
--- a/src/pyhipp/numerical/interpolate.py
+++ b/src/pyhipp/numerical/interpolate.py
@@ -139,7 +139,7 @@ class Linear:
             n = len(x_nodes)
             assert x_nodes.shape == (n,)
             assert y_nodes.shape == (n,)
-            assert (x_nodes[1:] - x_nodes[:-1]).all()
+            assert (x_nodes[1:] > x_nodes[:-1]).all()
         assert len(x_nodes) >= 2
 
         self._x_nodes = x_nodes
-- 
2.43.0


From 065f40cac8923dd57857a802731937309b1e245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 10/40] fix: Num.bound of an integer array does not truncate
 fractional bounds

---
 src/pyhipp/core/dataproc/num.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/core/dataproc/num.py b/src/pyhipp/core/dataproc/num.py
index 2d50d81..a89bd84 100644
--- a/src/pyhipp/core/dataproc/num.py
+++ b/src/pyhipp/core/dataproc/num.py
@@ -32,7 +32,9 @@ class Num:
         '''
         x = np.asarray(x)
         if copy:
-            x = x.copy() 
+            bounds = tuple(b for b in (lo, hi) if b is not None)
+            x = x.astype(np.result_type(x, *bounds) if x.dtype.kind in 'biu'
+                         else x.dtype)
         if lo is not None:
             sel = x < lo
             x[sel] = lo
-- 
2.43.0


From 2bc0183a3d81803f9e492f914a55474cf67c9516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 11/40] fix: sign of negative d:m:s and h:m:s applies to
 minutes and seconds

---
 src/pyhipp/astro/coords/cvt.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pyhipp/astro/coords/cvt.py b/src/pyhipp/astro/coords/cvt.py
index 5d6b833..143914f 100644
--- a/src/pyhipp/astro/coords/cvt.py
+++ b/src/pyhipp/astro/coords/cvt.py
@@ -1,17 +1,20 @@
 from __future__ import annotations
+import math
 import typing
 from typing import Self
 
+def _sexagesimal(d: float, m: float, s: float) -> float:
+    # A leading negative term (including -0.) signs the whole value.
+    if math.copysign(1., d) < 0. and m >= 0. and s >= 0.:
+        m, s = -m, -s
+    return d + m / 60. + s / 3600.
+
 def dms_to_deg(dms: str| tuple[float,float,float]) -> float:
     if isinstance(dms, str):
         dms = tuple(float(v) for v in dms.split(':'))
-    d, m, s = dms
-    deg = d + m / 60. + s / 3600.
-    return deg
+    return _sexagesimal(*dms)
 
 def hms_to_deg(hms: str| tuple[float,float,float]) -> float:
     if isinstance(hms, str):
         hms = tuple(float(v) for v in hms.split(':'))
-    h, m, s = hms
-    deg = (h + m / 60. + s / 3600.)*15.
-    return deg
\ No newline at end of file
+    return _sexagesimal(*hms) * 15.
\ No newline at end of file
-- 
2.43.0


From a3fa0e9a28503e72810a9bb14304fb606a59ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 12/40] fix: Polar.rt_to_cart accepts integer positions

---
 src/pyhipp/core/dataproc/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/dataproc/frame.py b/src/pyhipp/core/dataproc/frame.py
index 3e4090b..9cabc63 100644
--- a/src/pyhipp/core/dataproc/frame.py
+++ b/src/pyhipp/core/dataproc/frame.py
@@ -30,7 +30,7 @@ class Polar:
         @x: (n,3) array-like, spatial position.
         @v: (n,3) array-like, vector to be transformed.
         '''
-        vnew_z = np.array(x)
+        vnew_z = np.array(x, dtype=float)
         vold_z = np.array([0,0,1])
         vnew_x = np.cross(vold_z, vnew_z)
         vnew_y = np.cross(vnew_z, vnew_x)
-- 
2.43.0


From f7402ec6272200a353b99207f59bc753abc2d70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 13/40] fix: smoothing and tidal fields on meshes with an odd
 number of grids

---
 src/pyhipp/field/cubic_box/gravity.py   | 3 ++-
 src/pyhipp/field/cubic_box/smoothing.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyhipp/field/cubic_box/gravity.py b/src/pyhipp/field/cubic_box/gravity.py
index b1ee677..ce8d9b5 100644
--- a/src/pyhipp/field/cubic_box/gravity.py
+++ b/src/pyhipp/field/cubic_box/gravity.py
@@ -91,7 +91,8 @@ class TidalField:
         '''
 
         rho_x, mesh = rho_x.data, rho_x.mesh._impl
-        fft = NdRealFFT(n_workers=self._n_workers, norm='ortho')
+        fft = NdRealFFT(shape=rho_x.shape, n_workers=self._n_workers,
+                        norm='ortho')
         sm = _Gaussian(self._r_sm, mesh)
         S = _LinearShapeFn(mesh) if self._correct_shape == 'cic' \
             else _NoneShapeFn()
diff --git a/src/pyhipp/field/cubic_box/smoothing.py b/src/pyhipp/field/cubic_box/smoothing.py
index ca5a7be..cb0b897 100644
--- a/src/pyhipp/field/cubic_box/smoothing.py
+++ b/src/pyhipp/field/cubic_box/smoothing.py
@@ -90,7 +90,8 @@ class FFTSmoothing:
 
     def run(self, field: Field):
         data, mesh = field.data, field.mesh._impl
-        fft = NdRealFFT(n_workers=self._n_workers, norm='ortho')
+        fft = NdRealFFT(shape=data.shape, n_workers=self._n_workers,
+                        norm='ortho')
         method = self._method
         if method == 'gaussian':
             sm = _Gaussian(self._r_sm, mesh)
@@ -157,7 +158,8 @@ class FourierSpaceSmoothing:
         '''
 
         rho_x, mesh = rho_x.data, rho_x.mesh._impl
-        fft = NdRealFFT(n_workers=self._n_workers, norm='ortho')
+        fft = NdRealFFT(shape=rho_x.shape, n_workers=self._n_workers,
+                        norm='ortho')
         method = self._method
         if method == 'gaussian':
             sm = _Gaussian(self._r_sm, mesh)
-- 
2.43.0


From 13de8af07344571f156b3c909f5e241ac8f2233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 14/40] fix: DensityField initializes its logging base

---
 src/pyhipp/field/cubic_box/mass_assignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyhipp/field/cubic_box/mass_assignment.py b/src/pyhipp/field/cubic_box/mass_assignment.py
index 58382c9..28bb63d 100644
--- a/src/pyhipp/field/cubic_box/mass_assignment.py
+++ b/src/pyhipp/field/cubic_box/mass_assignment.py
@@ -121,6 +121,8 @@ class DensityField(abc.HasLog):
 
     def __init__(self, l_box: float, n_grids: int) -> None:
 
+        super().__init__()
+
         mesh = _Mesh(n_grids, l_box)
         data = np.zeros((n_grids, n_grids, n_grids), dtype=np.float64)
         field = _Field(data, mesh)
-- 
2.43.0


From bd0bd78e6de613f78a8c55f6e437113761a674ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 15/40] fix: h5 DatasetManager has a length, so what() and ls()
 work

---
 src/pyhipp/io/h5/named_objs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyhipp/io/h5/named_objs.py b/src/pyhipp/io/h5/named_objs.py
index c09126d..c61305e 100644
--- a/src/pyhipp/io/h5/named_objs.py
+++ b/src/pyhipp/io/h5/named_objs.py
@@ -144,6 +144,9 @@ class DatasetManager(Obj):
             raise KeyError(f'Dataset {key} not found')
         self._raw[key][...] = value
 
+    def __len__(self) -> int:
+        return len(self.keys())
+
     def __contains__(self, key):
         if key not in self._raw:
             return False
-- 
2.43.0


From 30d260c86efd4a34ae70bc2a7dda64406387b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 16/40] fix: txt_to_h5 honours d_flag when given a file name

---
 src/pyhipp/io/h5/shortcuts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/h5/shortcuts.py b/src/pyhipp/io/h5/shortcuts.py
index 939c99e..b260109 100644
--- a/src/pyhipp/io/h5/shortcuts.py
+++ b/src/pyhipp/io/h5/shortcuts.py
@@ -16,7 +16,7 @@ def txt_to_h5(f_in: str, f_out: str | Group, dtype: np.ndarray,
     '''
     if isinstance(f_out, (str, Path)):
         with File(f_out, f_flag) as _f_out:
-            txt_to_h5(f_in, _f_out, dtype)
+            txt_to_h5(f_in, _f_out, dtype, d_flag=d_flag)
         return
     assert isinstance(f_out, Group)
     dsets = np.loadtxt(f_in, dtype=dtype)
-- 
2.43.0


From 2a57f5fb849d4fd9c0bfba2a88e7fe2b4bb61773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 17/40] fix: fortran.BinaryFile repr refers to existing
 attributes

---
 src/pyhipp/io/binary/fortran.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/binary/fortran.py b/src/pyhipp/io/binary/fortran.py
index 9db155d..a8d49e5 100644
--- a/src/pyhipp/io/binary/fortran.py
+++ b/src/pyhipp/io/binary/fortran.py
@@ -12,7 +12,7 @@ import numpy as np
 
 class BinaryFile(HasDictRepr):
 
-    repr_attr_keys = ('file', 'file_path', 'mode', 'open_kw')
+    repr_attr_keys = ('_file', '_file_path', '_mode', '_open_kw')
 
     def __init__(self, file_path: Path, mode='rb', open_kw={}):
 
-- 
2.43.0


From 00a6d1cac1b35daea240ebb2e29f2697d34534a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 18/40] fix: fortran.BinaryFile skips records of any
 dtype-like, as it loads them

---
 src/pyhipp/io/binary/fortran.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/binary/fortran.py b/src/pyhipp/io/binary/fortran.py
index a8d49e5..54c9b14 100644
--- a/src/pyhipp/io/binary/fortran.py
+++ b/src/pyhipp/io/binary/fortran.py
@@ -63,4 +63,4 @@ class BinaryFile(HasDictRepr):
         '''
         if n is None:
             n = 1
-        return dtype.itemsize * n
+        return np.dtype(dtype).itemsize * n
-- 
2.43.0


From 8c618c8a9b34e2f10d74a3cd4a0caeb5c90a37cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 19/40] fix: local-kernel regression accepts any iterable of
 reductions

---
 src/pyhipp/stats/regression.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/stats/regression.py b/src/pyhipp/stats/regression.py
index e7a553d..f233c13 100644
--- a/src/pyhipp/stats/regression.py
+++ b/src/pyhipp/stats/regression.py
@@ -114,8 +114,9 @@ class _LocalKernelRegression(_Regression):
         std is the standard deviation of x, computed along every axes and then 
         averaged.
         '''
-        r_names = tuple(n for n, _ in m_reduction.predefined.iter(reduce))
-        r_calls = tuple(c for _, c in m_reduction.predefined.iter(reduce))
+        reduces = tuple(m_reduction.predefined.iter(reduce))
+        r_names = tuple(n for n, _ in reduces)
+        r_calls = tuple(c for _, c in reduces)
         n_rs = len(r_names)
         if kernel is not None:
             kernel = m_kernel.predefined.create(kernel)[1]
-- 
2.43.0


From 9ca5c5d7c508ecda14adad69d3ab942ede81f671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 20/40] fix: _Constants.kpc_to_m is a thousandth, not a
 thousand, of a Mpc

---
 src/pyhipp/astro/quantity/unit_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/astro/quantity/unit_system.py b/src/pyhipp/astro/quantity/unit_system.py
index 28c4ca5..716823d 100644
--- a/src/pyhipp/astro/quantity/unit_system.py
+++ b/src/pyhipp/astro/quantity/unit_system.py
@@ -28,7 +28,7 @@ class _Constants:
     def __init__(self) -> None:
 
         self.mpc_to_m = 3.085677581491367e+22
-        self.kpc_to_m = self.mpc_to_m * 1.0e3
+        self.kpc_to_m = self.mpc_to_m / 1.0e3
         self.pc_to_m = self.mpc_to_m / 1.0e6
         self.gyr_to_s = 3.15576e+16
         self.myr_to_s = self.gyr_to_s / 1.0e3
-- 
2.43.0


From 41338b17cc12e763262b3ee87126f2055fb9fe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 21/40] fix: ParamList forgets the name of a replaced parameter

---
 src/pyhipp/astro/cosmology/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/astro/cosmology/param.py b/src/pyhipp/astro/cosmology/param.py
index eea7d33..4ed3f7f 100644
--- a/src/pyhipp/astro/cosmology/param.py
+++ b/src/pyhipp/astro/cosmology/param.py
@@ -29,7 +29,7 @@ class ParamList(HasName, HasSimpleRepr):
     
     def __setitem__(self, idx: int, param: Param) -> None:
         self._params[idx] = param
-        self._name2idx[param.name] = idx
+        self._name2idx = {p.name: i for i, p in enumerate(self._params)}
     
     def __len__(self) -> int:
         return len(self._params)
-- 
2.43.0


From 04b3c3e3fbfe324cccb3621eace67686371e5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 22/40] fix: Excel.load_file(as_datatables=True) builds the
 tables

---
 src/pyhipp/io/excel/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyhipp/io/excel/__init__.py b/src/pyhipp/io/excel/__init__.py
index c368271..dbe62b4 100644
--- a/src/pyhipp/io/excel/__init__.py
+++ b/src/pyhipp/io/excel/__init__.py
@@ -74,8 +74,7 @@ class Excel:
                   reorder=True):
         d_in = pd.read_excel(file, sheet_name=None)
         if as_datatables:
-            d_in = {k: DataTable({k1: v1.to_numpy() for k1, v1 in v.to_dict(
-                orient='series', index=False)}, copy=False) for k, v in d_in.items()}
+            d_in = {k: DataTable({k1: v1.to_numpy() for k1, v1 in v.items()}, copy=False) for k, v in d_in.items()}
         if reorder:
             d_out = Excel.__reorder_input(d_in)
         else:
-- 
2.43.0


From 1f26f725b2f40c8987e3979218ec1369a089c13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 23/40] fix: Rng accepts NumPy integer seeds

---
 src/pyhipp/stats/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/random.py b/src/pyhipp/stats/random.py
index 54e4f88..5184297 100644
--- a/src/pyhipp/stats/random.py
+++ b/src/pyhipp/stats/random.py
@@ -74,7 +74,7 @@ class Rng:
         elif isinstance(seed, Rng):
             np_rng = seed._np_rng
         else:
-            assert isinstance(seed, (int, type(None)))
+            assert isinstance(seed, (int, np.integer, type(None)))
             np_rng = npr.default_rng(seed)
             
         self._np_rng = np_rng
-- 
2.43.0


From 527eef874a8df15f1b1909c0f87f7384d42dd044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 24/40] fix: Histogram2D.on locates points in the bins which
 fit counted them in

---
 src/pyhipp/plot/two_dim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/plot/two_dim.py b/src/pyhipp/plot/two_dim.py
index 30fc479..72bfac5 100644
--- a/src/pyhipp/plot/two_dim.py
+++ b/src/pyhipp/plot/two_dim.py
@@ -83,8 +83,10 @@ class Histogram2D(DensityEstimator2D):
     def on(self, x: np.ndarray, y: np.ndarray) -> np.ndarray:
         x_e, y_e = self.x_e, self.y_e
         n_x, n_y = len(x_e) - 1, len(y_e) - 1
-        x_id = np.searchsorted(self.x_e, x) - 1
-        y_id = np.searchsorted(self.y_e, y) - 1
+        x_id = np.searchsorted(self.x_e, x, side='right') - 1
+        y_id = np.searchsorted(self.y_e, y, side='right') - 1
+        # as in fit(), the last bins include their right edges
+        x_id, y_id = x_id - (x == x_e[-1]), y_id - (y == y_e[-1])
         _x_id, _y_id = np.clip(x_id, 0, n_x-1), np.clip(y_id, 0, n_y-1)
         z = self.z[_x_id, _y_id]
         if self.out_of_range == 'zero':
-- 
2.43.0


From dcdc19d77c2969e921f07e22613cffdbe552b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 25/40] fix: Axes.leg no longer maps valid locations to invalid
 ones

---
 src/pyhipp/plot/axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/plot/axes.py b/src/pyhipp/plot/axes.py
index 2fa6016..a4ec8fe 100644
--- a/src/pyhipp/plot/axes.py
+++ b/src/pyhipp/plot/axes.py
@@ -405,7 +405,7 @@ class Axes(MplObj[mpl_axes.Axes]):
             'r': 'right',
             'lr': 'lower right', 'll': 'lower left', 'cl': 'center left',
             'ur': 'upper right', 'ul': 'upper left', 'uc': 'upper center',
-            'center left': 'cl', 'center right': 'cr', 'c': 'center',
+            'cr': 'center right', 'c': 'center',
         }
         loc = loc_map.get(loc, loc)
 
-- 
2.43.0


From 2d2632b40e5f3f2392404fe9078ee29704f67f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 26/40] fix: Axes.errorfill accepts yerr=None

---
 src/pyhipp/plot/axes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyhipp/plot/axes.py b/src/pyhipp/plot/axes.py
index a4ec8fe..7b52c05 100644
--- a/src/pyhipp/plot/axes.py
+++ b/src/pyhipp/plot/axes.py
@@ -300,9 +300,11 @@ class Axes(MplObj[mpl_axes.Axes]):
         @fill_label:
             passed to plot() and fill_between(), respectively.
         '''
+        self.plot(x, y, label=label, **plot_kw)
         if yerr is None:
-            ylo = yhi = None
-        elif np.isscalar(yerr):
+            return self
+
+        if np.isscalar(yerr):
             ylo = yhi = yerr
         else:
             yerr = np.asarray(yerr)
@@ -313,8 +315,6 @@ class Axes(MplObj[mpl_axes.Axes]):
         y = np.asarray(y)
         ylo, yhi = y - ylo, y + yhi
 
-        self.plot(x, y, label=label, **plot_kw)
-
         kw = {'label': fill_label}
         kw |= fill_between_kw
         self.fill_between(x, ylo, yhi, **kw)
-- 
2.43.0


From d75e509353a6e666441018e5aa8d601d31c90262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 27/40] fix: add_secondary_identical_axis passes two functions

---
 src/pyhipp/astro/plot/shortcuts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyhipp/astro/plot/shortcuts.py b/src/pyhipp/astro/plot/shortcuts.py
index 06a82fb..8a3e60e 100644
--- a/src/pyhipp/astro/plot/shortcuts.py
+++ b/src/pyhipp/astro/plot/shortcuts.py
@@ -53,9 +53,8 @@ class Axes:
     def add_secondary_identical_axis(
             self, location='top', ticks=None, label=None, hide_first_ticks=True,
             **mpl_axes_kw):
-        def fn(x): return x, lambda x: x
         return self.add_secondary_axis(
-            *fn, location=location, ticks=ticks, label=label,
+            lambda x: x, lambda x: x, location=location, ticks=ticks, label=label,
             hide_first_ticks=hide_first_ticks, **mpl_axes_kw)
 
     def add_secondary_axis_interp(
-- 
2.43.0


From 3f4786b54799f824abfc8016afe9fcf4987ea24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 28/40] fix: AttrManager.create_empty creates the attribute
 (h5py requires data)

---
 src/pyhipp/io/h5/named_objs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/h5/named_objs.py b/src/pyhipp/io/h5/named_objs.py
index c61305e..da23658 100644
--- a/src/pyhipp/io/h5/named_objs.py
+++ b/src/pyhipp/io/h5/named_objs.py
@@ -82,7 +82,7 @@ class AttrManager(Obj):
             if flag == 'x':
                 raise ValueError(f'Redundant key {key}')
         else:
-            self._raw.create(key, shape=shape, dtype=dtype)
+            self._raw.create(key, data=np.zeros(shape, dtype=dtype))
 
     def keys(self) -> KeyList:
         return KeyList(self.__keys())
-- 
2.43.0


From c35b5c871c8cbefd1084957dd5f73d4e70148bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 29/40] fix: Hist1D.from_overlapped_bins returns the sub-bin
 histogram as sub_h

---
 src/pyhipp/stats/binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index 80a5f0e..602def5 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -116,7 +116,7 @@ class Hist1D:
         h = Bin.combine_adjacent_bins(_h, sub_bins)
         
         return DataDict({'x': x, 'dx': dx, 'h': h, 
-                         'sub_e': _e, 'sub_h': h}) 
+                         'sub_e': _e, 'sub_h': _h}) 
 
         
 class Bins(abc.HasSimpleRepr, abc.IsImmutable):
-- 
2.43.0


From 1b47b2486e9345ffbd39b6ef8db69799377681a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 30/40] fix: IndexArray checks its own last dimension

---
 src/pyhipp/core/arrays/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/arrays/array.py b/src/pyhipp/core/arrays/array.py
index facc840..863127d 100644
--- a/src/pyhipp/core/arrays/array.py
+++ b/src/pyhipp/core/arrays/array.py
@@ -126,5 +126,5 @@ class IndexArray(IntArray):
         self.shape_indexed = Shape(shape_indexed)
         
         assert self.n_dims == 2
-        assert self.shape[-1] == len(self.shape_indexed)
+        assert self._impl.shape[-1] == len(self.shape_indexed)
 
-- 
2.43.0


From 1b09494e8bdefd50ebd065364164adb2aff32ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 31/40] fix: Sum, Mean and StdDev ignore masked nan and
 infinite samples

---
 src/pyhipp/stats/reduction.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index 5f9009f..fb3d8f9 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -121,13 +121,10 @@ class Sum(Reduce):
 
     def _impl(self, x: np.ndarray, weight: np.ndarray = None,
               mask: np.ndarray = None) -> np.ndarray:
-        if weight is None:
-            w_tot = mask
-        else:
-            w_tot = weight if mask is None else weight * mask
-
-        if w_tot is not None:
-            x = x * w_tot
+        if weight is not None:
+            x = x * weight
+        if mask is not None:
+            x = np.where(mask, x, 0)
 
         out = x.sum(-1)
         return np.asarray(out)
-- 
2.43.0


From ecea87e973d4ad680accbbf10be1a66e6218e3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 32/40] fix: Standardize keeps sd_lb, so that it can be printed

---
 src/pyhipp/stats/preprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyhipp/stats/preprocessing.py b/src/pyhipp/stats/preprocessing.py
index 143e059..05d4215 100644
--- a/src/pyhipp/stats/preprocessing.py
+++ b/src/pyhipp/stats/preprocessing.py
@@ -39,6 +39,7 @@ class Standardize(Preprocess):
         
         self.mean = mean
         self.sd = sd
+        self.sd_lb = sd_lb
         
     def _impl_forward(self, x: np.ndarray) -> np.ndarray:
         return (x - self.mean) / self.sd
-- 
2.43.0


From 8a12d2c90a4f8fa4726b5c8363e44b23ff80af35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 33/40] fix: Bootstrap accepts one-shot iterables of data sets

---
 src/pyhipp/stats/sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyhipp/stats/sampling.py b/src/pyhipp/stats/sampling.py
index dff2bc7..d774540 100644
--- a/src/pyhipp/stats/sampling.py
+++ b/src/pyhipp/stats/sampling.py
@@ -23,6 +23,9 @@ class Bootstrap:
     ) -> DataDict:
 
         rng = Rng(rng)
+        dsets_in = list(dsets_in)
+        if dsets_max_sizes is not None:
+            dsets_max_sizes = list(dsets_max_sizes)
 
         dsets_out: List[Mapping] = []
         for _ in range(n_resample):
-- 
2.43.0


From 61c0ef88febd770ebd4fd962a0d75a692b49edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 34/40] fix: Tophat.volume accepts max_radius=None

---
 src/pyhipp/stats/kernel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/stats/kernel.py b/src/pyhipp/stats/kernel.py
index b5fce49..644ef9d 100644
--- a/src/pyhipp/stats/kernel.py
+++ b/src/pyhipp/stats/kernel.py
@@ -51,9 +51,10 @@ class Tophat(Kernal):
         return out
     
     def volume(self, n_dims: int, max_radius: float) -> float:
+        radius = self.radius
         if max_radius is not None:
-            max_radius = min(max_radius, self.radius)
-        return self._ball_volume(n_dims, max_radius)
+            radius = min(max_radius, radius)
+        return self._ball_volume(n_dims, radius)
     
     @staticmethod
     def _ball_volume(n_dims: int, radius: float) -> float:
-- 
2.43.0


From 43039632f6fcb91c887b817038d8114e2a035312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 35/40] fix: Axes.grid passes only the line properties it is
 given

---
 src/pyhipp/plot/axes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyhipp/plot/axes.py b/src/pyhipp/plot/axes.py
index 7b52c05..8719ba3 100644
--- a/src/pyhipp/plot/axes.py
+++ b/src/pyhipp/plot/axes.py
@@ -62,9 +62,11 @@ class Axes(MplObj[mpl_axes.Axes]):
     def grid(self, visible=True, which='major', axis='both',
              lw=None, ls=None, c=None, **mpl_grid_kw):
 
-        kw = dict(which=which, axis=axis, visible=visible,
-                  lw=lw, ls=ls, c=c, **mpl_grid_kw
-                  )
+        kw = dict(which=which, axis=axis, visible=visible, **mpl_grid_kw)
+        # matplotlib takes any line property, even None, as a request to
+        # enable the grid.
+        kw |= {k: v for k, v in dict(lw=lw, ls=ls, c=c).items()
+               if v is not None}
         self._raw.grid(**kw)
 
         return self
-- 
2.43.0


From 9b55c8f89815c7f24436fee2e52f5344fcf02eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 36/40] fix: HaloTheory.mass_function no longer writes into the
 caller's (or the default) impl_kw

---
 src/pyhipp/astro/cosmology/halo_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/astro/cosmology/halo_theory.py b/src/pyhipp/astro/cosmology/halo_theory.py
index f3177a8..7137862 100644
--- a/src/pyhipp/astro/cosmology/halo_theory.py
+++ b/src/pyhipp/astro/cosmology/halo_theory.py
@@ -179,7 +179,7 @@ class HaloTheory(HasSimpleRepr, IsImmutable):
             raise ValueError(f'Unknown mass_def: {mass_def}')
         
         from hmf import MassFunction
-        impl_kw |= {
+        impl_kw = impl_kw | {
             'Mmin': lgM_min + 10.0,                     # lg M, [Msun/h]
             'Mmax': lgM_max + 10.0 + dlgM * 0.001,
             'dlog10m': dlgM,
-- 
2.43.0


From abeffdcebf530d1c613545a8571dcf2e361f680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 37/40] fix: k-nearest regression no longer defaults to the
 dual-tree search, which misses neighbours when distances are tied

---
 src/pyhipp/stats/regression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/regression.py b/src/pyhipp/stats/regression.py
index f233c13..eb1d5f7 100644
--- a/src/pyhipp/stats/regression.py
+++ b/src/pyhipp/stats/regression.py
@@ -59,7 +59,8 @@ class _KnnRegression(_Regression):
         y_tr, w_tr = self._y, self._weight
 
         x = self._cvt_x_shape(x)
-        impl_query_kw = {'dualtree': True, **impl_query_kw}
+        # The dual-tree search may miss neighbors if distances are tied.
+        impl_query_kw = {'dualtree': False, **impl_query_kw}
         ds, ids = self._impl.query(
             x, k=k, return_distance=True, **impl_query_kw)
 
-- 
2.43.0


From 0286f47e4c99f2350056a6930acc74a3a75b31ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 38/40] fix: weighted quantile no longer depends on the order
 of equal samples

---
 src/pyhipp/stats/reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index fb3d8f9..c8cec3e 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -209,7 +209,8 @@ class Quantile(Reduce):
     def _impl_with_weight(
             self, x: np.ndarray, weight: np.ndarray) -> np.ndarray:
         if self.sort:
-            idx = np.argsort(x)
+            # equal samples in a definite order, whatever the input order
+            idx = np.lexsort((weight, x))
             x, weight = x[idx], weight[idx]
         cdf = np.cumsum(weight)
         qs = np.interp(self.ps, cdf, x)
-- 
2.43.0


From d09688c6fd6bd205c9cff03fc9553fbbb4185b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 39/40] fix: Quantile keeps its fill value for integer
 probabilities

---
 src/pyhipp/stats/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index c8cec3e..2590fa6 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -194,7 +194,7 @@ class Quantile(Reduce):
 
         if isinstance(ps, str):
             ps = self.ps_map[ps]
-        ps = np.array(ps)
+        ps = np.array(ps, dtype=float)
 
         _empty_fill = np.empty_like(ps)
         _empty_fill[...] = empty_fill
-- 
2.43.0


From e069df7d6f04a011574f05e809b2ef545f072457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 40/40] fix: deposit particles given in non-native byte order

---
 src/pyhipp/field/cubic_box/mass_assignment.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyhipp/field/cubic_box/mass_assignment.py b/src/pyhipp/field/cubic_box/mass_assignment.py
index 28bb63d..0e43d56 100644
--- a/src/pyhipp/field/cubic_box/mass_assignment.py
+++ b/src/pyhipp/field/cubic_box/mass_assignment.py
@@ -137,6 +137,13 @@ class DensityField(abc.HasLog):
             assert weights.ndim == 1
         assert xs.ndim == 2 and xs.shape[1] == 3
 
+        # the compiled assignment reads byte-swapped arrays (e.g. big-endian
+        # ones loaded from a file) as garbage
+        xs = xs.astype(xs.dtype.newbyteorder('='), copy=False)
+        if weights is not None:
+            weights = weights.astype(
+                weights.dtype.newbyteorder('='), copy=False)
+
         self._ma.add(xs, weights)
 
     def dump(self, group: h5.Group, flag='x'):
-- 
2.43.0

