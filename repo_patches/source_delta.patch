From 19f72d070c1133e8b7ce74375578468303164714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 01/17] fix: chord lengths of an empty curve are empty, not
 uninitialised memory

---
 skcurve/_diffgeom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 9265fff..365adab 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -86,7 +86,7 @@ def chordlen(curve: 'Curve') -> np.ndarray:
     """
 
     if not curve:
-        return np.ndarray([], dtype=np.float64)
+        return np.array([], dtype=np.float64)
 
     return np.sqrt(np.sum((np.diff(curve.data, axis=0))**2, axis=1))
 
-- 
2.43.0


From 6b7b8a602fd475fce7d9bdf22dfabe890f51e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 02/17] fix: normalize a copy of the smoothing window, not the
 caller's array

---
 skcurve/_smooth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index b71e98f..87b9674 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -167,7 +167,8 @@ def window_filter(curve: 'Curve',
     else:
         window = windows.get_window(window_type, window_size, fftbins=False)
 
-    window /= window.sum()
+    # The window belongs to the caller: do not normalize it in-place
+    window = window / window.sum()
 
     return ndimage.convolve1d(
         curve.data,
-- 
2.43.0


From 66ac06ccab0daa45c00f6e95bb4b27c68d30e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 03/17] fix: refuse negative point and segment indices out of
 the curve

---
 skcurve/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 78ab123..4339a64 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -403,6 +403,8 @@ class CurvePoint(Point, _diffgeom.CurvePointFunctionMixin):
     def __init__(self, curve: 'Curve', index: int):
         if index < 0:
             index = curve.size + index
+        if index < 0:
+            raise IndexError(f'The index is out of bounds for curve size {curve.size}')
 
         self._curve = curve
         self._idx = index
@@ -929,7 +931,7 @@ class CurveSegment(Segment):
     def __init__(self, curve: 'Curve', index: int) -> None:
         if index < 0:
             index = (curve.size - 1) + index
-        if index >= (curve.size - 1):
+        if index < 0 or index >= (curve.size - 1):
             raise ValueError('The index is out of curve size')
 
         self._curve = curve
-- 
2.43.0


From 3610477cd9c6cd6307da11c90d673a2d3aeae175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 04/17] fix: do not warn in coorientplane for co-oriented
 parametric curves

---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 4339a64..73fb264 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1692,7 +1692,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         if not is_coorient:
             return self.reverse()
         else:
-            return Curve(self, tdata=self._tdata)
+            return Curve(self)
 
     def insert(self, index: Indexer, other: PointCurveUnion) -> 'Curve':
         """Inserts point or sub-curve to the curve and returns new curve
-- 
2.43.0


From 703db2191b6dd49450e0e578f785cb6761b4adcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 05/17] fix: refuse interpolation grids with NaN values

---
 skcurve/_interpolate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index ba10931..4e70dd6 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -355,6 +355,9 @@ class InterpolatorBase:
         if not np.issubdtype(grid.dtype, np.number):
             raise ValueError(f'Invalid dtype {grid.dtype} of interpolation grid')
 
+        if np.any(np.isnan(grid)):
+            raise ValueError('The interpolation grid should not contain NaN values.')
+
         dt = np.diff(grid)
 
         if np.any(dt < 0) or np.any(np.isclose(dt, 0)):
-- 
2.43.0


From ff496d3630c9099be92761822af225258d592061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 06/17] fix: compute almost intersections of integer curves
 with floating point parameters

---
 skcurve/_geomalg.py |  6 +++++-
 skcurve/_numeric.py | 20 ++++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index e7284d0..775b952 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -12,7 +12,7 @@ import typing as ty
 import numpy as np
 
 import skcurve._base
-from skcurve._numeric import F_EPS
+from skcurve._numeric import F_EPS, as_inexact
 
 if ty.TYPE_CHECKING:
     from skcurve._base import Point, Segment  # noqa
@@ -469,6 +469,10 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
 
     """
 
+    # Integer data cannot represent t-parameters (and unsigned data cannot represent differences)
+    data1 = as_inexact(data1)
+    data2 = as_inexact(data2)
+
     m1 = data1.shape[0] - 1
     m2 = data2.shape[0] - 1
 
diff --git a/skcurve/_numeric.py b/skcurve/_numeric.py
index 104b529..c6b90fa 100644
--- a/skcurve/_numeric.py
+++ b/skcurve/_numeric.py
@@ -12,6 +12,26 @@ import numpy as np
 F_EPS = np.finfo(np.float64).eps
 
 
+def as_inexact(data: np.ndarray) -> np.ndarray:
+    """Returns the data itself if it is floating point (or complex) data, the float64 copy of the data otherwise
+
+    Parameters
+    ----------
+    data : np.ndarray
+        The data array
+
+    Returns
+    -------
+    data : np.ndarray
+        The data array with inexact data type
+
+    """
+
+    if np.issubdtype(data.dtype, np.inexact):
+        return data
+    return data.astype(np.float64)
+
+
 def isequal(obj1: np.ndarray, obj2: np.ndarray, **kwargs) -> np.ndarray:
     """Returns a boolean array where two arrays are element-wise equal
 
-- 
2.43.0


From 2bbd1186c896a5d7d6e001c9cd399478f88a3a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 07/17] fix: lengths and planarity of integer curves do not
 overflow or wrap around

---
 skcurve/_diffgeom.py | 4 ++--
 skcurve/_geomalg.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 365adab..8cfad09 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -23,7 +23,7 @@ import numpy as np
 
 from cached_property import cached_property
 
-from skcurve._numeric import dot1d
+from skcurve._numeric import as_inexact, dot1d
 import skcurve._base
 
 if ty.TYPE_CHECKING:
@@ -88,7 +88,7 @@ def chordlen(curve: 'Curve') -> np.ndarray:
     if not curve:
         return np.array([], dtype=np.float64)
 
-    return np.sqrt(np.sum((np.diff(curve.data, axis=0))**2, axis=1))
+    return np.sqrt(np.sum((np.diff(as_inexact(curve.data), axis=0))**2, axis=1))
 
 
 def arclen(curve: 'Curve') -> float:
diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 775b952..05c20c1 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -247,7 +247,7 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
     """
 
     if isinstance(points, np.ndarray):
-        points_data = np.array(points)
+        points_data = np.array(as_inexact(points))
     else:
         points_data = np.vstack([point.data for point in points])
 
-- 
2.43.0


From 1f7f208851669096a31ecc81ec82eb6b330d7db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 08/17] fix: smoothed curves are float64 curves, also for
 integer and float32 curves

---
 skcurve/_smooth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index 87b9674..5232fb2 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -173,6 +173,7 @@ def window_filter(curve: 'Curve',
     return ndimage.convolve1d(
         curve.data,
         weights=window,
+        output=np.float64,
         mode=mode,
         cval=cval,
         axis=0,
@@ -217,4 +218,4 @@ def smooth(curve: 'Curve', method: str, **params) -> 'Curve':
     except Exception as err:
         raise SmoothingError(f'Smoothing has failed: {err}') from err
 
-    return type(curve)(smoothed_data)
+    return type(curve)(smoothed_data, dtype=np.float64)
-- 
2.43.0


From 31f209a1d417daa69c6cd2cab9bf7bbd1242ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 09/17] fix: serialize registration of methods and return the
 decorated object

---
 skcurve/_interpolate.py |  5 +++++
 skcurve/_intersect.py   |  6 ++++++
 skcurve/_smooth.py      |  6 ++++++
 skcurve/_utils.py       | 21 +++++++++++++++++++++
 4 files changed, 38 insertions(+)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 4e70dd6..3323db1 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -17,6 +17,7 @@ The following interpolation methods are available out of the box:
 
 import typing as ty
 from collections import abc
+import threading
 import warnings
 
 import numpy as np
@@ -24,12 +25,14 @@ import scipy.interpolate as interp
 import csaps
 
 from skcurve._numeric import linrescale
+from skcurve._utils import synchronized
 
 if ty.TYPE_CHECKING:
     from skcurve._base import Curve  # noqa
 
 
 _interpolators = {}  # type: ty.Dict[str, ty.Type['InterpolatorBase']]
+_register_lock = threading.RLock()
 
 
 InterpGridSpecType = ty.Union[
@@ -391,12 +394,14 @@ def register_interpolator(method: str):
 
     """
 
+    @synchronized(_register_lock)
     def decorator(cls: ty.Type[InterpolatorBase]):
         if method in _interpolators:
             raise ValueError(f"'{method}' interpolation method already registered for {_interpolators[method]}")
         if not issubclass(cls, InterpolatorBase):
             raise TypeError(f"{cls} is not a subclass of 'InterpolatorBase'")
         _interpolators[method] = cls
+        return cls
     return decorator
 
 
diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index bf51f66..14e429f 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -19,6 +19,7 @@ import typing_extensions as ty_ext
 
 import abc
 import enum
+import threading
 import warnings
 
 import numpy as np
@@ -28,6 +29,7 @@ from scipy.spatial.distance import pdist, squareform
 import skcurve._base
 from skcurve import _geomalg
 from skcurve._numeric import F_EPS
+from skcurve._utils import synchronized
 
 if ty.TYPE_CHECKING:
     from skcurve._base import Point, Segment, Curve  # noqa
@@ -35,6 +37,7 @@ if ty.TYPE_CHECKING:
 
 _intersect_methods = {}  # type: ty.Dict[str, ty.Type['IntersectionMethodBase']]
 _default_intersect_method = None  # type: ty.Optional[str]
+_register_lock = threading.RLock()
 
 
 class IntersectionWarning(UserWarning):
@@ -425,6 +428,7 @@ def register_intersect_method(method: str, default: bool = False):
 
     """
 
+    @synchronized(_register_lock)
     def decorator(cls: ty.Type[IntersectionMethodBase]):
         if method in _intersect_methods:
             raise ValueError(f"'{method}' intersect method already registered for {_intersect_methods[method]}")
@@ -435,6 +439,8 @@ def register_intersect_method(method: str, default: bool = False):
         if default:
             set_default_intersect_method(method)
 
+        return cls
+
     return decorator
 
 
diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index 5232fb2..2a5ba79 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -5,6 +5,7 @@ This module provides routines for smoothing n-dimensional curves
 
 """
 
+import threading
 import typing as ty
 import typing_extensions as ty_ext
 import collections.abc as abc
@@ -14,11 +15,14 @@ import scipy.signal as signal
 import scipy.signal.windows as windows
 import scipy.ndimage as ndimage
 
+from skcurve._utils import synchronized
+
 if ty.TYPE_CHECKING:
     from skcurve._base import Curve  # noqa
 
 
 _smooth_methods = {}  # type: ty.Dict[str, 'SmoothingMethod']
+_register_lock = threading.RLock()
 
 
 class SmoothingError(Exception):
@@ -66,11 +70,13 @@ def register_smooth_method(method: str):
 
     """
 
+    @synchronized(_register_lock)
     def decorator(method_callable: SmoothingMethod):
         if method in _smooth_methods:
             raise ValueError(
                 f"'{method}' smoothing method already registered for {_smooth_methods[method]}")
         _smooth_methods[method] = method_callable
+        return method_callable
 
     return decorator
 
diff --git a/skcurve/_utils.py b/skcurve/_utils.py
index e6bedc2..6a60f40 100644
--- a/skcurve/_utils.py
+++ b/skcurve/_utils.py
@@ -1,8 +1,29 @@
 # -*- coding: utf-8 -*-
 
+import functools
+
 import numpy as np
 
 
+def synchronized(lock):
+    """Returns the decorator which runs a function with holding the given lock
+
+    Parameters
+    ----------
+    lock : threading.Lock, threading.RLock
+        The lock object
+
+    """
+
+    def decorator(func):
+        @functools.wraps(func)
+        def wrapper(*args, **kwargs):
+            with lock:
+                return func(*args, **kwargs)
+        return wrapper
+    return decorator
+
+
 def as2d(arr: np.ndarray, axis: int) -> np.ndarray:
     """Transforms the shape of N-D array-like to 2-D MxN array
 
-- 
2.43.0


From cb071b79f36623740da6780d8d35227dcbb9b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 10/17] fix: derived arrays of a curve are read-only

---
 skcurve/_base.py     |  6 +++---
 skcurve/_diffgeom.py |  4 ++--
 skcurve/_numeric.py  | 19 +++++++++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 73fb264..235937e 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -31,7 +31,7 @@ import skcurve._geomalg as _geomalg
 import skcurve._intersect as _intersect
 import skcurve._interpolate as _interpolate
 import skcurve._smooth as _smooth
-from skcurve._numeric import allequal, F_EPS
+from skcurve._numeric import allequal, readonly, F_EPS
 from skcurve._utils import as2d
 
 
@@ -1606,7 +1606,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         """
 
-        return _diffgeom.chordlen(self)
+        return readonly(_diffgeom.chordlen(self))
 
     @cached_property
     def arclen(self) -> float:
@@ -1636,7 +1636,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         """
 
-        return np.array([CurveSegment(self, idx) for idx in range(self.size - 1)], dtype=np.object)
+        return readonly(np.array([CurveSegment(self, idx) for idx in range(self.size - 1)], dtype=np.object))
 
     def reverse(self) -> 'Curve':
         """Reverses the curve
diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 8cfad09..3069ef1 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -23,7 +23,7 @@ import numpy as np
 
 from cached_property import cached_property
 
-from skcurve._numeric import as_inexact, dot1d
+from skcurve._numeric import as_inexact, dot1d, readonly
 import skcurve._base
 
 if ty.TYPE_CHECKING:
@@ -210,7 +210,7 @@ def _maybe_curve_point(func):
     def wrapper(obj):
         if isinstance(obj, skcurve._base.CurvePoint):
             return getattr(obj.curve, func.__name__)[obj.idx]
-        return func(obj)
+        return readonly(func(obj))
     return wrapper
 
 
diff --git a/skcurve/_numeric.py b/skcurve/_numeric.py
index c6b90fa..1af7049 100644
--- a/skcurve/_numeric.py
+++ b/skcurve/_numeric.py
@@ -32,6 +32,25 @@ def as_inexact(data: np.ndarray) -> np.ndarray:
     return data.astype(np.float64)
 
 
+def readonly(data: np.ndarray) -> np.ndarray:
+    """Forbids in-place changes of the given array and returns the array
+
+    Parameters
+    ----------
+    data : np.ndarray
+        The data array
+
+    Returns
+    -------
+    data : np.ndarray
+        The same data array with read-only flag
+
+    """
+
+    data.flags.writeable = False
+    return data
+
+
 def isequal(obj1: np.ndarray, obj2: np.ndarray, **kwargs) -> np.ndarray:
     """Returns a boolean array where two arrays are element-wise equal
 
-- 
2.43.0


From 6a4ce5e5ff8b05e1f73a709ac2d5235d17a55402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 11/17] fix: text representations do not touch process-wide
 print options

---
 skcurve/_base.py  | 25 ++++++++++---------------
 skcurve/_utils.py | 22 ++++++++++++++++++++++
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 235937e..8af18da 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -32,7 +32,7 @@ import skcurve._intersect as _intersect
 import skcurve._interpolate as _interpolate
 import skcurve._smooth as _smooth
 from skcurve._numeric import allequal, readonly, F_EPS
-from skcurve._utils import as2d
+from skcurve._utils import as2d, format_array
 
 
 Numeric = ty.Union[numbers.Number, np.number]
@@ -151,8 +151,7 @@ class Point(abc.Sequence):
         self._data.flags.writeable = False
 
     def __repr__(self) -> str:
-        with np.printoptions(suppress=True, precision=DATA_FORMAT_PRECISION):
-            data_str = f'{self._data}'
+        data_str = format_array(self._data, suppress_small=True, precision=DATA_FORMAT_PRECISION)
         return f'{type(self).__name__}({data_str}, ndim={self.ndim}, dtype={self._data.dtype})'
 
     def __len__(self) -> int:
@@ -412,8 +411,7 @@ class CurvePoint(Point, _diffgeom.CurvePointFunctionMixin):
         super().__init__(curve.data[index])
 
     def __repr__(self):
-        with np.printoptions(suppress=True, precision=DATA_FORMAT_PRECISION):
-            data_str = f'{self._data}'
+        data_str = format_array(self._data, suppress_small=True, precision=DATA_FORMAT_PRECISION)
         return f'{type(self).__name__}({data_str}, index={self.idx})'
 
     def __copy__(self) -> 'CurvePoint':
@@ -523,9 +521,8 @@ class Segment:
         self._p2 = p2
 
     def __repr__(self) -> str:
-        with np.printoptions(suppress=True, precision=DATA_FORMAT_PRECISION):
-            p1_data = f'{self._p1.data}'
-            p2_data = f'{self._p2.data}'
+        p1_data = format_array(self._p1.data, suppress_small=True, precision=DATA_FORMAT_PRECISION)
+        p2_data = format_array(self._p2.data, suppress_small=True, precision=DATA_FORMAT_PRECISION)
         return f'{type(self).__name__}(p1={p1_data}, p2={p2_data})'
 
     def __eq__(self, other: object) -> bool:
@@ -943,9 +940,8 @@ class CurveSegment(Segment):
         super().__init__(p1, p2)
 
     def __repr__(self) -> str:
-        with np.printoptions(suppress=True, precision=DATA_FORMAT_PRECISION):
-            p1_data = f'{self._p1.data}'
-            p2_data = f'{self._p2.data}'
+        p1_data = format_array(self._p1.data, suppress_small=True, precision=DATA_FORMAT_PRECISION)
+        p2_data = format_array(self._p2.data, suppress_small=True, precision=DATA_FORMAT_PRECISION)
         return f'{type(self).__name__}(p1={p1_data}, p2={p2_data}, index={self._idx})'
 
     @property
@@ -1172,10 +1168,9 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
     def __repr__(self) -> str:
         name = type(self).__name__
 
-        with np.printoptions(suppress=True, precision=DATA_FORMAT_PRECISION,
-                             edgeitems=4, threshold=10*self.ndim):
-            arr_repr = f'{self._data}'
-            arr_repr = textwrap.indent(arr_repr, ' ' * (len(name) + 1)).strip()
+        arr_repr = format_array(self._data, suppress_small=True, precision=DATA_FORMAT_PRECISION,
+                                edgeitems=4, threshold=10*self.ndim)
+        arr_repr = textwrap.indent(arr_repr, ' ' * (len(name) + 1)).strip()
         return f'{name}({arr_repr}, size={self.size}, ndim={self.ndim}, dtype={self.dtype})'
 
     def __len__(self) -> int:
diff --git a/skcurve/_utils.py b/skcurve/_utils.py
index 6a60f40..26d2ddc 100644
--- a/skcurve/_utils.py
+++ b/skcurve/_utils.py
@@ -24,6 +24,28 @@ def synchronized(lock):
     return decorator
 
 
+def format_array(arr: np.ndarray, **options) -> str:
+    """Formats an array without changing process-wide print options
+
+    Parameters
+    ----------
+    arr : np.ndarray
+        The array
+    options : mapping
+        Additional options for `numpy.array2string`
+
+    Returns
+    -------
+    string : str
+        The same string as ``str(arr)`` inside of the context manager `numpy.printoptions`
+
+    """
+
+    if arr.ndim == 0:
+        return f'{arr}'
+    return np.array2string(arr, separator=' ', prefix='', formatter={}, **options)
+
+
 def as2d(arr: np.ndarray, axis: int) -> np.ndarray:
     """Transforms the shape of N-D array-like to 2-D MxN array
 
-- 
2.43.0


From 3e3d69949e36f597276cea56dc9be64dd145b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 12/17] fix: restored points and curves are immutable

---
 skcurve/_base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 8af18da..2a9209e 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -276,6 +276,12 @@ class Point(abc.Sequence):
     def __deepcopy__(self, memodict: ty.Optional[dict] = None) -> 'Point':
         return Point(self)
 
+    def __setstate__(self, state) -> None:
+        # numpy does not restore the read-only flag of arrays
+        for attrs in state:
+            for name, value in (attrs or {}).items():
+                setattr(self, name, readonly(value) if isinstance(value, np.ndarray) else value)
+
     @property
     def data(self) -> np.ndarray:
         """Returns the point data as numpy array
@@ -1348,6 +1354,11 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
     def __deepcopy__(self, memodict: ty.Optional[dict] = None) -> 'Curve':
         return Curve(self)
 
+    def __setstate__(self, state: dict) -> None:
+        # numpy does not restore the read-only flag of arrays
+        for name, value in state.items():
+            setattr(self, name, readonly(value) if isinstance(value, np.ndarray) else value)
+
     def index(self, point: Point, start: ty.Optional[int] = None, end: ty.Optional[int] = None) -> int:
         """Returns the first index for given point in the curve
 
-- 
2.43.0


From f434eabd9e6f5e18fad8de4152f8bbe8c08ad575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:02 +0000
Subject: [PATCH 13/17] fix: refuse indices out of the curve in a sequence of
 indices for insertion

---
 skcurve/_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 2a9209e..6e32929 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1766,6 +1766,13 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
             raise TypeError('Inserted object must be Point or Curve instance')
 
         try:
+            # "numpy.insert" wraps around too negative values in a sequence of indices
+            # and may raise TypeError for a single value which is too large
+            if not isinstance(index, slice):
+                indices = np.asarray(index)
+                if np.any((indices < -self.size) | (indices > self.size)):
+                    raise IndexError('The index is out of bounds')
+
             return Curve(
                 np.insert(self._data, index, other_data, axis=0)
             )
-- 
2.43.0


From 860725825c139e2c5acc37a19e1d7275090b45cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 14/17] fix: Akima interpolation of two points does not use
 uninitialised memory

---
 skcurve/_interpolate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 3323db1..753ac28 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -532,7 +532,13 @@ class AkimaInterpolator(InterpolatorBase):
 
     def __init__(self, curve: 'Curve'):
         super().__init__(curve)
-        self.akima = interp.Akima1DInterpolator(curve.t, curve.data, axis=0)
+        if curve.size == 2:
+            # "Akima1DInterpolator" uses uninitialised memory to compute the slopes for two points.
+            # The curve is a straight line in this case.
+            self.akima = interp.PchipInterpolator(
+                curve.t, curve.data, axis=0, extrapolate=False)
+        else:
+            self.akima = interp.Akima1DInterpolator(curve.t, curve.data, axis=0)
 
     def _interpolate(self, grid: np.ndarray) -> np.ndarray:
         return self.akima(grid)
-- 
2.43.0


From 26424e58b58eb360e035575c1c51551fb1d3a8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 15/17] fix: index of a point found after a start before the
 beginning of the curve

---
 skcurve/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 6e32929..f02bd5a 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1400,7 +1400,8 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         indices = np.flatnonzero(is_close)
 
         if start:
-            indices += start
+            # A negative start counts from the end of the curve
+            indices += slice(start, end).indices(self.size)[0]
 
         return indices[0]
 
-- 
2.43.0


From b7a42af5643550977f8fc0309018d0d065ef836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 16/17] fix: an empty curve has no cumulative arc lengths

---
 skcurve/_diffgeom.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 3069ef1..ba79cc5 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -237,6 +237,9 @@ class CurvePointFunctionMixin:
 
         """
 
+        if not self:
+            return np.array([], dtype=np.float64)
+
         return np.hstack((0.0, np.cumsum(self.chordlen)))
 
     @cached_property
-- 
2.43.0


From a9c5ab20464cf3a221514afd13aff04407e7c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 17/17] fix: copies of a point keep its number type

---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index f02bd5a..5d874b3 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -274,7 +274,7 @@ class Point(abc.Sequence):
         return self.__deepcopy__()
 
     def __deepcopy__(self, memodict: ty.Optional[dict] = None) -> 'Point':
-        return Point(self)
+        return Point(self, dtype=self._data.dtype)
 
     def __setstate__(self, state) -> None:
         # numpy does not restore the read-only flag of arrays
-- 
2.43.0

