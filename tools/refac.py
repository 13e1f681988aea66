"""Edits of /repo that keep its behaviour; the checks have to stay quiet on them.

refac.py [-w WALL] [-s SEED] [-p 'C01 C02'] [ID...]: for each: a scratch copy is changed, the tests have to pass on it, and
every check (or those of -p) runs against it for WALL seconds."""
import argparse, os, re, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')
B='skcurve/_base.py'; D='skcurve/_diffgeom.py'; I='skcurve/_interpolate.py'; X='skcurve/_intersect.py'
S='skcurve/_smooth.py'; M='skcurve/_distance.py'; A='skcurve/_geomalg.py'; N='skcurve/_numeric.py'; U='skcurve/_utils.py'
P='skcurve/plot.py'; C='skcurve/curves.py'
REFS = []


def ref(id, *edits):
    REFS.append((id, edits))


ref('R01-diffgeom',
 (D, "    return np.sqrt(np.sum((np.diff(as_inexact(curve.data), axis=0))**2, axis=1))\n",
  "    data = as_inexact(curve.data)\n    d = data[1:] - data[:-1]\n    d *= d\n    return np.sqrt(d.sum(axis=1))\n"),
 (D, "    for edge_order in range(edge_order, 0, -1):\n        if m_rows < (edge_order + 1):\n",
  "    while edge_order > 0:\n        required = edge_order + 1\n        if m_rows < required:\n"),
 (D, "                DifferentialGeometryWarning)\n        else:\n            break\n    else:\n        warnings.warn('Cannot calc",
  "                DifferentialGeometryWarning)\n            edge_order -= 1\n        else:\n            break\n    else:\n        warnings.warn('Cannot calc"),
 (D, "    not_well_defined = np.isclose(norm, 0.0)\n    is_not_well_defined = np.any(not_well_defined)\n\n    if is_not_well_defined:\n        warnings.warn(warn_msg, DifferentialGeometryWarning, stacklevel=2)\n        norm[not_well_defined] = 1.0\n\n    return norm[:, np.newaxis]\n",
  "    bad = np.isclose(norm, 0.0)\n\n    if not bad.any():\n        return norm.reshape(-1, 1)\n\n    warnings.warn(warn_msg, DifferentialGeometryWarning, stacklevel=2)\n    return np.where(bad, 1.0, norm)[:, None]\n"),
)
ref('R02-maybe-point',
 (D, "    def wrapper(obj):\n        if isinstance(obj, skcurve._base.CurvePoint):\n            return getattr(obj.curve, func.__name__)[obj.idx]\n        return readonly(func(obj))\n    return wrapper\n",
  "    def wrapper(obj):\n        if not isinstance(obj, skcurve._base.CurvePoint):\n            result = func(obj)\n            return readonly(result)\n        curve, idx = obj.curve, obj.idx\n        return getattr(curve, name)[idx]\n    return wrapper\n"),
 (D, "def _maybe_curve_point(func):\n", "def _maybe_curve_point(func):\n    name = func.__name__\n\n"),
 (D, "        sder = curve.secondderiv\n        e1 = curve.frenet1\n\n        return sder - dot1d(sder, e1)[:, np.newaxis] * e1\n",
  "        e1 = curve.frenet1\n        sder = curve.secondderiv\n\n        return sder - _projection(sder, e1)\n"),
 (D, "        return tder - dot1d(tder, e1)[:, np.newaxis] * e1 - dot1d(tder, e2)[:, np.newaxis] * e2\n",
  "        res = tder - _projection(tder, e1)\n        return res - _projection(tder, e2)\n"),
 (D, "def _frenet_vector_norm(", "def _projection(v, e):\n    return dot1d(v, e)[:, np.newaxis] * e\n\n\ndef _frenet_vector_norm("),
 (N, "    return np.einsum('ij,ij->i', data1, data2)\n", "    return (data1 * data2).sum(axis=1)\n"),
)
ref('R03-own-cached-property',
 (B, "from cached_property import cached_property\n", "from skcurve._utils import cached_property\n"),
 (D, "from cached_property import cached_property\n", "from skcurve._utils import cached_property\n"),
 (U, "def synchronized(lock):\n", '''class cached_property:
    """Computes the value once and keeps it in the dictionary of the object
    """

    def __init__(self, func):
        self.func = func
        self.__doc__ = func.__doc__

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return obj.__dict__.setdefault(self.func.__name__, self.func(obj))


def synchronized(lock):
'''),
)
ref('R04-functools-cached-property',
 (B, "from cached_property import cached_property\n", "from functools import cached_property\n"),
 (D, "from cached_property import cached_property\n", "from functools import cached_property\n"),
)
ref('R05-locks-inside',
 (I, "    @synchronized(_register_lock)\n    def decorator(cls: ty.Type[InterpolatorBase]):\n        if method in _interpolators:\n            raise ValueError(f\"'{method}' interpolation method already registered for {_interpolators[method]}\")\n        if not issubclass(cls, InterpolatorBase):\n            raise TypeError(f\"{cls} is not a subclass of 'InterpolatorBase'\")\n\n        _interpolators[method] = cls\n        return cls\n",
  "    def decorator(cls: ty.Type[InterpolatorBase]):\n        with _register_lock:\n            if method in _interpolators:\n                raise ValueError(f\"'{method}' interpolation method already registered for {_interpolators[method]}\")\n            if not issubclass(cls, InterpolatorBase):\n                raise TypeError(f\"{cls} is not a subclass of 'InterpolatorBase'\")\n\n            _interpolators[method] = cls\n        return cls\n"),
 (I, "    if method not in _interpolators:\n        raise NameError(f\"Cannot find the interpolator for given method '{method}'\")\n\n    interpolator_cls = _interpolators[method]\n",
  "    interpolator_cls = _interpolators.get(method)\n\n    if interpolator_cls is None:\n        raise NameError(f\"Cannot find the interpolator for given method '{method}'\")\n"),
 (S, "    if method not in _smooth_methods:\n        raise NameError(f\"Cannot find the smoothing method '{method}'\")\n\n    return _smooth_methods[method]\n",
  "    try:\n        return _smooth_methods[method]\n    except KeyError:\n        raise NameError(f\"Cannot find the smoothing method '{method}'\") from None\n"),
 (X, "    return _intersect_methods[method](**params)\n", "    cls = _intersect_methods[method]\n    return cls(**params)\n"),
 (X, "    return list(_intersect_methods.keys())\n", "    return [*_intersect_methods]\n"),
)
ref('R06-intersect-indices',
 (X, "        if self_intersect:\n            # Removing duplicate combinations of segments when self intersection.\n            i, j = np.tril_indices(intersect_matrix.shape[0], k=0)\n            intersect_matrix[i, j] = False\n\n        s1, s2 = np.nonzero(intersect_matrix)\n\n        if self_intersect:\n            # Removing coincident and adjacent segments\n            adjacent = np.abs(s1 - s2) < 2\n            s1 = s1[~adjacent]\n            s2 = s2[~adjacent]\n\n        return s1, s2\n",
  "        if self_intersect:\n            # Only the pairs of different and non-adjacent segments, each pair once\n            intersect_matrix = np.triu(intersect_matrix, k=2)\n\n        s1, s2 = np.nonzero(intersect_matrix)\n        return s1, s2\n"),
 (X, "        s1, s2 = self._find_segments_bbox_intersection(curve1, curve2)\n\n        if s1.size == 0:\n            return []\n\n        intersections = []\n\n        for segment1, segment2 in zip(curve1.segments[s1], curve2.segments[s2]):\n            intersect_info = self._intersect_segments(segment1, segment2)\n",
  "        intersections = []\n\n        for i, j in zip(*self._find_segments_bbox_intersection(curve1, curve2)):\n            segment1 = curve1.segments[i]\n            segment2 = curve2.segments[j]\n            intersect_info = self._intersect_segments(segment1, segment2)\n"),
 (X, "            for i, intersection in enumerate(intersections):\n                intersections[i] = SegmentsIntersection(\n                    segment1=ty.cast(skcurve._base.Segment, obj1) if obj1_is_segment else intersection.segment1,\n                    segment2=ty.cast(skcurve._base.Segment, obj2) if obj2_is_segment else intersection.segment2,\n                    intersect_info=intersection.intersect_info,\n                )\n\n            return intersections\n",
  "            return [\n                SegmentsIntersection(\n                    segment1=obj1 if obj1_is_segment else intersection.segment1,\n                    segment2=obj2 if obj2_is_segment else intersection.segment2,\n                    intersect_info=intersection.intersect_info,\n                )\n                for intersection in intersections\n            ]\n"),
)
ref('R07-intersect-func',
 (X, "    if isinstance(method, str):\n        intersect_method = get_intersect_method(method, **params)\n    elif isinstance(method, IntersectionMethodBase):\n        intersect_method = method\n        if params:\n            warnings.warn(\n                f\"'{method}' as intersection method will be used, 'params' will be ignored.\",\n                IntersectionWarning)\n    else:\n        raise ValueError(f\"Invalid 'method' value: {method}\")\n",
  "    intersect_method = _resolve_method(method, params)\n"),
 (X, "def intersect(obj1: ty.Union['Segment', 'Curve'],\n", "def _resolve_method(method, params):\n    if isinstance(method, IntersectionMethodBase):\n        if params:\n            warnings.warn(\n                f\"'{method}' as intersection method will be used, 'params' will be ignored.\",\n                IntersectionWarning)\n        return method\n\n    if not isinstance(method, str):\n        raise ValueError(f\"Invalid 'method' value: {method}\")\n\n    return get_intersect_method(method, **params)\n\n\ndef intersect(obj1: ty.Union['Segment', 'Curve'],\n"),
 (X, "        if not self:\n            return None\n\n        if self.intersect_type == IntersectionType.EXACT:\n            return self._intersect_info.data\n        else:\n            return self._intersect_info.data.point(0.5)\n",
  "        data, type_ = self._intersect_info\n\n        if type_ == IntersectionType.NONE:\n            return None\n\n        return data if type_ == IntersectionType.EXACT else data.point(0.5)\n"),
 (X, "        extra_intersections_graph = nx.Graph()\n        extra_intersections_graph.add_edges_from(zip(ei, ej))\n",
  "        extra_intersections_graph = nx.Graph()\n        for n1, n2 in zip(ei.tolist(), ej.tolist()):\n            extra_intersections_graph.add_edge(n1, n2)\n"),
 (X, "        extra_intersections = set(extra_intersections)\n        filtered_intersections = list(filter(lambda x: x not in extra_intersections, intersections))\n\n        return filtered_intersections\n",
  "        extra_ids = {id(x) for x in extra_intersections}\n        return [x for x in intersections if id(x) not in extra_ids]\n"),
 (X, "        dist = np.sqrt(np.sum((s2s.p1 - s2s.p2)**2, axis=0))\n", "        dist = np.linalg.norm(s2s.p1 - s2s.p2, axis=0)\n"),
)
ref('R08-base-edits',
 (B, "        return Curve(np.flipud(self._data), tdata=tdata)\n", "        return Curve(self._data[::-1], tdata=tdata)\n"),
 (B, "            tdata = np.flip(self._tdata, axis=0)\n", "            tdata = self._tdata[::-1]\n"),
 (B, "        return Curve(np.vstack((self._data, other.data)), tdata=tdata)\n", "        return Curve(np.concatenate([self._data, other.data], axis=0), tdata=tdata)\n"),
 (B, "            tdata = np.hstack((self.t, other.t))\n", "            tdata = np.concatenate((self._tdata, other._tdata))\n"),
 (B, "            return iter(self._data[:, i] for i in range(self.ndim))\n", "            return iter([self._data[:, i] for i in range(self.ndim)])\n"),
 (B, "        data, index = np.unique(self._data, axis=0, return_index=True)\n        s_index = np.sort(index)\n", "        _, s_index = np.unique(self._data, axis=0, return_index=True)\n        s_index.sort()\n"),
 (B, "            if self.isparametric:\n                tdata = np.delete(self._tdata, index)\n            else:\n                tdata = None\n\n            data = np.delete(self._data, index, axis=0)\n            return Curve(data, tdata=tdata)\n",
  "            data = np.delete(self._data, index, axis=0)\n            tdata = np.delete(self._tdata, index) if self.isparametric else None\n            return Curve(data, tdata=tdata)\n"),
 (B, "        return self._data.shape[0]\n\n    @property\n    def ndim(self) -> int:\n", "        return len(self)\n\n    @property\n    def ndim(self) -> int:\n"),
)
ref('R09-base-access',
 (B, "        def get_curvepoint(index: int) -> CurvePoint:\n            return CurvePoint(curve=self, index=index)\n\n", ""),
 (B, "            return get_curvepoint(indexer)\n", "            return CurvePoint(self, indexer)\n"),
 (B, "            if self.isparametric:\n                tdata = self._tdata[index]\n            else:\n                tdata = None\n\n            return Curve(self._data[index], tdata=tdata)\n",
  "            data = self._data[index]\n            tdata = None if self._tdata is None else self._tdata[index]\n            return Curve(data, tdata=tdata)\n"),
 (B, "        is_close = allequal(point.data, data, axis=1)\n\n        if not np.any(is_close):\n            raise ValueError(f'{point} is not in curve and given interval')\n\n        indices = np.flatnonzero(is_close)\n\n        if start:\n            # A negative start counts from the end of the curve\n            indices += slice(start, end).indices(self.size)[0]\n\n        return indices[0]\n",
  "        indices = np.flatnonzero(allequal(point.data, data, axis=1))\n\n        if indices.size == 0:\n            raise ValueError(f'{point} is not in curve and given interval')\n\n        first = indices[0]\n\n        return first + slice(start, end).indices(self.size)[0]\n"),
 (B, "        return int(np.sum(allequal(point.data, self._data, axis=1)))\n", "        return int(np.count_nonzero(allequal(point.data, self._data, axis=1)))\n"),
 (B, "        return self.p1 == other.p1 and self.p2 == other.p2\n", "        if self is other:\n            return self.p1 == self.p1 and self.p2 == self.p2\n        return bool(self.p1 == other.p1 and self.p2 == other.p2)\n"),
 (B, "        return np.vstack((self._p1.data, self._p2.data))\n", "        return np.array([self._p1.data, self._p2.data])\n"),
 (B, "        return readonly(np.array([CurveSegment(self, idx) for idx in range(self.size - 1)], dtype=np.object))\n",
  "        segments = np.empty(max(self.size - 1, 0), dtype=object)\n        for idx in range(segments.size):\n            segments[idx] = CurveSegment(self, idx)\n        return readonly(segments)\n"),
)
ref('R10-slotted-caches',
 (B, "    @cached_property\n    def t(self) -> np.ndarray:\n", "    @property\n    def t(self) -> np.ndarray:\n"),
 (B, "    @cached_property\n    def arclen(self) -> float:\n", "    @property\n    def arclen(self) -> float:\n"),
 (D, "    @cached_property\n    def tangent(", "    @property\n    def tangent("),
)
ref('R11-interp',
 (I, "        if grid.ndim != 1:\n            raise ValueError(\n                'The interpolation grid should be 1xM array where M is number of points in interpolated curve')\n\n        if not np.issubdtype(grid.dtype, np.number):\n            raise ValueError(f'Invalid dtype {grid.dtype} of interpolation grid')\n\n        if np.any(np.isnan(grid)):\n            raise ValueError('The interpolation grid should not contain NaN values.')\n\n        dt = np.diff(grid)\n        if np.any(dt < 0) or np.any(np.isclose(dt, 0)):\n            raise ValueError(\n                'The values in the interpolation grid must be strictly increasing ordered.')\n\n        t_start, t_end = self.curve.t[0], self.curve.t[-1]\n\n        if np.min(grid) > t_start or np.max(grid) < t_end:\n            warnings.warn(\n                f'The interpolation grid in range [{np.min(grid)}, {np.max(grid)}]. '\n                f'It does not cover the whole curve parametrization range [{t_start}, {t_end}].',\n                InterpolationWarning)\n\n        return grid\n",
  "        self._validate_grid(grid)\n\n        t = self.curve.t\n        t_start, t_end = t[0], t[-1]\n        g_min, g_max = grid.min(), grid.max()\n\n        if not (g_min <= t_start and g_max >= t_end):\n            warnings.warn(\n                f'The interpolation grid in range [{g_min}, {g_max}]. '\n                f'It does not cover the whole curve parametrization range [{t_start}, {t_end}].',\n                InterpolationWarning)\n\n        return grid\n\n    @staticmethod\n    def _validate_grid(grid):\n        if grid.ndim != 1:\n            raise ValueError(\n                'The interpolation grid should be 1xM array where M is number of points in interpolated curve')\n\n        if not np.issubdtype(grid.dtype, np.number):\n            raise ValueError(f'Invalid dtype {grid.dtype} of interpolation grid')\n\n        if np.isnan(grid).any():\n            raise ValueError('The interpolation grid should not contain NaN values.')\n\n        dt = grid[1:] - grid[:-1]\n        if ((dt < 0) | np.isclose(dt, 0)).any():\n            raise ValueError(\n                'The values in the interpolation grid must be strictly increasing ordered.')\n"),
 (I, "        interp_data = np.empty((grid.size, self.curve.ndim))\n\n        for i, spline in enumerate(self.splines):\n            interp_data[:, i] = spline(grid)\n\n        return interp_data\n",
  "        return np.stack([spline(grid) for spline in self.splines], axis=1)\n"),
 (I, "        if self.kind == 'length':\n            pcount = int(round(curve.arclen / self.fill) + 1)\n        else:\n            pcount = int(self.fill)\n\n        return np.linspace(curve.t[0], curve.t[-1], pcount)\n",
  "        pcount = int(self.fill) if self.kind == 'point' else int(round(curve.arclen / self.fill) + 1)\n        start, *_, stop = curve.t\n\n        return np.linspace(start, stop, pcount)\n"),
 (I, "    interpolator = get_interpolator(method, curve, **params)\n    return interpolator(grid_spec)\n", "    return get_interpolator(method, curve, **params)(grid_spec)\n"),
 (I, "            x = np.linspace(0, 1, curve.size)\n            xi = np.linspace(0, 1, self.pcount)\n\n            interpolator = interp.interp1d(x, curve.cumarclen, kind=self.interp_kind)\n            cumarclen_i = interpolator(xi)\n",
  "            interpolator = interp.interp1d(np.linspace(0, 1, curve.size), curve.cumarclen, kind=self.interp_kind)\n            cumarclen_i = interpolator(np.linspace(0, 1, self.pcount))\n"),
)
ref('R12-smooth-distance',
 (S, "    if callable(window_type):\n        try:\n            window = window_type(window_size)\n        except Exception as err:\n            raise ValueError(\n                f'Cannot create the window using {window_type}: {err}') from err\n    else:\n        window = windows.get_window(window_type, window_size, fftbins=False)\n",
  "    if not callable(window_type):\n        window = windows.get_window(window_type, window_size, fftbins=False)\n    else:\n        window = _call_window(window_type, window_size)\n"),
 (S, "@register_smooth_method('window')\n", "def _call_window(window_type, window_size):\n    try:\n        return window_type(window_size)\n    except Exception as err:\n        raise ValueError(\n            f'Cannot create the window using {window_type}: {err}') from err\n\n\n@register_smooth_method('window')\n"),
 (S, "    window = window / window.sum()\n", "    window = np.divide(window, np.sum(window))\n"),
 (S, "    try:\n        smoothed_data = smooth_method(curve, **params)\n    except (ValueError, TypeError):\n        raise\n    except Exception as err:\n        raise SmoothingError(f'Smoothing has failed: {err}') from err\n\n    return type(curve)(smoothed_data, dtype=np.float64)\n",
  "    curve_type = type(curve)\n\n    try:\n        data = smooth_method(curve, **params)\n    except Exception as err:\n        if isinstance(err, (ValueError, TypeError)):\n            raise\n        raise SmoothingError(f'Smoothing has failed: {err}') from err\n    else:\n        return curve_type(data, dtype=np.float64)\n"),
 (M, "    if name not in _METRICS:\n        raise NameError(f\"Cannot find metric with name '{name}'\")\n\n    metric = _METRICS[name]\n\n    if not kwargs:\n        return metric\n    else:\n        return functools.partial(metric, **kwargs)\n",
  "    metric = _METRICS.get(name)\n\n    if metric is None:\n        raise NameError(f\"Cannot find metric with name '{name}'\")\n\n    if kwargs:\n        metric = functools.partial(metric, **kwargs)\n\n    return metric\n"),
 (M, "    return list(_METRICS.keys())\n", "    return sorted(_METRICS)\n"),
)
ref('R13-geomalg',
 (A, "    # We need to consider floating point errors\n    cos_phi = 1.0 if cos_phi > 1.0 else cos_phi\n    cos_phi = -1.0 if cos_phi < -1.0 else cos_phi\n\n    return np.arccos(cos_phi)\n",
  "    # We need to consider floating point errors\n    return np.arccos(min(max(cos_phi, -1.0), 1.0))\n"),
 (A, "    a = u @ u\n    b = u @ v\n    c = v @ v\n    d = a * c - b * b\n\n    return d < tol\n", "    b = u @ v\n\n    return (u @ u) * (v @ v) - b * b < tol\n"),
 (A, "    if points_data.shape[1] < 3:\n        # In dimension < 3 the points are coplanar\n        return True\n\n    # Relative differences\n    points_data -= points_data[-1, :]\n\n    return np.linalg.matrix_rank(points_data[:-1, :], tol=tol) <= 2\n",
  "    if points_data.shape[1] < 3:\n        # In dimension < 3 the points are coplanar\n        return True\n\n    # Relative differences\n    rel = points_data[:-1] - points_data[-1]\n    rank = np.linalg.matrix_rank(rel, tol=tol)\n\n    return rank <= 2\n"),
 (A, "    c1 = to_point_direction @ segment_direction\n\n    if c1 < 0 or np.isclose(c1, 0):\n        return 0.0\n\n    c2 = segment_direction @ segment_direction\n\n    if c2 < c1 or np.isclose(c2, c1):\n        return 1.0\n\n    t = c1 / c2\n    return t\n",
  "    c1 = to_point_direction @ segment_direction\n    c2 = segment_direction @ segment_direction\n\n    if c1 < 0 or np.isclose(c1, 0):\n        return 0.0\n    elif c2 < c1 or np.isclose(c2, c1):\n        return 1.0\n    else:\n        return c1 / c2\n"),
 (A, "    data_minmax = np.minimum(\n        np.maximum(p11_data, p12_data),\n        np.maximum(p21_data, p22_data),\n    )\n    data_maxmin = np.maximum(\n        np.minimum(p11_data, p12_data),\n        np.minimum(p21_data, p22_data),\n    )\n",
  "    lo1, hi1 = _bounds(p11_data, p12_data)\n    lo2, hi2 = _bounds(p21_data, p22_data)\n    data_minmax = np.minimum(hi1, hi2)\n    data_maxmin = np.maximum(lo1, lo2)\n"),
 (A, "def overlap_segments(", "def _bounds(a, b):\n    return np.minimum(a, b), np.maximum(a, b)\n\n\ndef overlap_segments("),
 (A, "    t1 = np.zeros_like(dd)\n    t2 = np.zeros_like(dd)\n\n    t1[abs_sn_gt_tol] = (sn / sd)[abs_sn_gt_tol]\n    t2[abs_tn_gt_tol] = (tn / td)[abs_tn_gt_tol]\n",
  "    t1 = np.divide(sn, sd, out=np.zeros_like(dd), where=abs_sn_gt_tol)\n    t2 = np.divide(tn, td, out=np.zeros_like(dd), where=abs_tn_gt_tol)\n"),
 (A, "    # finally do the division to get sc and tc\n    t1 = 0.0 if np.abs(sn) < tol else sn / sd\n    t2 = 0.0 if np.abs(tn) < tol else tn / td\n\n    return t1, t2\n",
  "    # finally do the division to get sc and tc\n    def ratio(num, den):\n        return 0.0 if abs(num) < tol else num / den\n\n    return ratio(sn, sd), ratio(tn, td)\n"),
)
ref('R14-plot',
 (P, "        points = self._curve.data[:, np.newaxis]\n        segments = np.concatenate([points[:-1], points[1:]], axis=1)\n\n        curve_values = list(self._curve.values())\n        multicolor_values = getattr(self._curve, self._param)\n",
  "        data = self._curve.data\n        segments = np.stack([data[:-1], data[1:]], axis=1)\n\n        curve_values = [data[:, i] for i in range(self._curve.ndim)]\n        multicolor_values = getattr(self._curve, self._param)\n"),
 (P, "        norm = Normalize(multicolor_values.min(), multicolor_values.max())\n", "        norm = Normalize(vmin=np.min(multicolor_values), vmax=np.max(multicolor_values))\n"),
 (P, "        if self._axes is None:\n            fig = plt.figure()\n            if self._curve.is2d:\n                self._axes = fig.add_subplot(1, 1, 1)\n            elif self._curve.is3d:\n                self._axes = fig.add_subplot(1, 1, 1, projection='3d')\n        else:\n            if self._curve.is3d and not isinstance(self._axes, Axes3D):\n                raise TypeError('Cannot plot 3-d curve on 2-d axes.')\n",
  "        if self._axes is not None:\n            if self._curve.is3d and not isinstance(self._axes, Axes3D):\n                raise TypeError('Cannot plot 3-d curve on 2-d axes.')\n        else:\n            self._axes = self._make_axes()\n"),
 (P, "    def _plot(self):\n", "    def _make_axes(self):\n        kwargs = {'projection': '3d'} if self._curve.is3d else {}\n        return plt.figure().add_subplot(111, **kwargs)\n\n    def _plot(self):\n"),
 (P, "            normals = [self._curve.frenet2[:, i] for i in range(self._curve.ndim)]\n\n            if self._curve.is2d:\n                self._axes.quiver(*values, *normals,\n", "            normals = self._curve.frenet2.T\n\n            if self._curve.is2d:\n                self._axes.quiver(*values, *normals,\n"),
)
ref('R15-curve-init',
 (B, "        is_ndmin = False\n        is_array = isinstance(curve_data, (np.ndarray, Curve))\n\n        if ndmin is None:\n            ndmin = 2\n        else:\n            is_ndmin = True\n\n",
  "        is_ndmin = ndmin is not None\n        is_array = isinstance(curve_data, (np.ndarray, Curve))\n        ndmin = ndmin if is_ndmin else 2\n\n"),
 (B, "            if curve_data.isparametric:\n                tdata = curve_data.t\n            else:\n                tdata = None\n", "            tdata = curve_data._tdata\n"),
 (B, "            data = np.hstack([data, np.zeros((m, ndmin - n), dtype=dtype)])\n", "            padded = np.zeros((m, ndmin), dtype=dtype)\n            padded[:, :n] = data\n            data = padded\n"),
 (B, "            tdata = np.array(tdata, dtype=DEFAULT_DTYPE)\n            tdata.flags.writeable = False\n\n            if tdata.ndim != 1:\n                raise ValueError(\"'tdata' must be 1-D array\")\n            if tdata.size != data.shape[0]:\n                raise ValueError(\"'tdata' size must be equal to the number of curve points.\")\n",
  "            tdata = np.array(tdata, dtype=DEFAULT_DTYPE)\n\n            if tdata.ndim != 1:\n                raise ValueError(\"'tdata' must be 1-D array\")\n            if tdata.size != m:\n                raise ValueError(\"'tdata' size must be equal to the number of curve points.\")\n\n            tdata.setflags(write=False)\n"),
 (B, "        self._data = data  # type: np.ndarray\n        self._data.flags.writeable = False\n        self._tdata = tdata\n", "        data.setflags(write=False)\n        self._tdata = tdata\n        self._data = data  # type: np.ndarray\n"),
)
ref('R16-point',
 (B, "        data = self._data[index]\n\n        if data.size > 1:\n            return Point(data)\n        else:\n            return data\n", "        item = self._data[index]\n        return Point(item) if item.size > 1 else item\n"),
 (B, "        if right:\n            right_data, left_data = left_data, right_data\n\n        return Point(op(left_data, right_data))\n", "        operands = (right_data, left_data) if right else (left_data, right_data)\n\n        return Point(op(*operands))\n"),
 (B, "        return np.sqrt(self @ self)\n", "        return np.sqrt(np.dot(self._data, self._data))\n"),
 (B, "        if self.curve is not other_point.curve:\n            raise ValueError('Other point belongs to another curve')\n\n        inc = 1 if endpoint else 0\n        return self.curve[self.idx:other_point.idx+inc]\n", "        curve = self.curve\n\n        if other_point.curve is not curve:\n            raise ValueError('Other point belongs to another curve')\n\n        stop = other_point.idx + int(bool(endpoint))\n        return curve[self.idx:stop]\n"),
 (B, "        self._curve = curve\n        self._idx = index\n\n        super().__init__(curve.data[index])\n", "        super().__init__(curve.data[index])\n\n        self._idx = index\n        self._curve = curve\n"),
 (B, "        self._curve = curve\n        self._idx = index\n\n        p1 = ty.cast(CurvePoint, curve[index])\n        p2 = ty.cast(CurvePoint, curve[index + 1])\n\n        super().__init__(p1, p2)\n", "        super().__init__(curve[index], curve[index + 1])\n\n        self._idx = index\n        self._curve = curve\n"),
)
ref('R17-curves-helper',
 (C, "def arc(t_start", "def _grid(start, stop, count):\n    return np.linspace(start, stop, num=count)\n\n\ndef arc(t_start"),
 (C, "    theta = np.linspace(t_start, t_stop, p_count)\n\n    c_sq2 = c * np.sqrt(2)\n", "    theta = _grid(t_start, t_stop, p_count)\n\n    c_sq2 = c * np.sqrt(2)\n") ,
)
ref('R18-hash-slots',   # more state of its own, lazily
 (B, "    def isplane(self) -> bool:\n", "    def isplane(self) -> bool:\n        # computed each time\n"),
 (D, "            k = (sd_y * fd_x - sd_x * fd_y) / (fd_x * fd_x + fd_y * fd_y) ** 1.5\n", "            cross = fd_x * sd_y - fd_y * sd_x\n            k = cross / np.power(fd_x ** 2 + fd_y ** 2, 1.5)\n"),
 (D, "        return np.hstack((0.0, np.cumsum(self.chordlen)))\n", "        lengths = np.zeros(self.chordlen.size + 1)\n        np.cumsum(self.chordlen, out=lengths[1:])\n        return lengths\n"),
 (D, "    return curve.drop(is_singular)\n", "    return curve.drop(lambda data: is_singular(data))\n"),
 (D, "    return float(np.sum(chordlen(curve)))\n", "    return float(np.sum(curve.chordlen))\n"),
)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-w', type=int, default=12)
    ap.add_argument('-s', default='1')
    ap.add_argument('-p', default='')
    ap.add_argument('-n', action='store_true', help='tests only')
    ap.add_argument('ids', nargs='*')
    a = ap.parse_args()
    props = a.p.split() or ['C%02d' % i for i in range(1, 17)]
    for id, edits in REFS:
        if a.ids and not any(id.startswith(x) for x in a.ids):
            continue
        w = '/tmp/refac.' + id
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree('/repo', w)
        try:
            bad = False
            for f, old, new in edits:
                s = open(os.path.join(w, f)).read()
                # empty lines do not matter
                rx = re.compile(r'\n(?:[ \t]*\n)*'.join(re.escape(l) for l in old.split('\n') if l.strip()) + (r'\n' if old.endswith('\n') else ''))
                found = rx.findall(s)
                if len(found) != 1:
                    print(id, '%r occurs %d times in %s' % (old[:90], len(found), f))
                    bad = True
                    continue
                open(os.path.join(w, f), 'w').write(rx.sub(lambda m: new, s))
            if bad:
                continue
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=w, env=ENV, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            print(id, 'tests:', r.stdout.decode().strip().split('\n')[-1], flush=True)
            if r.returncode:
                print(r.stdout.decode()[-1500:])
                continue
            if a.n:
                continue
            for p in props:
                out = '/tmp/refac.out.' + id
                e = dict(ENV, DST_REPO=w, DST_OUT=out, VERIF_SEED=a.s)
                r = subprocess.run([PY, 'dst/main.py', 'check', p, '--wall', str(a.w), '--runs', '100000'], cwd=ROOT, env=e,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    open('/tmp/refac.log.%s.%s' % (id, p), 'wb').write(r.stdout)
                    print(id, p, 'rc', r.returncode, '\n'.join(l for l in r.stdout.decode().split('\n') if ' of C' in l or 'VIOLATION' in l)[:400], flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
