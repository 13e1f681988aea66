# -*- coding: utf-8 -*-
"""Reference models, written from the documentation and independent of the library's code.

A curve is a list of points with an optional parameter per point (`MCurve`).  Edits are list manipulations.
Derived quantities are written out with explicit differences.
"""

import numpy as np


class Expect(Exception):
    """The operation has to fail with one of these error types"""

    def __init__(self, *types):
        super().__init__(types)
        self.types = types


class Skip(Exception):
    """The reference does not decide this case"""


class MCurve:
    __slots__ = ('data', 't', 'src', 'tp', 'lazy')

    def __init__(self, data, t=None):
        data = np.asarray(data)
        self.data = np.array(data, dtype=data.dtype.newbyteorder('='), order='K', copy=True)
        self.t = None if t is None else np.array(t, dtype=np.float64)
        if self.data.ndim == 2 and self.data.size == 0:
            # an empty curve has two dimensions
            self.data = np.zeros((0, 2), dtype=self.data.dtype)
        self.src = None
        self.tp = None     # parameter of a non-parametric curve
        self.lazy = None   # how uncertain these values are

    @property
    def n(self):
        return self.data.shape[0]

    @property
    def d(self):
        return self.data.shape[1]

    def rows(self, idx):
        idx = list(idx)
        return MCurve(np.array([self.data[i] for i in idx], dtype=self.data.dtype).reshape(len(idx), self.d),
                      None if self.t is None else [self.t[i] for i in idx])

    @property
    def finite(self):
        return bool(np.all(np.isfinite(self.data)))

    def param(self):
        if self.t is not None:
            return self.t
        if self.tp is not None:
            return self.tp
        return quantity(self, 'cumarclen')


def norm_index(i, n):
    if i < -n or i >= n:
        raise Expect(IndexError)
    return i + n if i < 0 else i


# ----------------------------------------------------------------------------------------------------------- edits

def e_slice(m, a, b, s):
    return m.rows(list(range(m.n))[slice(a, b, s)])


def e_fancy(m, idx):
    return m.rows([norm_index(i, m.n) for i in idx])


def e_mask(m, mask):
    if len(mask) != m.n:
        raise Expect(IndexError)
    return m.rows([i for i, k in enumerate(mask) if k])


def e_insert(m, index, rows):
    """index: int, list of int or slice; rows: KxN array"""
    rows = np.asarray(rows)
    if rows.shape[1] != m.d:
        raise Expect(ValueError)
    with np.errstate(all='ignore'):
        rows = rows.astype(m.data.dtype)
    n = m.n
    out = [m.data[i] for i in range(n)]
    if isinstance(index, slice):
        index = list(range(n))[index]
        if len(index) == 0:
            raise Skip
        if len(index) == 1:
            index = int(index[0])
    if isinstance(index, int):
        if index < -n or index > n:
            raise Expect(IndexError)
        k = index + n if index < 0 else index
        new = out[:k] + [r for r in rows] + out[k:]
    else:
        for i in index:
            if i < -n or i > n:
                raise Expect(IndexError)
        ks = [i + n if i < 0 else i for i in index]
        if len(ks) == 1:
            k = ks[0]
            new = out[:k] + [r for r in rows] + out[k:]
        else:
            if len(rows) == 1:
                rows = [rows[0]] * len(ks)
            if len(rows) != len(ks):
                raise Expect(ValueError)
            new = []
            for pos in range(n + 1):
                new.extend(rows[j] for j, k in enumerate(ks) if k == pos)
                if pos < n:
                    new.append(out[pos])
    return MCurve(np.array(new, dtype=m.data.dtype).reshape(len(new), m.d))


def e_delete(m, index):
    n = m.n
    if isinstance(index, slice):
        drop = set(list(range(n))[index])
    elif isinstance(index, int):
        drop = {norm_index(index, n)}
    else:
        drop = {norm_index(i, n) for i in index}
    return m.rows([i for i in range(n) if i not in drop])


def e_concat(m, o):
    if m.d != o.d:
        raise Expect(ValueError)
    dt = np.promote_types(m.data.dtype, o.data.dtype)
    with np.errstate(all='ignore'):
        data = np.array([r.astype(dt) for r in m.data] + [r.astype(dt) for r in o.data],
                        dtype=dt).reshape(m.n + o.n, m.d)
    t = None
    if m.t is not None and o.t is not None:
        t = list(m.t) + list(o.t)
    return MCurve(data, t)


def e_reverse(m):
    return m.rows(range(m.n - 1, -1, -1))


def e_unique(m):
    if m.data.dtype.kind == 'f' and not np.all(np.isfinite(m.data)):
        raise Skip
    seen = set()
    keep = []
    for i, r in enumerate(m.data.tolist()):
        r = tuple(r)
        if r not in seen:
            seen.add(r)
            keep.append(i)
    return m.rows(keep)


def e_coorient(m, a1, a2):
    if m.n < 2:
        return m.rows(range(m.n))
    for a in (a1, a2):
        if a < -m.d or a >= m.d:
            raise Expect(IndexError)
    b, e = m.data[0].astype(np.float64), m.data[-1].astype(np.float64)
    if not (np.all(np.isfinite(b)) and np.all(np.isfinite(e))):
        raise Skip
    det = b[a1] * e[a2] - e[a1] * b[a2]
    scale = max(1e-300, np.max(np.abs([b[a1], e[a1], b[a2], e[a2]]))) ** 2
    if abs(det) < 1e-10 * scale:
        if (b[a1] == 0 and b[a2] == 0) or (e[a1] == 0 and e[a2] == 0) or \
                (b[a1] == 0 and e[a1] == 0) or (b[a2] == 0 and e[a2] == 0):
            det = 0.0
        else:
            raise Skip
    return m.rows(range(m.n)) if det > 0 else e_reverse(m)


def e_insertdim(m, axis, values):
    d = m.d
    if axis < -d or axis > d:
        raise Expect(IndexError)
    k = axis + d if axis < 0 else axis
    if values is None:
        values = [0] * m.n
    values = np.asarray(values)
    if values.shape != (m.n,):
        raise Skip
    cols = [m.data[:, i] for i in range(d)]
    cols.insert(k, values.astype(m.data.dtype))
    return MCurve(np.stack(cols, axis=1))


def e_deletedim(m, index):
    if m.d == 2:
        raise Expect(ValueError)
    if isinstance(index, slice):
        drop = set(list(range(m.d))[index])
    elif isinstance(index, int):
        drop = {norm_index(index, m.d)}
    else:
        drop = {norm_index(i, m.d) for i in index}
    keep = [i for i in range(m.d) if i not in drop]
    if m.n == 0 or not keep:
        return MCurve(np.zeros((0, 2), dtype=m.data.dtype))
    if len(keep) < 2:
        raise Expect(ValueError)
    return MCurve(np.stack([m.data[:, i] for i in keep], axis=1))


def e_nonsingular(m):
    if m.n == 0:
        return m.rows([])
    data = m.data.astype(np.float64)
    keep = []
    for i in range(m.n):
        if not np.all(np.isfinite(data[i])):
            continue
        if i > 0:
            with np.errstate(all='ignore'):
                c = float(np.sqrt(np.sum((data[i] - data[i - 1]) ** 2)))
            if 1e-9 < c < 1e-7:
                raise Skip
            if c <= 1e-8:
                continue
        keep.append(i)
    return m.rows(keep)


def isclose(a, b):
    """|a - b| <= atol + rtol |b| in double precision; integers exactly"""
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in 'iu' and b.dtype.kind in 'iu':
        return a == b
    with np.errstate(all='ignore'):
        a, b = a.astype(np.float64), b.astype(np.float64)
        r = np.abs(a - b) <= 1e-8 + 1e-5 * np.abs(b)
        return np.where(np.isfinite(a) & np.isfinite(b), r, a == b)


# ---------------------------------------------------------------------------------------------- derived quantities

QUANTITIES = ('chordlen', 'arclen', 'cumarclen', 't', 'firstderiv', 'secondderiv', 'thirdderiv', 'tangent',
              'normal', 'binormal', 'speed', 'frenet1', 'frenet2', 'frenet3', 'curvature', 'torsion')
POINT_QUANTITIES = tuple(q for q in QUANTITIES if q not in ('chordlen', 'arclen'))
LENGTHS = ('chordlen', 'arclen', 'cumarclen', 't')

_UNIT_LO, _UNIT_HI = 1e-10, 1e-6


def _grad(f):
    n = f.shape[0]
    if n == 1:
        return np.zeros_like(f)
    out = np.empty_like(f)
    if n == 2:
        out[0] = out[1] = f[1] - f[0]
        return out
    for i in range(1, n - 1):
        out[i] = (f[i + 1] - f[i - 1]) / 2.0
    out[0] = -1.5 * f[0] + 2.0 * f[1] - 0.5 * f[2]
    out[-1] = 0.5 * f[-3] - 2.0 * f[-2] + 1.5 * f[-1]
    return out


def _rownorm(v):
    return np.sqrt((v * v).sum(axis=1))


def _unit(v, x, dtype):
    """Unit vectors; a vector of zero length is left as it is.  Undecidable near the threshold and where rounding
    errors decide"""
    nrm = _rownorm(v)
    scale = float(np.max(np.abs(x))) if x.size else 1.0
    single = dtype.kind == 'f' and dtype.itemsize < 8
    if np.any((nrm > _UNIT_LO) & (nrm < max(_UNIT_HI, scale * (1e-3 if single else 1e-8)))):
        raise Skip
    if (single or scale > 1e3) and np.any(nrm <= _UNIT_LO):
        raise Skip
    nrm = np.where(nrm <= _UNIT_LO, 1.0, nrm)
    return v / nrm[:, None]


def quantity(m, name):
    """The value of a derived quantity, from its definition, in double precision"""
    q = {}
    return _quantity(m, name, q)


def _quantity(m, name, q):
    if name in q:
        return q[name]
    x = m.data.astype(np.float64)
    g = lambda k: _quantity(m, k, q)  # noqa
    with np.errstate(all='ignore'):
        if name == 'chordlen':
            if m.n == 0:
                r = np.zeros(0)
            else:
                r = np.array([np.sqrt(np.sum((x[i + 1] - x[i]) ** 2)) for i in range(m.n - 1)], dtype=np.float64)
        elif name == 'arclen':
            r = float(np.sum(g('chordlen')))
        elif name == 'cumarclen':
            acc, out = 0.0, [0.0] if m.n else []
            for c in g('chordlen'):
                acc = acc + c
                out.append(acc)
            r = np.array(out)
        elif name == 't':
            r = m.t if m.t is not None else g('cumarclen')
        elif m.n < 2:
            raise Skip
        elif name in ('firstderiv', 'tangent'):
            r = _grad(x)
        elif name == 'secondderiv':
            r = _grad(g('firstderiv'))
        elif name == 'thirdderiv':
            r = _grad(g('secondderiv'))
        elif not m.finite:
            raise Skip
        elif name == 'speed':
            r = _rownorm(g('firstderiv'))
        elif name == 'frenet1':
            r = _unit(g('firstderiv'), x, m.data.dtype)
        elif name == 'normal':
            e1, s = g('frenet1'), g('secondderiv')
            r = s - (s * e1).sum(axis=1)[:, None] * e1
        elif name == 'frenet2':
            r = _unit(g('normal'), x, m.data.dtype)
        elif name == 'binormal':
            e1, e2, t3 = g('frenet1'), g('frenet2'), g('thirdderiv')
            r = t3 - (t3 * e1).sum(axis=1)[:, None] * e1 - (t3 * e2).sum(axis=1)[:, None] * e2
        elif name == 'frenet3':
            r = _unit(g('binormal'), x, m.data.dtype)
        elif name == 'curvature':
            sp = g('speed')
            if np.any(sp < 1e-6):
                raise Skip
            if m.d == 2:
                f, s = g('firstderiv'), g('secondderiv')
                r = (s[:, 1] * f[:, 0] - s[:, 0] * f[:, 1]) / (f[:, 0] ** 2 + f[:, 1] ** 2) ** 1.5
            else:
                r = _rownorm(_grad(g('frenet1'))) / sp
        elif name == 'torsion':
            sp = g('speed')
            if np.any(sp < 1e-6):
                raise Skip
            r = (_grad(g('frenet2')) * g('frenet3')).sum(axis=1) / sp
        else:
            raise KeyError(name)
    q[name] = r
    return r


def close(a, b, dtype=None, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        if a.size == 0 and b.size == 0:
            return True
        return False
    if a.size == 0:
        return True
    if dtype is not None and np.dtype(dtype).kind == 'f' and np.dtype(dtype).itemsize < 8:
        rtol, atol = max(rtol, 2e-4), max(atol, 2e-4)
    with np.errstate(all='ignore'):
        return bool(np.allclose(a.astype(np.float64), b.astype(np.float64), rtol=rtol, atol=atol, equal_nan=True))


# ------------------------------------------------------------------------------------------------------ interpolants

def grid_of(m, spec):
    """The interpolation grid of a curve for a grid specification of the harness"""
    kind = spec['kind']
    t = m.param()
    if kind in ('list', 'array', 'tuple', 'provider', 'array_ro', 'array_i'):
        # given as fractions of the parameter range
        return np.asarray(spec['abs'], dtype=np.float64) if 'abs' in spec else \
            np.array([t[0] + f * (t[-1] - t[0]) for f in spec['frac']], dtype=np.float64)
    if kind == 'int':
        if spec['n'] < 2:
            raise Expect(ValueError)
        return np.linspace(t[0], t[-1], spec['n'])
    if kind == 'upoint':
        return np.linspace(t[0], t[-1], spec['n'])
    if kind == 'ulength':
        n = quantity(m, 'arclen') / _ulen(m, spec)
        if abs(n - np.floor(n) - 0.5) < 1e-6:
            raise Skip
        return np.linspace(t[0], t[-1], int(round(n)) + 1)
    if kind == 'extra':
        g = grid_of(m, spec['inner'])
        if len(g) < 2:
            raise Skip
        h = np.diff(g).mean()
        if spec['units'] == 'point':
            b, a = spec['before'], spec['after']
        else:
            if not np.isfinite(h) or h <= 0:
                raise Skip
            b, a = spec['before'] / h, spec['after'] / h
            for v in (b, a):
                if abs(v - np.floor(v) - 0.5) < 1e-6:
                    raise Skip
            b, a = int(round(b)), int(round(a))
        before = [g[0] - h * k for k in range(b, 0, -1)]
        after = [g[-1] + h * k for k in range(1, a + 1)]
        return np.array(before + list(g) + after)
    if kind == 'speed':
        if m.t is not None:
            if spec['n'] < 2:
                raise Expect(ValueError)
            return np.linspace(t[0], t[-1], spec['n'])
        cum = quantity(m, 'cumarclen')
        x = np.linspace(0, 1, m.n)
        ci = np.interp(np.linspace(0, 1, spec['n']), x, cum)
        lo, hi = ci.min(), ci.max()
        if hi - lo <= 0:
            raise Skip
        return (ci - lo) / (hi - lo) * quantity(m, 'arclen')
    raise KeyError(kind)


def _ulen(m, spec):
    return spec['len']


def interpolant(m, method, params, grid, frenet1=None):
    """The named interpolant evaluated by the backend directly"""
    import scipy.interpolate as interp
    import csaps
    o = lambda c: getattr(c, '__dst_orig__', c)  # noqa
    t, x = np.array(m.param()), np.array(m.data)
    g = np.array(grid, dtype=np.float64)
    p = dict(params)
    if method == 'linear':
        fv = 'extrapolate' if p.get('extrapolate', True) else None
        if fv is None:
            return o(interp.interp1d)(t, x, kind='linear', axis=0, fill_value=None)(g)
        return o(interp.interp1d)(t, x, kind='linear', axis=0, fill_value='extrapolate')(g)
    if method == 'cubic':
        return o(interp.CubicSpline)(t, x, axis=0, bc_type=p.get('bc_type', 'natural'),
                                     extrapolate=p.get('extrapolate'))(g)
    if method == 'hermite':
        return o(interp.CubicHermiteSpline)(t, x, frenet1, axis=0, extrapolate=p.get('extrapolate'))(g)
    if method == 'akima' and m.n == 2:
        # a straight line
        if not t[1] > t[0]:
            raise ValueError('parameters')
        out = x[0] + (g - t[0])[:, None] / (t[1] - t[0]) * (x[1].astype(np.float64) - x[0])
        out[(g < t[0]) | (g > t[1])] = np.nan
        return out
    if method == 'akima':
        return o(interp.Akima1DInterpolator)(t, x, axis=0)(g)
    if method == 'pchip':
        return o(interp.PchipInterpolator)(t, x, axis=0, extrapolate=p.get('extrapolate'))(g)
    if method == 'spline':
        w = p.get('weights')
        cols = [o(interp.UnivariateSpline)(t, np.array(x[:, i]), w=None if w is None else np.array(w),
                                           k=p.get('k', 3), s=p.get('smooth', 0.0), ext=p.get('extrapolate', 0),
                                           check_finite=False)(g) for i in range(m.d)]
        return np.stack(cols, axis=1)
    if method == 'csaps':
        w = p.get('weights')
        return o(csaps.CubicSmoothingSpline)(t, x, weights=None if w is None else np.array(w),
                                             smooth=p.get('smooth', 1.0), axis=0)(g)
    raise KeyError(method)


def smoothed(m, method, params):
    import scipy.signal as signal
    import scipy.signal.windows as windows
    import scipy.ndimage as ndimage
    o = lambda f: getattr(f, '__dst_orig__', f)  # noqa
    x = np.array(m.data, dtype=np.float64)
    p = dict(params)
    if method == 'savgol':
        wl, po = p.pop('window_length'), p.pop('polyorder')
        return np.asarray(o(signal.savgol_filter)(x, wl, po, axis=0, **p), dtype=np.float64)
    if method == 'window':
        wt = p.get('window_type', 'hann')
        size = p['window_size']
        if callable(wt):
            w = np.array(wt(size), dtype=np.float64)
        else:
            w = o(windows.get_window)(wt, size, fftbins=False)
        w = w / w.sum()
        return o(ndimage.convolve1d)(x, weights=w, mode=p.get('mode', 'reflect'), cval=p.get('cval', 0.0), axis=0)
    raise KeyError(method)
