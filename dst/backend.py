# -*- coding: utf-8 -*-
"""Seam between the library and its numerical backend (numpy, scipy, csaps).

The wrappers are inert (they only call the original) unless the running simulated client has an armed backend
fault; then the k-th call of the named entry point which is made *directly by library code* fails.
"""

import sys
import functools

import kernel

NAMES = {}     # 'linalg.solve' -> kind


def hook(name):
    c = kernel.BY_IDENT.get(kernel._ident())
    if c is None:
        return
    if not kernel.is_lib(sys._getframe(2).f_code.co_filename):
        return
    calls = c.bcalls
    if calls is None:
        return
    k = calls[name] = calls.get(name, 0) + 1
    f = c.bfault
    if f is not None and f['fn'] == name and f['k'] == k:
        c.bfault = None
        exc = kernel.make_exc(f['exc'])
        c.bfault_exc = exc
        raise exc


def _wrap_quiet(module, attr, name):
    """A component which is not traced itself, for the sake of speed"""
    orig = getattr(module, attr)

    @functools.wraps(orig)
    def wrapper(*args, **kwargs):
        hook(name)
        trace = sys.gettrace()
        if trace is None:
            return orig(*args, **kwargs)
        sys.settrace(None)
        try:
            return orig(*args, **kwargs)
        finally:
            sys.settrace(trace)
    wrapper.__dst_orig__ = orig
    setattr(module, attr, wrapper)
    NAMES[name] = wrapper


def _wrap_func(module, attr, name):
    orig = getattr(module, attr)

    @functools.wraps(orig)
    def wrapper(*args, **kwargs):
        hook(name)
        return orig(*args, **kwargs)
    wrapper.__dst_orig__ = orig
    setattr(module, attr, wrapper)
    NAMES[name] = wrapper


def _wrap_class(module, attr, name):
    orig = getattr(module, attr)

    def __init__(self, *args, **kwargs):
        hook(name)
        orig.__init__(self, *args, **kwargs)

    def __call__(self, *args, **kwargs):
        hook(name + '()')
        return orig.__call__(self, *args, **kwargs)

    cls = type(attr, (orig,), {'__init__': __init__, '__call__': __call__, '__dst_orig__': orig,
                               '__module__': orig.__module__})
    setattr(module, attr, cls)
    NAMES[name] = cls
    NAMES[name + '()'] = cls


def install():
    import numpy as np
    import scipy.interpolate as interp
    import scipy.signal as signal
    import scipy.signal.windows as windows
    import scipy.ndimage as ndimage
    import scipy.spatial.distance as distance
    import csaps

    for attr in ('solve', 'lstsq', 'matrix_rank', 'norm', 'det'):
        _wrap_func(np.linalg, attr, 'linalg.' + attr)
    # allocating entry points of numpy: out of memory
    for attr in ('gradient', 'diff', 'hstack', 'vstack', 'stack', 'insert', 'delete', 'unique', 'cumsum', 'einsum',
                 'linspace', 'array2string', 'isclose', 'flip', 'flipud', 'nonzero', 'tril_indices'):
        if hasattr(np, attr):
            _wrap_func(np, attr, 'np.' + attr)
    for attr in ('interp1d', 'CubicSpline', 'CubicHermiteSpline', 'Akima1DInterpolator', 'PchipInterpolator',
                 'UnivariateSpline'):
        _wrap_class(interp, attr, 'interp.' + attr)
    _wrap_class(csaps, 'CubicSmoothingSpline', 'csaps.CubicSmoothingSpline')
    _wrap_func(signal, 'savgol_filter', 'signal.savgol_filter')
    _wrap_func(ndimage, 'convolve1d', 'ndimage.convolve1d')
    _wrap_func(windows, 'get_window', 'windows.get_window')
    for attr in ('pdist', 'squareform', 'euclidean', 'cityblock', 'chebyshev', 'minkowski'):
        _wrap_func(distance, attr, 'distance.' + attr)


def install_plots():
    import matplotlib.axes
    import matplotlib.cm
    import matplotlib.collections
    import matplotlib.colors
    import matplotlib.figure
    import matplotlib.pyplot
    from mpl_toolkits.mplot3d import Axes3D, art3d

    for cls, label, attrs in ((matplotlib.axes.Axes, 'Axes', ('plot', 'quiver', 'scatter', 'add_collection')),
                              (Axes3D, 'Axes3D', ('plot', 'scatter', 'add_collection3d')),
                              (matplotlib.figure.Figure, 'Figure', ('add_subplot', 'colorbar'))):
        for attr in attrs:
            _wrap_quiet(cls, attr, 'mpl.%s.%s' % (label, attr))
    _wrap_quiet(matplotlib.pyplot, 'figure', 'mpl.figure')
    _wrap_class(matplotlib.collections, 'LineCollection', 'mpl.LineCollection')
    _wrap_class(art3d, 'Line3DCollection', 'mpl.Line3DCollection')
    _wrap_class(matplotlib.colors, 'Normalize', 'mpl.Normalize')
    _wrap_class(matplotlib.cm, 'ScalarMappable', 'mpl.ScalarMappable')
