# -*- coding: utf-8 -*-
"""Start-up of the simulated process.

Everything the library could reach for nondeterminism is put behind a seam here, before the library is imported:
locks (`kernel.SimLock`/`SimRLock`), the numerical backend (`backend`), clocks.  The library itself is imported
from the working tree of /repo, never from stale byte code.
"""

import os
import sys

REPO = os.environ.get('DST_REPO', '/repo')
LIB = os.path.join(REPO, 'skcurve')
PLOTS = False


def wants_plots(argv):
    """Is matplotlib needed?  (it takes seconds to load)"""
    if 'C16' in argv or argv[1:2] == ['selftest']:
        return True
    if argv[1:2] == ['replay'] and len(argv) > 2:
        with open(argv[2]) as f:
            return '"property": "C16"' in f.read()
    return False


def import_all():
    for var in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.setdefault(var, '1')
    sys.dont_write_bytecode = True

    import warnings
    warnings.simplefilter('ignore')

    import numpy, scipy.interpolate, scipy.signal, scipy.signal.windows, scipy.ndimage  # noqa
    import scipy.spatial.distance, scipy.special, networkx, cached_property, csaps  # noqa
    import typing_extensions, pickle, copy, random, functools  # noqa

    global PLOTS
    PLOTS = wants_plots(sys.argv)
    if PLOTS:
        # before the locks are replaced: matplotlib itself is not simulated
        os.environ['MPLBACKEND'] = 'Agg'
        import matplotlib.pyplot, mpl_toolkits.mplot3d  # noqa

    import kernel
    kernel.install_locks()

    import backend
    backend.install()
    if PLOTS:
        backend.install_plots()

    # Never trust byte code lying beside the sources: it may belong to another version of the tree
    sys.pycache_prefix = '/nonexistent-pycache'
    sys.path.insert(0, REPO)
    import skcurve
    import skcurve.curves
    if PLOTS:
        import skcurve.plot  # noqa
    if os.path.realpath(os.path.dirname(skcurve.__file__)) != os.path.realpath(LIB):
        raise SystemExit('harness error: skcurve was imported from %s, not from %s' % (skcurve.__file__, LIB))
    import ids
    ids.install('skcurve')
    kernel.set_traced([LIB + os.sep], [cached_property.__file__])
    warnings.resetwarnings()
    warnings.simplefilter('ignore')
    return skcurve
