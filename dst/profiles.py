# -*- coding: utf-8 -*-
"""What is simulated for each property: mix of operations, shared objects, faults, environment"""

READS = {'get': 6, 'getmany': 3, 'churn': 0.1, 'attrs': 0.5, 'point': 0.7, 'seg': 0.7}
EDITS = {'slice': 3, 'fancy': 2, 'mask': 1.5, 'insert': 3, 'append': 1.5, 'delete': 2.5, 'concat': 3, 'reverse': 2,
         'unique': 2, 'drop': 2, 'nonsingular': 1.5, 'coorient': 1.5, 'insertdim': 1.5, 'deletedim': 1.2,
         'subcurve': 0.7, 'mk': 0.7}
CALC = {'interp': 2.5, 'smooth': 2, 'icurve': 2, 'iseg': 1.2, 'dist': 1, 'segalg': 1, 'ptarith': 0.7}
VIEWS = {'point': 2, 'seg': 2, 'subcurve': 2.5, 'pcopy': 1.5, 'orphan': 2, 'iterate': 1}


def mix(*parts, **extra):
    out = {}
    for scale, part in parts:
        for k, v in part.items():
            out[k] = out.get(k, 0) + v * scale
    out.update(extra)
    return out


P = {}

P['C01'] = dict(
    ops=mix((1, READS), (0.6, EDITS), (0.6, CALC), poke=9, values=1.5, iterate=0.5, find=0.4, pickle=0.5, scribble=0.6,
            pcopy=0.3, mk=0.7, mkpoint=0.7, repr=0.3),
    fault=0.12, nofault=0.4, special={'interp': (0, 1)}, monitor=True)

P['C02'] = dict(
    ops=mix((1, READS), (0.25, VIEWS), nonsingular=0.5, interp=0.3, icurve=0.3, gc=0.05, dirty=0.2),
    ncurves=(1, 2), twin=0.3, npoints=(1, 3), nops=(2, 6), clients=(2, 2, 3, 3, 4), mirror=0.4, fault=0.15, nofault=0.5,
    curve={'n': (2, 9)}, warn=('ignore', 'record', 'error'), errraise=0.05)

P['C03'] = dict(
    ops=mix((1, READS), (0.8, EDITS), (1.2, CALC), repr=0.4, pickle=0.4, reg=2.2, lookup=0.6, setdef=0.5, getdef=0.3,
            idef=0.6, values=0.3, iterate=0.3, find=0.3, interpobj=0.6, gridobj=0.4, pcopy=0.2, orphan=0.2),
    fault=0.55, nofault=0.02, simple=0.4, regdefault=0.5, regkinds=('interp', 'smooth', 'inter', 'inter'), clients=(1, 1, 2, 2, 3), nops=(3, 8),
    special={'interp': (0, 1), 'grid': (0, 1), 'imethod': (0, 1), 'rmethod': (0, 1)})

P['C04'] = dict(
    simple=0.4,
    ops=dict(interp=5, smooth=5, icurve=5, iseg=4, drop=2, dist=2, interpobj=1.5, usermethod=6, fancy=0.3, delete=0.3,
             lookup=0.5, get=0.5),
    fault=0.75, nofault=0.0, faultkinds=('backend', 'cb'), faultfns=('linalg.solve', 'linalg.lstsq'), clients=(1, 1, 2), nops=(3, 8), twin=0.2,
    curve={'n': (2, 9)}, special={'interp': (0, 1)}, warn=('record',))

P['C05'] = dict(
    pg=0.4,
    ops=dict(reg=6, lookup=6, get=0.3, usermethod=0.3),
    ncurves=(1, 1), npoints=(0, 0), nsegs=(0, 0), clients=(2, 3, 3, 4), nops=(2, 5), fault=0.1, nofault=0.5,
    faultkinds=('async',), regnames=2, focus=0.0, mirror=0.2, dirty=0.0)

P['C06'] = dict(
    pg=0.5,
    ops=dict(setdef=4, getdef=2, idef=6, reg=1.5, icurve=0.5),
    regkinds=('inter',), regnames=4, regdefault=0.7, ncurves=(1, 2), clients=(2, 3, 3, 4), nops=(2, 5), fault=0.1,
    nofault=0.5, special={'rmethod': (1, 1)}, focus=0.0, mirror=0.1, defaults=True)

P['C07'] = dict(
    curve={'near': 0.15},
    ops=mix((1, EDITS), point=1, seg=0.5, get=0.8, attrs=0.5, find=0.5, iterate=0.5, values=0.4, pickle=0.2, refused=1),
    clients=(1, 2, 2, 3), nops=(4, 14), npoints=(1, 2), fault=0.05, nofault=0.7, warn=('ignore', 'record', 'error'))

P['C08'] = dict(
    ops=mix((1, READS), (1.2, VIEWS), pickle=0.4, reverse=0.4, slice=0.4, concat=0.4, gc=0.12, interp=0.2, nonsingular=0.3,
            find=0.4, refused=0.2),
    getkinds=('curve', 'cpoint', 'cpoint', 'cpoint', 'seg'), npoints=(2, 4), nsegs=(1, 3), fault=0.08, nofault=0.6,
    curve={'n': (2, 9)}, twin=0.5)

P['C09'] = dict(
    simple=0.4,
    ops=mix((0.4, READS), (0.3, EDITS), (1.2, CALC), repr=8, pickle=0.3, interpobj=0.3, iterate=0.2, usermethod=0.5),
    clients=(1, 2, 2, 3, 3), fault=0.3, nofault=0.3, faultkinds=('backend', 'cb'),
    warn=('ignore', 'record', 'error', 'record'), errraise=0.1, printopts=0.4)

P['C10'] = dict(
    simple=0.4,
    ops=mix((1, READS), (0.7, EDITS), (1.4, CALC), (1, {'interp': 3}), repr=0.6, values=0.2, iterate=0.2, find=0.3, orphan=0.4, gridobj=0.3,
            interpobj=0.3, mk=0.6, make=1.5, churn=1),
    clients=(1,), nops=(3, 9), ncurves=(2, 3), twin=0.5, special={'interp': (0, 1), 'grid': (0, 1)}, mirror=0.0)

P['C11'] = dict(
    ops=mix((0.8, READS), (0.7, EDITS), (0.5, CALC), pickle=6, pcopy=1.5, poke=0.6, interpobj=0.0),
    clients=(1, 2, 2, 3), nops=(3, 8), crash=0.7, npoints=(1, 3), nsegs=(0, 2), fault=0.08, nofault=0.6)

P['C12'] = dict(
    simple=0.4,
    ops=mix((0.4, READS), (0.8, EDITS), (1, CALC), mk=4, mkpoint=1.5, scribble=2, smooth=4, interp=4, drop=2, fancy=1.5,
            insertdim=2, dist=1.5, segalg=1, usermethod=2, gridobj=0.2, interpobj=0.6),
    clients=(1, 2, 2, 3), fault=0.1, nofault=0.5, monitor=True, special={'interp': (0, 1)})

P['C13'] = dict(
    ops=dict(icurve=8, iseg=5, get=0.7, segalg=0.3, reverse=0.3, concat=0.3, slice=0.3),
    ncurves=(2, 3), nsegs=(1, 2), twin=0.3, clients=(1, 2, 2, 3), nops=(1, 4), special={'imethod': (0, 2)}, fault=0.3,
    nofault=0.4, parallel=0.4, mirror=0.15, faultfns=('linalg.solve',), singular=True, warn=('record', 'ignore'))

P['C14'] = dict(
    ops=dict(interp=10, interpobj=3, gridobj=2, refused=0.4, get=0.7, reverse=0.3, slice=0.3, concat=0.3, nonsingular=0.3),
    ncurves=(2, 3), twin=0.4, clients=(1, 2, 2, 3), nops=(2, 7), special={'interp': (0, 2), 'grid': (0, 2)}, fault=0.2,
    nofault=0.4, curve={'nmin': 2}, simple=0.8)

P['C15'] = dict(
    vary=0.45, pg=0.35,
    ops=dict(interpobj=6, gridobj=5, icurve=4, iseg=2, dist=6, interp=3, smooth=3, idef=0.5, get=0.5, usermethod=2),
    ncurves=(2, 3), twin=0.5, clients=(1, 2, 2, 3), nops=(3, 8), mirror=0.3,
    special={'interp': (1, 2), 'grid': (1, 2), 'imethod': (1, 2), 'metric': (0, 2)}, fault=0.12, nofault=0.5,
    curve={'nmin': 2, 'simple': True})

P['C16'] = dict(
    ops=dict(plot=10, get=0.4, reverse=0.3, slice=0.3, concat=0.2),
    ncurves=(2, 4), npoints=(0, 1), nsegs=(0, 0), twin=0.3, clients=(1, 1, 2, 2, 3), nops=(2, 6), mirror=0.3,
    fault=0.2, nofault=0.5, dims=(2, 2, 2, 3, 3, 3, 4), curve={'nmin': 2, 'simple': True, 'n': (2, 9)})

for _name, _p in P.items():
    _p['name'] = _name
