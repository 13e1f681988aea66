"""Writes /verif/known-findings.json."""
import json
import os
F = [
 ('C10', '19f72d0', 'chordlen of an empty curve was uninitialised memory (np.empty), also wrong under C02'),
 ('C12', '6b7b8a6', "window_filter divided the caller's window array by its sum in place"),
 ('C07', '66ac06c', 'point and segment indices below -size wrapped around to another point instead of IndexError (also C08)'),
 ('C07', '3610477', 'coorientplane of a co-oriented parametric curve warned about losing tdata although it was kept'),
 ('C14', '703db21', 'interpolation grids with NaN values were accepted and gave misaligned curves'),
 ('C13', 'ff496d3', "'almost' intersections of integer curves were computed with truncated parameters, unlike the pairwise search"),
 ('C02', '2bbd118', 'integer curves: chord lengths and planarity overflowed or wrapped around'),
 ('C35', '1f7f208', 'smoothing integer or float32 curves did not give float64 curves'),
 ('C05', '31f209a', 'two racing registrations of one name could both succeed; register decorators returned None'),
 ('C01', 'cb071b7', 'arrays of derived quantities (cached in the curve) were writable'),
 ('C09', '6a4ce5e', 'repr changed the process-wide print options; concurrent reprs left them changed'),
 ('C11', '3e3d699', 'unpickled and deep-copied points and curves had writable coordinates'),
 ('C07', 'f434eab', 'insert with a sequence of indices: negative indices out of the curve wrapped around, too large ones raised TypeError'),
 ('C10', '8607258', 'Akima interpolation of a two-point curve used uninitialised memory (also C14)'),
 ('C07', '26424e5', 'Curve.index with a start before the beginning of the curve gave an index out of the curve'),
 ('C02', 'b7a42af', 'the cumulative arc length (and parameter) of an empty curve had one value'),
    ('C11', 'a9c5ab2', 'a copied or deep-copied point of integers or single precision became double precision'),
]
out = {'open': [], 'fixed': ['fixed: property=%s %s %s' % f for f in F]}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
