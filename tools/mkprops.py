"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

B, D, G, I, N, S, M, U = ['skcurve/_%s.py' % x for x in
    ('base', 'diffgeom', 'geomalg', 'intersect', 'interpolate', 'smooth', 'distance', 'utils')]

prop('C01', 'Points, segments and curves never change once built',
 "Once a point, segment or curve exists, its coordinates, parameter vector and every quantity derived from them keep the same value for ever, whatever sequence of public operations (including augmented assignment), caller threads or failed and interrupted operations follows. Every array handed out by such an object either refuses in-place writes or is an independent copy, so nothing a caller does with a returned value can alter an existing object.",
 ['histories', 'schedules', 'fault_sequences'],
 'all sequences of public operations over a shared pool of objects by several caller threads, with write attempts on every handed-out array, and operations aborted at arbitrary points',
 'Each test builds one object, performs one operation and looks at the result; none checks that the operand is unchanged, writes into a returned array, shares an object between threads or aborts an operation.',
 [B, D], [('curve data', 'MxN coordinates, read-only', B), ('tdata', 'parameter vector, read-only', B), ('cached quantities', 'derived arrays kept in the instance', D)],
 [('read-only flag on owned arrays, copy on construction', B), ('operations build new objects', B), ('cached_property results', D)],
 ['Curve.data', 'Curve.t', 'Curve.values', 'derived quantities', 'Point.data', 'Segment.data'])

prop('C02', 'Derived quantities are the same in any order and from any thread',
 "Whenever and from whichever thread a derived quantity of a curve or of one of its points is read (chord, arc and cumulative lengths, parameter, derivatives, tangent, normal, binormal, speed, Frenet vectors, curvature, torsion, segments), the value is the one its definition gives for the coordinates, whatever was read before, is being computed concurrently, or was interrupted earlier. All readers agree, and no reader is ever left blocked.",
 ['schedules', 'histories', 'fault_sequences'],
 'all interleavings of readers at bytecode granularity, all orders of first reads, with reads aborted at arbitrary points',
 'Tests read one quantity once, from one thread, on a fresh curve; the lazily filled cache is never raced, re-read in another order, or left half-filled by an exception.',
 [D, B], [('per-instance cache', 'lazily computed quantity by name', D)],
 [('cached_property stores only finished values', D), ('point quantities delegate to the curve and index it', D)],
 ['Curve/CurvePoint derived properties'])

prop('C03', 'A failed or interrupted operation leaves no trace',
 "If an operation is aborted at any point (out of memory, Ctrl-C, failing numerical backend, failing user callback), every existing object, every registered method and the default method keep their values, and repeating the operation gives exactly the result it would have given had the failure never happened. A failure is never turned into a wrong result: the operation either raises or returns the correct value.",
 ['fault_sequences', 'histories', 'crash_points'],
 'an exception raised at an arbitrary bytecode of the library, at an arbitrary call of a numerical backend, or inside an arbitrary user callback, in the middle of any history of operations',
 'No test injects a failure into an operation; the only raising paths exercised are argument checks made before any work is done.',
 [B, D, G, I, N, S], [('instance caches', 'must hold finished values only', D), ('method registries', 'name to method maps', I)],
 [('results are assigned only after they were computed', D), ('no in-place modification of operands', B)],
 ['every public operation, before and after an aborted attempt'])

prop('C04', 'Failures surface as the documented errors; interrupts pass through',
 "A failure inside interpolation, smoothing or intersection, in a user-supplied component or in the numerical backend, reaches the caller as that operation's documented error type with the original failure as its cause; value and type errors of a smoothing method, and errors of grid providers, drop checkers and metrics, reach the caller unchanged, and an unknown method name is a name error. Interrupt-style exceptions (keyboard interrupt, system exit, generator exit) always reach the caller unchanged. A singular solve inside an exact intersection of plane segments is reported by a warning and counts as no intersection for that pair only.",
 ['fault_sequences', 'inputs'],
 'every kind of exception raised by every kind of user-supplied component and backend call, on every call',
 'No test makes a registered method, grid, checker, metric or backend fail; error types are not checked at all for interpolation, smoothing and intersection.',
 [N, S, I, B, M], [], [('try/except around method construction and evaluation', N), ('try/except around the smoothing callable', S), ('try/except around the intersection method; LinAlgError handler', I)],
 ['exception type, identity and cause chain seen by the caller', 'warnings issued'])

prop('C05', 'Method registries are insert-once maps under any interleaving',
 "Each of the three method registries (interpolation, smoothing, intersection) behaves, whatever threads register and look up concurrently, as an insert-once map: exactly one registration of a name succeeds and stays in force, every other one is refused with a value error and changes nothing, and a class of the wrong kind is refused with a type error and changes nothing. A name is listed once and found by every lookup that starts after its registration finished; looking up an unregistered name is a name error. The registering decorator leaves the decorated object usable under its own name.",
 ['schedules', 'histories', 'fault_sequences'],
 'all interleavings of registrations, listings and lookups by several threads on clashing names, with registrations aborted at arbitrary points',
 'No test registers anything; the check-then-insert window and refused registrations are never exercised.',
 [N, S, I], [('_interpolators, _smooth_methods, _intersect_methods', 'name to method', N)],
 [('register_* decorators', N), ('get_* lookups', I)], ['register_*', '*_methods()', 'get_*'])

prop('C06', 'The default intersection method is an atomic shared setting',
 "The default intersection method behaves as a single atomic register under any interleaving: a call that names no method uses the default that was in force at one instant during the call, a call that names a method or passes a method object is never affected by the default, and making an unknown name the default is a name error that changes nothing. Intersection calls never change the default, whether they succeed, fail or are interrupted.",
 ['schedules', 'histories', 'fault_sequences'],
 'all interleavings of setting, reading and implicitly using the default by several threads, with calls aborted at arbitrary points',
 'Tests never change the default; only the initial value is used, from one thread.',
 [I, B], [('_default_intersect_method', 'name of the default', I)], [('set_default_intersect_method, register_intersect_method(default=True), intersect', I)],
 ['default_intersect_method()', 'Curve.intersect / Segment.intersect without method'])

prop('C07', 'Any chain of edits refines a list of points with parameters attached',
 "Indexing, slicing, inserting, appending, deleting, concatenating, reversing, de-duplicating, dropping, removing singular points, re-orienting and adding or removing dimensions each give a new curve whose points are those the same edit gives on a plain list of points, in any chain of edits, while other threads edit the same curves. Parameter values stay attached to their points through slicing, deletion, concatenation of two parametric curves, reversal, re-orientation, de-duplication, dropping and singularity removal; insertion and dimension edits give a curve without parameters. An index outside the curve is refused with an index error, never wrapped around; edits that do not fit the curve (wrong dimension, size or kind of argument) are refused with an error. Membership, search, counting and equality answer as they do for such lists.",
 ['histories', 'schedules', 'inputs'],
 'all chains of edits with all index forms (integers, slices, lists, arrays, masks), dimensions, number types, with and without parameters, by several threads on shared curves',
 'Tests apply one edit to one small fixed curve; parameters are checked for three edits only, and no edit is applied to the result of another.',
 [B, D], [('data', 'points', B), ('tdata', 'parameter of each point', B)],
 [('__getitem__, insert, append, delete, __add__, reverse, unique, drop, insertdim, appenddim, deletedim, coorientplane', B), ('nonsingular', D)],
 ['resulting curve: data, t, isparametric, size, ndim'])

prop('C08', 'Curve points, segments and sub-curves stay true to their curve',
 "A point or segment taken from a curve always describes the same position of the same curve: its coordinates, index, parameter, chord length and every derived quantity equal the curve's own at that index, in whatever order and from whatever thread they are read, after copying the point, and after the caller has dropped every other reference to the curve and memory was reclaimed. A sub-curve between two points of a curve is exactly the stretch between them (with its parameters), and points of different curves are refused.",
 ['histories', 'schedules', 'fault_sequences'],
 'all orders of reads through views and curve, with garbage collection forced at arbitrary instants, references dropped, other curves created in between, several threads',
 'Tests read views immediately from a live curve on one thread; no test drops the curve, forces a collection, or mixes reads through the view and the curve.',
 [B, D], [('curve reference and index in a view', 'identity of the position', B)], [('CurvePoint, CurveSegment hold a strong reference', B), ('_maybe_curve_point delegation', D)],
 ['CurvePoint / CurveSegment attributes, subcurve'])

prop('C09', 'Process-wide settings are left as they were found',
 "When library operations finish, in whatever way they overlap in different threads and whether they succeed, fail or are aborted by a failing callback or backend, the process-wide settings they could touch are as before: array print options, floating-point error handling, warning filters and warning hooks, the state of the random generators. Text representations of objects are the same whatever other threads are printing at the time.",
 ['schedules', 'fault_sequences', 'histories'],
 'all interleavings of operations, text representations included, and failures inside callbacks, backends and allocations',
 'No test looks at process-wide settings, prints from two threads, or fails half-way through a representation.',
 [B, I, G, N, S, D], [('numpy print options, errstate, warnings.filters, random state', 'owned by the caller', 'process')],
 [('__repr__ of points, segments and curves', B), ('warnings.warn calls', D)], ['np.get_printoptions, np.geterr, warnings.filters, random state', 'repr()'])

prop('C10', 'Results do not depend on memory contents, hashing, collection or past work',
 "The result of any operation is a function of its arguments alone: the same program run in two processes gives the same results (or the same kind of error) whatever unrelated memory contained, whatever the hash seed, whenever garbage is collected, and whatever curves were processed before or are being processed in between.",
 ['histories', 'configurations', 'schedules'],
 'pairs of executions of the same program under different heap contents, hash seeds, collection instants, orders of unrelated work and interleavings',
 'Tests run once in one process, in one fixed order with a fixed hash seed, and compare with constants computed the same way.',
 [B, D, G, I, N, S, M], [], [('results computed only from arguments', D)], ['results of every public operation in differently perturbed executions'])

prop('C11', 'Copies and hand-over to another process preserve curves',
 "Copying, deep-copying, or pickling and restoring in another process a point, curve or curve point gives an object equal to the original, with the same number type, dimension, parameters and derived quantities, and just as immutable, whatever was computed or read on the original before. Work continued in a restarted process from restored objects gives the same results as if it had not been interrupted, and points restored together with their curve still belong to that curve.",
 ['crash_points', 'histories', 'schedules'],
 'a crash and restart after an arbitrary operation of any history, with only the pickled objects surviving; copies taken at any time, also while other threads use the object',
 'No test copies or pickles anything.',
 [B], [('data, tdata', 'what must survive', B)], [('__copy__, __deepcopy__, constructor from another object', B), ('pickling protocol', B)],
 ['restored objects in a fresh process'])

prop('C12', 'Data supplied by the caller is neither modified nor retained',
 "Arrays and lists the caller passes in (coordinates, parameter vectors, indices, interpolation grids, weights, windows returned by a window function, inserted dimension values, segment parameters) are never modified, even temporarily, and may be overwritten by the caller, also from another thread after the call, without any effect on objects already built. What user callbacks receive cannot be used to alter a curve, and callbacks may re-enter the library on the same curve.",
 ['histories', 'schedules', 'inputs'],
 'all buffer layouts and number types, buffers shared between threads and overwritten at arbitrary instants after the call, callbacks that try to write, re-enter or return shared buffers',
 'Tests pass fresh literals and never look at or change them afterwards; callbacks in tests are pure lambdas.',
 [B, S, N, U, G], [('caller buffers', 'owned by the caller', 'caller')], [('copy on construction', B), ('as2d + astype', U), ('window normalisation', S)],
 ['caller buffers after the call; curve values after the caller overwrites its buffers'])

prop('C13', 'Curve intersection is the pairwise intersection of its segments',
 "Searching the intersections of two curves, of a curve with a segment, or of a curve with itself reports exactly those pairs of segments that the same method reports when asked about the two segments alone (for a single curve: non-adjacent pairs, each once), in order of segment indices, naming the caller's own curves and segments. When the solver fails for one pair, all other pairs are still reported unchanged, and concurrent searches on the same curves do not influence one another.",
 ['fault_sequences', 'schedules', 'inputs'],
 'solver failures at arbitrary pairs, concurrent searches on shared curves, all shapes, dimensions and method parameters',
 'Tests compare a few fixed curves with constants; curve-level and segment-level answers are never compared, and the solver never fails.',
 [I, G], [], [('bounding-box filter and vectorised shortest segments', I), ('_curves_intersect_indices', I), ('segments_to_segments', G)],
 ['Curve.intersect', 'Segment.intersect'])

prop('C14', 'An interpolated curve matches its grid, or there is an error',
 "Interpolating a curve with a built-in method gives exactly one point per grid value, equal to the named interpolant of the curve over its parameter at that value, in the curve's dimension and number type, and with the grid as its parameter vector if and only if the curve is parametric. A grid that is not one-dimensional, free of NaN and strictly increasing is refused with a value error, also when a user-supplied grid provider returns it. If the backend or the provider fails there is an error, never a shorter, partial or misaligned curve.",
 ['fault_sequences', 'inputs', 'schedules'],
 'all grid forms and providers (well-behaved, failing, returning malformed grids), backend failures at arbitrary calls, concurrent use of shared curves and grids',
 'Tests interpolate straight lines on well-formed grids; malformed provider output, backend failures, parameter vectors, number types and curved data are not covered.',
 [N], [], [('_get_interpolation_grid validation', N), ('result construction with tdata', N), ('grid classes', N)],
 ['Curve.interpolate', 'get_interpolator(...)(grid)'])

prop('C15', 'Method objects and call parameters are isolated between calls',
 "Interpolators, interpolation grids, intersection-method objects and metrics can be used any number of times, by several threads at once and on different curves: each result depends only on the object's construction parameters and the arguments of that call, not on earlier, concurrent or failed calls. Parameters passed to one call of an operation never affect any other call, including calls that omit those parameters.",
 ['schedules', 'histories', 'fault_sequences'],
 'all interleavings of calls on shared method objects and of calls with different parameters, with calls aborted at arbitrary points',
 'Tests create a new method object for each call and call it once, with one set of parameters, from one thread.',
 [N, I, M, S], [('construction parameters of a method object', 'fixed at construction', I)], [('stateless __call__ of methods and grids', I), ('get_metric / get_intersect_method / get_interpolator build per call', M)],
 ['results of shared method objects'])

PURE = ('Tests sample a handful of inputs; the property ranges over all real-valued inputs.')
prop('C16', 'Plots draw the requested curve on the requested axes and nothing else',
 "Whatever was plotted, chained or failed before, and whatever is being plotted on other axes, plotting a two- or three-dimensional curve adds to the requested axes (a new figure if none were given, those of the plot it is chained to) exactly one drawing of the curve's points in order, coloured by the requested parameter over its own range, with the style, marks and normals requested by that call and no other. Earlier drawings, all other axes, the plotting settings and the curves stay as they were, also when the plot fails. A curve of more than three dimensions, or a three-dimensional curve on two-dimensional axes, is refused without drawing anything.",
 ['histories', 'fault_sequences', 'schedules'], 'all sequences of plots, chained, failing and interleaved, on any number of axes', 'No test imports the plotting module.', ['skcurve/plot.py'],
 [('axes of a plot', 'where it and the plots chained to it draw', 'skcurve/plot.py')],
 [('CurvePlot, CurvePlot.curveplot', 'skcurve/plot.py')], ['matplotlib artists of all axes, figures and settings'])

prop('C30', 'Interpolants pass through the points of the curve',
 "Interpolating a curve at its own parameter values with a method that is an interpolant gives back the points of the curve, and a uniform grid starts and ends at the curve's ends.",
 ['inputs'], 'all curves and interpolating methods', PURE, [N], [], [('interpolator classes', N)], ['Curve.interpolate'])
prop('C31', 'Exact intersection is geometrically sound and complete',
 "Two segments are reported as intersecting exactly when they have a common point (within rounding), the reported point lies on both, and the answer is the same for swapped, reversed, translated or scaled operands.",
 ['inputs'], 'all pairs of segments in every dimension', PURE, [I, G], [], [('ExactIntersectionMethod', I)], ['Segment.intersect'])
prop('C32', 'The shortest connecting segment is the shortest',
 "No pair of points on two segments (or a segment and a point) is closer than the ends of the reported shortest segment, and the distance is symmetric.",
 ['inputs'], 'all pairs of segments and points', PURE, [G], [], [('segment_to_segment, segment_to_point, segments_to_segments', G)], ['Segment.shortest_segment', 'Segment.distance'])
prop('C33', 'Frenet vectors are orthonormal; curvature and torsion are invariant',
 "Where they are defined, the Frenet vectors have unit length and are mutually orthogonal, and lengths, curvature and torsion do not change under rotation and translation of the curve.",
 ['inputs'], 'all curves and rigid motions', PURE, [D], [], [('Frenet vectors, curvature, torsion', D)], ['derived properties'])
prop('C34', 'Geometric predicates are symmetric and translation independent',
 "Parallelism, collinearity, coplanarity, overlap and angle give the same answer for swapped operands, reversed segments and translated configurations.",
 ['inputs'], 'all configurations of segments and points', PURE, [G, B], [], [('collinear_points, coplanar_points, parallel_segments', G)], ['Segment predicates'])
prop('C35', 'Smoothing keeps the number of points and fixes constants',
 "Smoothing gives a double-precision curve with as many points as the input and leaves a constant curve unchanged in the interior.",
 ['inputs'], 'all curves and smoothing parameters', PURE, [S], [], [('savgol_filter, window_filter', S)], ['Curve.smooth'])
prop('C36', 'Predefined curves satisfy their equations',
 "Each predefined curve has the requested number of points, carries its parameter, and each of its points satisfies the curve's defining equation at that parameter.",
 ['inputs'], 'all parameters of the predefined curves', PURE, ['skcurve/curves.py'], [], [('curve factories', 'skcurve/curves.py')], ['skcurve.curves'])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
