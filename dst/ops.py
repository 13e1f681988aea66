# -*- coding: utf-8 -*-
"""Operations of the simulated clients: generation, execution and oracles"""

import copy
import gc
import operator
import pickle
import sys

import numpy as np

import ids
import kernel
import model
from model import MCurve, Expect, Skip, close
from world import Obj, DT, layout, nat, scribble, freeze, same_bytes

import skcurve
from skcurve import Curve, Point, Segment, CurvePoint, CurveSegment

GEN, RUN, BACKEND, EST, SPECIAL_GEN, SPECIAL = {}, {}, {}, {}, {}, {}
NOFAULT = set()


class Prep:
    def __init__(self, call, tags, ref=None, cmp=None, result=None, maybe=(), fam=None, errs=(), bufs=(), scrib=(),
                 maywarn=False, post=None, what=None, retry=True, kindm=None, strict=None):
        self.call = call          # the library call
        self.tags = tags          # properties broken by a wrong outcome
        self.ref = ref            # reference: value, or raises Expect/Skip
        self.cmp = cmp            # compare(value, reference) -> message or None
        self.result = result      # 'curve': the result is a curve, ref() gives its model
        self.maybe = maybe
        self.fam = fam
        self.errs = errs          # documented error types which may wrap a failure
        self.bufs = list(bufs)    # caller's data: must not change during the call
        self.scrib = list(scrib)  # caller's data which is overwritten after the call
        self.maywarn = maywarn
        self.post = post
        self.what = what
        self.retry = retry
        self.strict = strict      # fn name -> 'wrap' / 'same': how a failure has to surface


def op(name, est=300, backend=None, nofault=False):
    def deco(cls):
        GEN[name] = cls.gen
        RUN[name] = cls.run
        EST[name] = est
        if backend:
            BACKEND[name] = backend
        if nofault:
            NOFAULT.add(name)
        return cls
    return deco


def get(W, cl, ref, kinds):
    if isinstance(kinds, str):
        kinds = (kinds,)
    o = None
    if 'r' in ref:
        o = W.results[cl.num].get(ref['r'])
    if o is None or o.kind not in kinds:
        s = ref.get('s', -1)
        o = W.shared[s] if 0 <= s < len(W.shared) else None
    if o is None or o.kind not in kinds:
        for c in W.shared:
            if c.kind in kinds:
                return c
        return None
    return o


# ================================================================================================= execution of an op

def dumps(obj, proto):
    try:
        return pickle.dumps(obj, proto)
    except AssertionError:
        # the pickler of the interpreter cannot put two empty buffers into one pickle by protocol 5
        if proto < 5:
            raise
        return pickle.dumps(obj, 4)


def caused_by(err, exc):
    seen = set()
    while err is not None and id(err) not in seen:
        if err is exc:
            return True
        seen.add(id(err))
        err = err.__cause__ if err.__cause__ is not None else err.__context__
    return False


def warnlike(err):
    """A warning or floating point error requested by the environment, possibly wrapped"""
    seen = set()
    while err is not None and id(err) not in seen:
        if isinstance(err, (Warning, FloatingPointError)):
            return True
        seen.add(id(err))
        err = err.__cause__ if err.__cause__ is not None else err.__context__
    return False


def execute(W, cl, o):
    cl.op = o['id']
    cl.opname = o['op']
    cl.n = 0
    cl.kernel.step(cl, None, 'op boundary')
    run = RUN[o['op']]
    W.count('ops')
    W.count('op.' + o['op'])
    for attempt in (1, 2):
        with np.errstate(all='ignore'):
            prep = run(W, cl, o, attempt)
        if prep is None:
            W.count('skipped')
            return
        fired, outcome = invoke(W, cl, o, prep, attempt)
        if not fired:
            with np.errstate(all='ignore'):
                judge(W, cl, o, prep, outcome, attempt)
            return
        W.fired.append(fired[0])
        surfaced(W, cl, o, prep, outcome, fired)
        if outcome[0] == 'ok':
            if fired[0] != 'async' and prep.strict is not None:
                # a failure which was swallowed: no failure of the operation, unless the result suffers from it
                prep.maybe = tuple(prep.maybe) + ('C04',)
            with np.errstate(all='ignore'):
                judge(W, cl, o, prep, outcome, attempt)
            return
        if not prep.retry:
            return
        # the operation is repeated without the failure
        outcome[1].__traceback__ = None
        outcome = None
        fired = None
        cl.n = 0


def invoke(W, cl, o, prep, attempt):
    f = o.get('fault') if attempt == 1 else None
    cl.fault_exc = cl.bfault_exc = cl.cb_exc = None
    cl.fault = dict(f) if f and f['kind'] == 'async' else None
    cl.bfault = dict(f) if f and f['kind'] == 'backend' else None
    cl.bcalls = {}
    cl.attempt = attempt
    frozen = [(b, freeze(b)) for b in prep.bufs]
    cl.live = frozen
    cl.nstores = 0
    cl.storing = False
    if cl.fault is not None and 'at' not in cl.fault:
        cl.fault['n'] += cl.n
    outcome = None
    call = prep.call
    tracer = cl.tracer
    start = cl.n
    sys.settrace(tracer)
    try:
        val = call()
        sys.settrace(None)
        outcome = ('ok', val)
    except BaseException as err:  # noqa
        sys.settrace(None)
        if isinstance(err, kernel.SimFailure):
            raise
        outcome = ('err', err)
    W.count('steps', cl.n - start)
    cl.live = ()
    unfired = cl.fault is not None or cl.bfault is not None
    cl.fault = cl.bfault = None
    cl.bcalls = None
    if unfired:
        W.count('fault.unreached')
    fired = None
    if cl.fault_exc is not None:
        fired = ('async', cl.fault_exc, None)
        W.count('fault.async.' + type(cl.fault_exc).__name__)
    elif cl.bfault_exc is not None:
        fired = ('backend', cl.bfault_exc, f['fn'])
        W.count('fault.backend.%s.%s' % (f['fn'], type(cl.bfault_exc).__name__))
    elif cl.cb_exc is not None:
        fired = ('cb', cl.cb_exc, None)
        W.count('fault.callback.%s' % type(cl.cb_exc).__name__)
    for b, fr in frozen:
        if freeze(b) != fr:
            W.violate(('C12',), 'argument modified', '%s: the data passed by the caller was modified' % o['op'],
                      cl.num, o['id'])
    if not W.noscribble:
        for b in prep.scrib:
            scribble(b)
    return fired, outcome


def surfaced(W, cl, o, prep, outcome, fired):
    """C04: how the injected failure reached the caller"""
    kind, exc, fn = fired
    v = lambda msg: W.violate(('C04',), 'failure surfaced wrongly', '%s: %s %r in %s: %s' % (  # noqa
        o['op'], kind, exc, fn or 'component', msg), cl.num, o['id'])
    interrupt = not isinstance(exc, Exception)
    if outcome[0] == 'ok':
        if interrupt:
            v('the interrupt did not reach the caller')
            return
        if kind == 'backend' and fn == 'linalg.solve' and type(exc).__name__ == 'LinAlgError':
            # reported by a warning; the result is judged
            if W.env.get('warn') == 'record' and not any(
                    w[0] == cl.num and w[1] == o['id'] and w[2] == 'IntersectionWarning' for w in W.warned):
                v('the singular solve was not reported by a warning')
            return
        if kind == 'cb':
            v('the failure of the component did not reach the caller')
        return
    err = outcome[1]
    if interrupt:
        if err is not exc:
            v('reached the caller as %r' % err)
        return
    rule = 'any'
    if prep.strict is not None:
        rule = prep.strict(kind, exc, fn) or 'any'
    if rule == 'same' and err is not exc:
        v('reached the caller as %r instead of unchanged' % err)
    elif rule == 'wrap' and not (prep.errs and type(err) in prep.errs and err.__cause__ is not None and
                                 caused_by(err, exc)):
        v('reached the caller as %r instead of %s with the original failure as its cause' % (
            err, [e.__name__ for e in prep.errs]))
    elif isinstance(rule, tuple):
        if not (type(err) is rule[0] and caused_by(err, exc)):
            v('reached the caller as %r instead of %s' % (err, rule[0].__name__))
    elif rule == 'any' and not (err is exc or (prep.errs and type(err) in prep.errs and caused_by(err, exc))):
        if caused_by(err, exc) and isinstance(err, (ValueError, IndexError)):
            return
        v('reached the caller as %r' % err)


def judge(W, cl, o, prep, outcome, attempt):
    num, oid = cl.num, o['id']
    if W.record:
        W.outcomes[num, oid] = canon(outcome)
    maybe = set(prep.maybe)
    if W.plan.get('crash') or o['op'] == 'pickle':
        maybe.add('C11')
    if W.plan_has_faults:
        maybe.add('C03')
    what = prep.what or o['op']
    if attempt == 2:
        what += ' (repeated after a failure)'

    if outcome[0] == 'err':
        outcome[1].__traceback__ = None
        if prep.maywarn and W.strictenv and warnlike(outcome[1]):
            W.count('strict-env errors')
            return

    if prep.result == 'curve':
        try:
            m = prep.ref()
        except Expect as e:
            _expect_error(W, e, outcome, prep, what, num, oid, maybe)
            return
        except Skip:
            W.count('undecided')
            return
        if outcome[0] == 'err':
            try:
                if m.lazy is not None:
                    m.lazy()
            except Skip:
                W.count('undecided')
                return
            W.violate(prep.tags, what, 'unexpected %r, expected a curve of %d points' % (outcome[1], m.n), num, oid,
                      maybe)
            return
        val = outcome[1]
        if not isinstance(val, Curve):
            W.violate(prep.tags, what, 'result is %r' % type(val), num, oid, maybe)
            return
        r = W.add(Obj('curve', val, m, born=(num, oid), name='c%d.%d' % (num, oid)))
        if prep.cmp is None:
            W.check_new_curve(r, prep.tags, what, num, oid, maybe)
            W.adopt_layout(r)
        else:
            # compared with tolerance; from now on the actual coordinates are the model
            exp = m
            r.m = MCurve(r.snap, val.t if val.isparametric else None)

            def check():
                msg = prep.cmp(val, exp)
                if msg:
                    W.violate(prep.tags, what, msg, num, oid, maybe)
            W.checks.append(check)
        W.results[num][oid] = r
        return

    if prep.post is not None and outcome[0] == 'ok':
        prep.post(outcome[1])

    def check():
        try:
            exp = prep.ref() if prep.ref is not None else None
        except Expect as e:
            _expect_error(W, e, outcome, prep, what, num, oid, maybe)
            return
        if outcome[0] == 'err':
            W.violate(prep.tags, what, 'unexpected %r' % (outcome[1],), num, oid, maybe)
            return
        try:
            msg = prep.cmp(outcome[1], exp) if prep.cmp is not None else None
        except Exception as err:
            # the judge works on every well-formed result
            msg = 'malformed result: %r; judging it fails: %r' % (type(outcome[1]), err)
        if msg:
            if isinstance(msg, tuple):
                W.violate(msg[0], what, msg[1], num, oid, maybe)
            else:
                W.violate(prep.tags, what, msg, num, oid, maybe)
    W.checks.append(check)


def canon(outcome):
    """Comparable form of an outcome, which can be sent to another process"""
    if outcome[0] == 'err':
        return ('err', type(outcome[1]).__name__)
    return ('ok', _canon(outcome[1], 0))


def _canon(v, depth):
    if depth > 6:
        return '...'
    if isinstance(v, Curve):
        return ('curve', np.array(v.data), np.array(v.t) if v.isparametric else None)
    if isinstance(v, CurvePoint):
        return ('cpoint', np.array(v.data), v.idx)
    if isinstance(v, Point):
        return ('point', np.array(v.data))
    if isinstance(v, CurveSegment):
        return ('cseg', np.array(v.data), v.idx)
    if isinstance(v, Segment):
        return ('seg', np.array(v.data))
    if isinstance(v, skcurve.SegmentsIntersection):
        return ('inter', _canon(v.segment1, depth + 1), _canon(v.segment2, depth + 1), info_of(v))
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return [_canon(x, depth + 1) for x in v.ravel().tolist()]
        return np.array(v)
    if isinstance(v, (list, tuple)):
        return [_canon(x, depth + 1) for x in v]
    if isinstance(v, (int, float, str, bool, type(None), np.generic)):
        return v
    return type(v).__name__


def same_canon(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same_canon(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or a is None or isinstance(b, str) or b is None:
        return type(a) == type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    if nat(a.dtype) != nat(b.dtype) or a.shape != b.shape:
        return False
    if a.dtype.kind not in 'fc':
        return bool(np.array_equal(a, b))
    scale = float(np.max(np.abs(a[np.isfinite(a)]))) if np.any(np.isfinite(a)) else 1.0
    single = a.dtype.itemsize < 8
    return close(a, b, rtol=1e-4 if single else 1e-9, atol=(1e-5 if single else 1e-10) * (1.0 + scale))


def _expect_error(W, e, outcome, prep, what, num, oid, maybe):
    if outcome[0] == 'ok':
        W.violate(prep.tags, what, 'no error, expected one of %s; result %r' % (
            [t.__name__ for t in e.types], outcome[1]), num, oid, maybe)
    elif not isinstance(outcome[1], e.types):
        W.violate(prep.tags, what, 'error %r, expected one of %s' % (
            outcome[1], [t.__name__ for t in e.types]), num, oid, maybe)


# ======================================================================================================== callbacks

def callback(W, cl0, cb, curve=None, arrays=(), attempt=1):
    """Body of every user callback.  Runs in the thread of whoever is called"""
    cl = kernel.current()
    W.count('callbacks')
    for _ in range(cb.get('y', 0)):
        kernel.yield_point()
    do = cb.get('do')
    if do == 'scribble':
        for a in arrays:
            try:
                a[...] = 55
            except (ValueError, TypeError):
                W.count('write refused')
            try:
                a += 1
            except (ValueError, TypeError):
                pass
    elif do == 'reenter' and curve is not None:
        W.count('reentered')
        try:
            reenter(curve, cb.get('q', 'curvature'))
        except kernel.SimFailure:
            raise
        except Exception:
            # whatever the curve is, an error of the inner operation is not the subject here
            if cl is not None and cl.tracer is not None:
                pass
    if cb.get('exc') and attempt == 1 and cl is not None and cl.fault_exc is None:
        exc = kernel.make_exc(cb['exc'])
        cl.cb_exc = exc
        raise exc
    for _ in range(cb.get('y', 0) // 2):
        kernel.yield_point()


def reenter(curve, q):
    if q == 'repr':
        repr(curve)
    elif q == 'nonsingular':
        curve.nonsingular()
    elif q == 'interpolate':
        curve.interpolate(5, 'linear')
    elif q == 'intersect':
        if curve.size <= 20:
            curve.intersect(method='almost')
    else:
        getattr(curve, q)


# =========================================================================================================== reading

def ref_quantity(W, o, q):
    """Reference value of a quantity of a curve object, computed once"""
    cache = o.extra if isinstance(o.extra, dict) else None
    if cache is None:
        cache = o.extra = {}
    key = ('ref', q)
    if key not in cache:
        try:
            cache[key] = ('ok', model.quantity(o.m, q))
        except Skip:
            cache[key] = ('skip', None)
    if cache[key][0] == 'skip':
        raise Skip
    return cache[key][1]


def clone_quantity(W, o, q):
    """Value on a fresh copy of the curve, computed in isolation after the run"""
    cache = o.extra if isinstance(o.extra, dict) else None
    if cache is None:
        cache = o.extra = {}
    if 'clone' not in cache:
        cache['clone'] = W.clone(o.m)
    key = ('clone', q)
    if key not in cache:
        try:
            cache[key] = ('ok', getattr(cache['clone'], q))
        except Exception as err:
            cache[key] = ('err', err)
    return cache[key]


def quantity_message(W, o, q, val, clone=True):
    """None or (tags, message) for a value of a quantity of a curve"""
    m = o.m
    c = clone_quantity(W, o, q) if clone else (None, None)
    if c[0] == 'ok':
        tol = 1e-9 if m.data.dtype != np.float32 else 1e-4
        if q == 'segments':
            if len(val) != max(0, m.n - 1):
                return '%d segments for %d points' % (len(val), m.n)
            for i, s in enumerate(val):
                if not isinstance(s, CurveSegment) or s.curve is not o.obj or s.idx != i:
                    return 'segment %d is segment %r of %r' % (i, getattr(s, 'idx', None), getattr(s, 'curve', None))
            return None
        scale = np.max(np.abs(m.data)) if m.data.size and m.finite else 0.0
        if not close(val, c[1], rtol=tol, atol=tol * (1 + scale)):
            return 'value %s, on an untouched copy of the curve it is %s' % (
                np.asarray(val).tolist(), np.asarray(c[1]).tolist())
    try:
        r = ref_quantity(W, o, q)
    except Skip:
        W.count('undecided')
        return None
    if not close(val, r, dtype=m.data.dtype, rtol=1e-6, atol=1e-7):
        if m.data.dtype == np.float32 and _within(val, r, _moves(m, q), 1e-4 * (1 + np.max(np.abs(m.data)))):
            W.count('undecided')
            return None
        return 'value %s, by its definition it is %s' % (np.asarray(val).tolist(), np.asarray(r).tolist())
    W.count('reference values')
    return None


def _moves(m, q):
    """How much a quantity of a single precision curve moves when the coordinates move by some roundings"""
    x = m.data.astype(np.float64)
    out = None
    size = 1 + np.max(np.abs(x))
    # the second kind: what the roundings of the computation itself do (to values which the coordinates do not move, such as
    # the binormal of a plane curve), from double to single precision
    for seed, eps, mul in ((1, 3e-6, 1.0), (2, 3e-6, 1.0), (3, 3e-6, 1.0), (4, 4e-16, 1e9), (5, 4e-16, 1e9), (6, 4e-16, 1e9)):
        mp = MCurve(m.data, m.t)
        mp.data = x + eps * size * _noise(seed, x.shape)
        try:
            d = mul * np.abs(np.asarray(model.quantity(mp, q)) - np.asarray(model.quantity(m, q)))
        except Skip:
            return None
        out = d if out is None else np.maximum(out, d)
    return np.max(out) if np.size(out) else 0.0


def _within(val, r, move, scale):
    if move is None:
        return True
    with np.errstate(all='ignore'):
        return np.shape(val) == np.shape(r) and bool(np.all(np.abs(np.asarray(val, dtype=float) - r) <= 30 * move + scale))


CURVE_Q = model.QUANTITIES + ('segments',)
SEG_Q = ('chordlen', 'seglen', 'singular', 'dot', 'direction', 'data', 'ndim', 'idx')


def _seen(W, o, q, val):
    """All readers agree, for ever"""
    if isinstance(val, np.ndarray) and val.dtype == object:
        return None
    key = (id(o), q)
    b = freeze(np.asarray(val))
    first = W.touched.get(key)
    if first is None:
        W.touched[key] = (o, q, b)
        return None
    if first[2] != b:
        f = np.frombuffer(first[2][3], dtype=np.dtype(first[2][1])).reshape(first[2][2])
        tol = 1e-10 if o.m.data.dtype != np.float32 else 1e-5
        scale = np.max(np.abs(f[np.isfinite(f)]), initial=0.0) if f.dtype.kind == 'f' else 0.0
        if not (f.shape == np.asarray(val).shape and close(f, val, rtol=tol, atol=tol * (1 + scale))):
            return (('C01', 'C02'), '%s was %s for an earlier reader and is %s' % (
                q, f.tolist(), np.asarray(val).tolist()))
    return None


@op('get', est=400, backend=['np.diff', 'np.hstack', 'np.cumsum', 'np.gradient', 'linalg.norm', 'np.einsum',
                             'np.isclose'])
class _:
    @staticmethod
    def gen(G):
        r = G.r
        kind = r.choice(G.p.get('getkinds', ('curve', 'curve', 'curve', 'cpoint', 'seg')))
        a = {'ref': G.ref(kind, 0.35), 'kind': kind}
        if kind == 'seg':
            a['q'] = r.choice(SEG_Q)
        elif kind == 'cpoint':
            a['q'] = r.choice(model.POINT_QUANTITIES)
        else:
            a['q'] = r.choice(CURVE_Q + ('torsion', 'curvature', 'frenet2', 'frenet3', 'segments', 'cumarclen'))
        return a

    @staticmethod
    def run(W, cl, a, attempt):
        o = get(W, cl, a['ref'], a['kind'])
        if o is None:
            return None
        x, q = o.obj, a['q']
        if o.kind == 'seg':
            return _get_seg(W, o, q)
        if o.kind == 'cpoint':
            co, k = o.m

            def cmp(val, exp):
                full = getattr(co.obj, q)
                if not same_bytes(np.asarray(val), np.asarray(full[k])):
                    return '%s of point %d is %s, the curve says %s' % (q, k, np.asarray(val).tolist(),
                                                                         np.asarray(full[k]).tolist())
                msg = quantity_message(W, co, q, full)
                if msg:
                    return (('C02', 'C08'), '%s of point %d: %s' % (q, k, msg))

            def ref():
                return _defined(W, co, q)
            return Prep(lambda: getattr(x, q), ('C08', 'C02'), ref=ref, cmp=cmp, maywarn=True, what=q + ' of a point')

        def cmp(val, exp):
            return _seen(W, o, q, val) or quantity_message(W, o, q, val)

        def ref():
            return _defined(W, o, q)
        return Prep(lambda: getattr(x, q), ('C02',), ref=ref, cmp=cmp, maywarn=True, what=q)


def _defined(W, co, q):
    """Raises Expect if an untouched copy of the curve refuses the quantity as well (curves with < 2 points)"""
    c = clone_quantity(W, co, q)
    if c[0] == 'err' and co.m.n < 2:
        raise Expect(type(c[1]))


def _get_seg(W, o, q):
    s = o.obj
    co, k = o.m
    x = co.m.data.astype(np.float64)
    p1, p2 = x[k], x[k + 1]

    def ref():
        with np.errstate(all='ignore'):
            if q in ('chordlen', 'seglen', 'direction', 'dot', 'singular') and not np.all(np.isfinite([p1, p2])):
                raise Skip
            if q in ('chordlen', 'seglen'):
                return np.sqrt(np.sum((p1 - p2) ** 2))
            if q == 'singular':
                return bool(np.all(model.isclose(p1, p2)))
            if q == 'dot':
                return np.dot(p1, p2)
            if q == 'direction':
                return p2 - p1
            if q == 'data':
                return np.array([p1, p2])
            if q == 'ndim':
                return co.m.d
            return k

    def cmp(val, exp):
        if q == 'direction':
            val = val.data
        if q in ('ndim', 'idx', 'singular'):
            return None if val == exp else '%s is %r instead of %r' % (q, val, exp)
        if not np.all(np.isfinite(np.asarray(exp))):
            return None
        return None if close(val, exp, dtype=co.m.data.dtype) else '%s is %s instead of %s' % (
            q, np.asarray(val).tolist(), np.asarray(exp).tolist())
    return Prep(lambda: getattr(s, q), ('C08',), ref=ref, cmp=cmp, maywarn=True, what=q + ' of a segment')


@op('getmany', est=1200, backend=['np.gradient', 'linalg.norm', 'np.einsum', 'np.diff', 'np.hstack'])
class _:
    """Several quantities, read one after the other"""
    @staticmethod
    def gen(G):
        r = G.r
        qs = list(model.POINT_QUANTITIES)
        r.shuffle(qs)
        return {'ref': G.ref(r.choice(('curve', 'curve', 'cpoint')), 0.3), 'qs': qs[:r.randint(2, 6)]}

    @staticmethod
    def run(W, cl, a, attempt):
        o = get(W, cl, a['ref'], ('curve', 'cpoint'))
        if o is None:
            return None
        x, qs = o.obj, a['qs']
        co, k = (o, None) if o.kind == 'curve' else o.m
        if co.m.n < 2:
            return None

        def call():
            return [getattr(x, q) for q in qs]

        def cmp(vals, exp):
            for q, v in zip(qs, vals):
                if k is None:
                    msg = _seen(W, o, q, v) or quantity_message(W, o, q, v)
                else:
                    full = getattr(co.obj, q)
                    msg = None
                    if not same_bytes(np.asarray(v), np.asarray(full[k])):
                        msg = (('C02', 'C08'), '%s of point %d is %s, the curve says %s' % (
                            q, k, np.asarray(v).tolist(), np.asarray(full[k]).tolist()))
                    else:
                        msg = quantity_message(W, co, q, full)
                if msg:
                    return msg if isinstance(msg, tuple) else (('C02',), '%s: %s' % (q, msg))
        return Prep(call, ('C02',) if k is None else ('C02', 'C08'), cmp=cmp, maywarn=True)


@op('attrs', est=40)
class _:
    @staticmethod
    def gen(G):
        return {'ref': G.ref(('curve', 'curve', 'cpoint'))}

    @staticmethod
    def run(W, cl, a, attempt):
        o = get(W, cl, a['ref'], ('curve', 'cpoint'))
        if o is None:
            return None
        x = o.obj
        if o.kind == 'curve':
            m = o.m
            exp = (m.n, m.n, m.data.dtype, m.t is not None, m.n > 0)
            return Prep(lambda: (len(x), x.size, x.dtype, x.isparametric, bool(x), x.ndim, x.is2d, x.is3d),
                        ('C01', 'C07'), ref=lambda: exp,
                        cmp=lambda v, e: None if tuple(v[:5]) == e and (
                            not m.n or (v[5] == m.d and v[6] == (m.d == 2) and v[7] == (m.d == 3)))
                        else 'attributes %r instead of %r' % (v, e))
        co, k = o.m
        return Prep(lambda: (x.idx, x.ndim, len(x), x.curve), ('C08',),
                    cmp=lambda v, e: None if v[:3] == (k, co.m.d, co.m.d) and v[3] is co.obj
                    else 'point attributes %r, expected index %d of its curve' % (v, k))


def new_point(W, cl, o, co, k):
    def post(val):
        if isinstance(val, CurvePoint):
            W.results[cl.num][o['id']] = W.add(Obj('cpoint', val, (co, k), name='c%d.%d' % (cl.num, o['id'])))

    def cmp(val, exp):
        if type(val) is not CurvePoint:
            return 'result is %r' % type(val)
        if val.curve is not co.obj:
            return 'the point belongs to another curve'
        if val.idx != k:
            return 'the index is %r instead of %d' % (val.idx, k)
        if not close(val.data, co.m.data[k].astype(np.float64), rtol=0, atol=0):
            return 'coordinates %s instead of %s' % (val.data.tolist(), co.m.data[k].tolist())
        t = co.m.param()
        if not close(val.t, t[k], dtype=co.m.data.dtype):
            return 'parameter %r instead of %r' % (val.t, t[k])
    return post, cmp


@op('point', est=60)
class _:
    @staticmethod
    def gen(G):
        return {'ref': G.ref('curve'), 'i': G.r.randrange(1000), 'neg': G.r.random() < 0.3,
                'oob': G.r.choice((0, 0, 0, 0, 0, 0, 1, 2)), 'np': G.r.random() < 0.2}

    @staticmethod
    def run(W, cl, a, attempt):
        co = get(W, cl, a['ref'], 'curve')
        n = co.m.n
        if a['oob'] or n == 0:
            i = n + a['i'] % 5 if a['oob'] != 2 else -n - 1 - a['i'] % (n + 3)
            i = int(i)

            def ref():
                raise Expect(IndexError)
            x = co.obj
            return Prep(lambda: x[i], ('C07',), ref=ref, what='index %d of %d points' % (i, n))
        k = a['i'] % n
        i = k - n if a['neg'] else k
        if a['np']:
            i = np.int64(i)
        post, cmp = new_point(W, cl, a, co, k)
        x = co.obj
        return Prep(lambda: x[i], ('C08', 'C07'), cmp=cmp, post=post)


@op('seg', est=200)
class _:
    @staticmethod
    def gen(G):
        return {'ref': G.ref('curve'), 'i': G.r.randrange(1000), 'neg': G.r.random() < 0.3,
                'via': G.r.choice(('new', 'segments', 'segments')), 'oob': G.r.choice((0, 0, 0, 0, 0, 1, 2))}

    @staticmethod
    def run(W, cl, a, attempt):
        co = get(W, cl, a['ref'], 'curve')
        n = co.m.n - 1
        x = co.obj
        if n < 1 or a['oob']:
            if a['via'] != 'new':
                return None
            i = max(n, 0) + a['i'] % 4 if a['oob'] != 2 else -max(n, 0) - 1 - a['i'] % 4

            def ref():
                raise Expect(ValueError, IndexError)
            return Prep(lambda: CurveSegment(x, i), ('C08', 'C07'), ref=ref,
                        what='segment index %d of %d segments' % (i, n))
        k = a['i'] % n
        i = k - n if a['neg'] else k

        def post(val):
            if isinstance(val, CurveSegment):
                W.results[cl.num][a['id']] = W.add(Obj('seg', val, (co, k), name='c%d.%d' % (cl.num, a['id'])))

        def cmp(s, exp):
            if type(s) is not CurveSegment:
                return 'result is %r' % type(s)
            if s.curve is not co.obj or s.idx != k:
                return 'segment %r of %r instead of segment %d' % (s.idx, s.curve, k)
            for p, j in ((s.p1, k), (s.p2, k + 1)):
                if not isinstance(p, CurvePoint) or p.curve is not co.obj or p.idx != j:
                    return 'the end of segment %d is %r' % (k, p)
                if not close(p.data, co.m.data[j].astype(np.float64), rtol=0, atol=0):
                    return 'the end of segment %d is at %s instead of %s' % (k, p.data.tolist(), co.m.data[j].tolist())
        if a['via'] == 'new':
            return Prep(lambda: CurveSegment(x, i), ('C08',), cmp=cmp, post=post)
        return Prep(lambda: x.segments[i], ('C08', 'C02'), cmp=cmp, post=post)


@op('subcurve', est=150)
class _:
    @staticmethod
    def gen(G):
        r = G.r
        return {'ref': G.ref('curve'), 'i': r.randrange(1000), 'j': r.randrange(1000), 'end': r.random() < 0.6,
                'default': r.random() < 0.3, 'other': r.random() < 0.15, 'ref2': G.ref('curve', 0.3),
                'cp': r.random() < 0.3, 'pref': G.ref('cpoint') if r.random() < 0.4 else None}

    @staticmethod
    def run(W, cl, a, attempt):
        co = get(W, cl, a['ref'], 'curve')
        po = get(W, cl, a['pref'], 'cpoint') if a['pref'] else None
        if po is not None:
            co = po.m[0]
        n = co.m.n
        if n == 0:
            return None
        i = po.m[1] if po is not None else a['i'] % n
        p = po.obj if po is not None else co.obj[i]
        c2 = co
        if a['other']:
            c2 = get(W, cl, a['ref2'], 'curve')
            if c2.m.n == 0:
                return None
        j = a['j'] % c2.m.n
        q = c2.obj[j]
        if a['cp']:
            q = copy.copy(q)
        if c2.obj is not co.obj:
            def ref():
                raise Expect(ValueError)
            return Prep(lambda: p.subcurve(q), ('C08',), ref=ref, what='sub-curve of points of different curves')
        end = True if a['default'] else a['end']
        if a['default']:
            call = lambda: p.subcurve(q)  # noqa
        else:
            call = lambda: p.subcurve(q, endpoint=end)  # noqa

        def ref():
            return co.m.rows(range(i, j + (1 if end else 0)))
        return Prep(call, ('C08',), result='curve', ref=ref, what='sub-curve %d..%d' % (i, j))


@op('pcopy', est=80)
class _:
    @staticmethod
    def gen(G):
        return {'ref': G.ref('cpoint'), 'how': G.r.choice(('copy', 'deepcopy'))}

    @staticmethod
    def run(W, cl, a, attempt):
        po = get(W, cl, a['ref'], 'cpoint')
        if po is None:
            return None
        f = getattr(copy, a['how'])
        x = po.obj
        post, cmp = new_point(W, cl, a, *po.m)
        return Prep(lambda: f(x), ('C08', 'C11'), cmp=cmp, post=post, what='copy of a curve point')


@op('orphan', est=600)
class _:
    """Points and segments of a curve nobody else refers to"""
    @staticmethod
    def gen(G):
        from gen import shared_curve
        r = G.r
        return {'spec': shared_curve(r, n=r.randint(2, 7)), 'i': r.randrange(100),
                'qs': r.sample(model.POINT_QUANTITIES, r.randint(1, 3)), 'gc': r.random() < 0.15,
                'how': r.choice(('point', 'point', 'seg', 'segments', 'edit', 'copy'))}

    @staticmethod
    def run(W, cl, a, attempt):
        s = a['spec']
        arg, kw, buf = layout(s['data'], s['dtype'], s['form'])
        m = MCurve(np.array(s['data'], dtype=DT[s['dtype']]), s['t'])
        if not m.finite:
            return None
        k = a['i'] % (m.n - 1)
        holder = Obj('curve', None, m)

        def call():
            c = Curve(arg, tdata=s['t'], **kw)
            if a['how'] == 'edit':
                c = c.reverse().reverse()
            if a['how'] in ('point', 'edit'):
                v = [c[k], c[k + 1]]
            elif a['how'] == 'copy':
                v = [copy.copy(c[k]), copy.deepcopy(c[k + 1])]
            elif a['how'] == 'seg':
                sg = CurveSegment(c, k)
                v = [sg.p1, sg.p2]
                del sg
            else:
                sg = c.segments[k]
                v = [sg.p1, sg.p2]
                del sg
            del c
            if a['gc']:
                ids.collect(True)
            kernel.yield_point()
            return v, [[getattr(p, q) for q in a['qs']] for p in v]

        def cmp(val, exp):
            pts, vals = val
            for d, p in enumerate(pts):
                if p.idx != k + d or p.curve is not pts[0].curve:
                    return 'point %d has index %r' % (k + d, p.idx)
                if not close(p.data, m.data[k + d].astype(np.float64), rtol=0, atol=0):
                    return 'point %d is at %s' % (k + d, p.data.tolist())
                if not same_bytes(p.curve.data, np.array(m.data)):
                    return 'the curve of the point is another one'
                for q, v in zip(a['qs'], vals[d]):
                    try:
                        r = ref_quantity(W, holder, q)
                    except Skip:
                        continue
                    if not close(v, r[k + d], dtype=m.data.dtype, rtol=1e-6, atol=1e-7):
                        if m.data.dtype == np.float32 and _within(
                                v, r[k + d], _moves(m, q), 1e-4 * (1 + np.max(np.abs(m.data)))):
                            W.count('undecided')
                            continue
                        return '%s of point %d is %s instead of %s' % (q, k + d, np.asarray(v).tolist(),
                                                                       np.asarray(r[k + d]).tolist())
        return Prep(call, ('C08',), cmp=cmp, maywarn=True, bufs=[buf], scrib=[buf])


@op('churn', est=1500)
class _:
    """Short-lived curves, one after the other: what is remembered of one which is gone is not true of the next one"""
    @staticmethod
    def gen(G):
        from gen import shared_curve, twin
        r = G.r
        n = r.choice((2, 3, 4, 4, 6, 6, 6, 7))
        first = shared_curve(r, n=n)
        specs = [first]
        for _ in range(r.randint(1, 3)):
            s = shared_curve(r, n=n if r.random() < 0.8 else None, d=len(first['data'][0]) if first['data'] else None)
            if r.random() < 0.8:
                s['dtype'] = first['dtype']
            if r.random() < 0.4:
                s = twin(r, first)
            specs.append(s)
        return {'specs': specs, 'qs': r.sample(model.QUANTITIES, r.randint(2, 5)), 'edit': r.random() < 0.3,
                'points': r.random() < 0.3}

    @staticmethod
    def run(W, cl, a, attempt):
        if not all(np.all(np.isfinite(np.array(s['data'], dtype=np.float64))) for s in a['specs']):
            return None
        holders = [Obj('curve', None, MCurve(np.array(s['data'], dtype=DT[s['dtype']]), s['t'])) for s in a['specs']]
        if not all(h.m.finite and h.m.n > 1 for h in holders):
            return None
        bufs = [layout(s['data'], s['dtype'], s['form']) for s in a['specs']]

        def call():
            vals = []
            for s, (arg, kw, buf) in zip(a['specs'], bufs):
                c = Curve(arg, tdata=s['t'], **kw)
                if a['edit']:
                    c = c.reverse().reverse()
                if a['points']:
                    got = [np.array([getattr(p, q) for p in c]) if q in model.POINT_QUANTITIES else np.array(getattr(c, q))
                           for q in a['qs']]
                    p = None
                else:
                    got = [np.array(getattr(c, q)) for q in a['qs']]
                vals.append(got)
                c = None
                ids.collect()
                kernel.yield_point()
            return vals

        def cmp(val, exp):
            for k, (h, got) in enumerate(zip(holders, val)):
                for q, v in zip(a['qs'], got):
                    msg = quantity_message(W, h, q, v, clone=False)
                    if msg:
                        return '%s of short-lived curve %d: %s' % (q, k, msg)
        return Prep(call, ('C10', 'C02'), cmp=cmp, maywarn=True, bufs=[b for _, _, b in bufs])


# ============================================================================================================= edits

def curve_op(name, est=150, backend=None):
    def deco(cls):
        class Op:
            @staticmethod
            def gen(G):
                a = cls.gen(G)
                if a is not None:
                    a.setdefault('ref', G.ref('curve', 0.6))
                return a

            @staticmethod
            def run(W, cl, a, attempt):
                co = get(W, cl, a['ref'], 'curve')
                if co is None:
                    return None
                return cls.run(W, cl, a, attempt, co.obj, co.m, co)
        return op(name, est=est, backend=backend)(Op)
    return deco


def _bound(G, n=14):
    return G.r.choice((None, None, G.r.randint(-n, n)))


@curve_op('slice')
class _:
    @staticmethod
    def gen(G):
        return {'a': _bound(G), 'b': _bound(G), 's': G.r.choice((None, None, None, 1, 2, 3, -1, -1, -2))}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        s = slice(a['a'], a['b'], a['s'])
        return Prep(lambda: x[s], ('C07',), result='curve', ref=lambda: model.e_slice(m, a['a'], a['b'], a['s']),
                    what='slice %s' % s)


@curve_op('fancy')
class _:
    @staticmethod
    def gen(G):
        r = G.r
        return {'idx': [r.randrange(1000) for _ in range(r.randint(1, 5))], 'neg': r.random() < 0.3,
                'oob': r.random() < 0.12, 'form': r.choice(('list', 'array', 'tuple', 'array')),
                'scrib': r.random() < 0.4}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        if m.n == 0:
            return None
        idx = [k % m.n - (m.n if a['neg'] and i % 2 else 0) for i, k in enumerate(a['idx'])]
        if a['oob']:
            idx[len(idx) // 2] = m.n + a['idx'][0] % 3 if a['idx'][0] % 2 else -m.n - 1 - a['idx'][0] % 3
        arg = _form(idx, a['form'])
        return Prep(lambda: x[arg], ('C07',), result='curve', ref=lambda: model.e_fancy(m, idx), bufs=[arg],
                    scrib=[arg] if a['scrib'] else [], what='indices %s' % idx)


def _form(idx, form):
    if form == 'array':
        return np.array(idx, dtype=np.int64)
    if form == 'tuple':
        return tuple(idx)
    return list(idx)


@curve_op('mask')
class _:
    @staticmethod
    def gen(G):
        return {'bits': G.r.getrandbits(64), 'form': G.r.choice(('array', 'list', 'tuple'))}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        if m.n == 0:
            return None
        mask = [bool(a['bits'] >> (i % 64) & 1) for i in range(m.n)]
        arg = np.array(mask) if a['form'] == 'array' else list(mask) if a['form'] == 'list' else tuple(mask)
        return Prep(lambda: x[arg], ('C07',), result='curve', ref=lambda: model.e_mask(m, mask), bufs=[arg],
                    scrib=[arg] if a['form'] == 'array' else [], what='mask')


def _other(G, a):
    """Reference to something to insert"""
    r = G.r
    a['okind'] = r.choice(('curve', 'curve', 'cpoint', 'fpoint', 'newpoint', 'newpoint'))
    a['oref'] = G.ref({'curve': 'curve', 'cpoint': 'cpoint'}.get(a['okind'], 'fpoint'), 0.4)
    a['vals'] = [r.randint(-9, 9) * 0.5 for _ in range(5)]
    return a


def _other_get(W, cl, a, m):
    """(object, rows, must fail)"""
    if a['okind'] == 'newpoint':
        v = a['vals'][:m.d] if m.n else a['vals'][:2]
        return Point(v), np.array([v])
    o = get(W, cl, a['oref'], (a['okind'],))
    if o is None:
        v = a['vals'][:m.d] if m.n else a['vals'][:2]
        return Point(v), np.array([v])
    if o.kind == 'curve':
        return o.obj, np.array(o.m.data)
    if o.kind == 'cpoint':
        return o.obj, np.array([o.m[0].m.data[o.m[1]].astype(np.float64)])
    return o.obj, np.array([o.m])


def _castable(rows, dtype):
    """Is the cast of the inserted rows well defined"""
    if dtype.kind in 'iu' and rows.dtype.kind == 'f':
        if not np.all(np.isfinite(rows)):
            return False
        info = np.iinfo(dtype)
        return bool(np.all((rows >= info.min) & (rows <= info.max)))
    return True


@curve_op('insert', est=250, backend=['np.insert'])
class _:
    @staticmethod
    def gen(G):
        r = G.r
        a = {'i': r.randint(-1000, 1000), 'form': r.choice(('int', 'int', 'int', 'list', 'array', 'slice')),
             'k': r.randint(1, 3), 'oob': r.random() < 0.1, 'empty': r.random() < 0.05}
        return _other(G, a)

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        obj, rows = _other_get(W, cl, a, m)
        if m.n == 0 and a['form'] == 'int' and x.ndim == rows.shape[1] == 2 and rows.shape[0] and not a['oob'] and \
                _castable(rows, m.data.dtype):
            return Prep(lambda: x.insert(0, obj), ('C07',), result='curve', maywarn=True,
                        ref=lambda: MCurve(rows.astype(m.data.dtype)), what='insert into an empty curve')
        if a.get('empty') and m.n and a['form'] == 'int' and not a['oob']:
            none = Curve([], ndmin=m.d)
            i = a['i'] % (m.n + 1)
            return Prep(lambda: x.insert(i, none), ('C07',), result='curve', maywarn=True,
                        ref=lambda: MCurve(m.data), what='insert of an empty curve')
        if m.n == 0 or rows.shape[0] == 0 or not _castable(rows, m.data.dtype):
            return None
        n = m.n
        i = a['i'] % (n + 1) if a['i'] >= 0 else -(-a['i'] % n) - 1 if n else 0
        if a['oob']:
            i = n + 1 + a['i'] % 3 if a['i'] >= 0 else -n - 1 - (-a['i'] % 3)
        if a['form'] == 'int':
            index = arg = i
        elif a['form'] == 'slice':
            index = arg = slice(max(0, min(n, abs(i))), None, 2)
        else:
            cnt = rows.shape[0] if rows.shape[0] > 1 else a['k']
            index = [(i + 2 * q) if a['oob'] else (a['i'] + 2 * q) % (n + 1) for q in range(cnt)]
            arg = np.array(index) if a['form'] == 'array' else list(index)
        return Prep(lambda: x.insert(arg, obj), ('C07',), result='curve', errs=(IndexError,), maywarn=True,
                    ref=lambda: model.e_insert(m, index, rows), bufs=[arg] if a['form'] in ('list', 'array') else [],
                    what='insert at %s' % (index,))


@curve_op('append', est=250, backend=['np.insert'])
class _:
    @staticmethod
    def gen(G):
        return _other(G, {})

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        obj, rows = _other_get(W, cl, a, m)
        if m.n == 0 or rows.shape[0] == 0 or not _castable(rows, m.data.dtype):
            return None
        return Prep(lambda: x.append(obj), ('C07',), result='curve', errs=(IndexError,), maywarn=True,
                    ref=lambda: model.e_insert(m, m.n, rows))


@curve_op('delete', backend=['np.delete'])
class _:
    @staticmethod
    def gen(G):
        r = G.r
        return {'i': r.randint(-1000, 1000), 'form': r.choice(('int', 'int', 'list', 'array', 'slice')),
                'k': r.randint(1, 3), 'oob': r.random() < 0.12, 'a': _bound(G), 'b': _bound(G),
                's': r.choice((None, None, 1, 2, -1, -2))}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        n = m.n
        if n == 0:
            return None
        i = a['i'] % n if a['i'] >= 0 else -(-a['i'] % n) - 1
        if a['oob']:
            i = n + a['i'] % 3 if a['i'] >= 0 else -n - 1 - (-a['i'] % 3)
        if a['form'] == 'int':
            index = arg = i
        elif a['form'] == 'slice':
            index = arg = slice(a['a'], a['b'], a['s'])
        else:
            index = [i if a['oob'] and q == 0 else (a['i'] * (q + 1)) % n for q in range(a['k'])]
            arg = np.array(index) if a['form'] == 'array' else list(index)
        return Prep(lambda: x.delete(arg), ('C07',), result='curve', errs=(IndexError,),
                    ref=lambda: model.e_delete(m, index), bufs=[arg] if a['form'] in ('list', 'array') else [],
                    what='delete %s' % (index,))


@curve_op('concat', backend=['np.vstack', 'np.hstack'])
class _:
    @staticmethod
    def gen(G):
        return {'ref2': G.ref('curve'), 'inplace': G.r.random() < 0.35,
                'empty': G.r.random() < 0.06 and G.r.choice(('f8', 'f4', 'i8')), 'side': G.r.random() < 0.5,
                'par': G.r.random() < 0.5}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        if a.get('empty') and m.n:
            none = Curve([], ndmin=m.d, dtype=DT[a['empty']], tdata=[] if a['par'] else None)
            return Prep(lambda: x + none if a['side'] else none + x, ('C07',), result='curve',
                        ref=lambda: MCurve(m.data.astype(np.promote_types(m.data.dtype, DT[a['empty']])),
                                           m.t if a['par'] else None), what='concatenation with an empty curve')
        o2 = get(W, cl, a['ref2'], 'curve')
        y = o2.obj
        if m.n == 0 and o2.m.d != 2 or o2.m.n == 0 and m.d != 2:
            return None
        if (m.n == 0 or o2.m.n == 0) and x.ndim != y.ndim:
            return None
        if a['inplace']:
            def call():
                z = x
                z += y
                if z is x:
                    W.violate(('C01', 'C07'), 'augmented assignment', 'the curve was changed in place', cl.num, a['id'])
                return z
        else:
            call = lambda: x + y  # noqa
        return Prep(call, ('C07',), result='curve', ref=lambda: model.e_concat(m, o2.m), what='concatenation')


@curve_op('reverse', est=120, backend=['np.flip', 'np.flipud'])
class _:
    @staticmethod
    def gen(G):
        return {}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        return Prep(lambda: x.reverse(), ('C07',), result='curve', ref=lambda: model.e_reverse(m))


@curve_op('unique', est=120, backend=['np.unique'])
class _:
    @staticmethod
    def gen(G):
        return {}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        if m.n == 0:
            return None
        return Prep(lambda: x.unique(), ('C07',), result='curve', ref=lambda: model.e_unique(m))


@curve_op('drop', est=150, backend=['np.delete'])
class _:
    @staticmethod
    def gen(G):
        return {'bits': G.r.getrandbits(64), 'form': G.r.choice(('mask', 'mask', 'matrix', 'indices', 'list')),
                'cb': G.cb(), 'shared': G.r.random() < 0.5}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        if m.n == 0:
            return None
        mask = [bool(a['bits'] >> (i % 64) & 1) for i in range(m.n)]
        if a['form'] == 'matrix':
            ret = np.zeros((m.n, m.d), dtype=bool)
            for i, b in enumerate(mask):
                if b:
                    ret[i, (a['bits'] + i) % m.d] = True
        elif a['form'] == 'indices':
            ret = np.array([i for i, b in enumerate(mask) if b], dtype=np.int64)
        elif a['form'] == 'list':
            ret = list(mask)
        else:
            ret = np.array(mask)

        def isa(data):
            callback(W, cl, a['cb'], curve=x, arrays=[data], attempt=attempt)
            if not same_bytes(np.array(data), np.array(m.data)):
                W.violate(('C12', 'C01'), 'callback data', 'the checker received %s' % np.asarray(data).tolist(),
                          cl.num, a['id'])
            return ret
        return Prep(lambda: x.drop(isa), ('C07',), result='curve', bufs=[ret], scrib=[ret],
                    ref=lambda: m.rows([i for i, b in enumerate(mask) if not b]),
                    strict=lambda kind, exc, fn: 'same' if kind == 'cb' else None, errs=(IndexError,))


@curve_op('nonsingular', est=300, backend=['np.hstack', 'np.isclose', 'np.diff'])
class _:
    @staticmethod
    def gen(G):
        return {}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        return Prep(lambda: x.nonsingular(), ('C07',), result='curve', ref=lambda: model.e_nonsingular(m),
                    maywarn=True)


@curve_op('coorient', est=250, backend=['linalg.det'])
class _:
    @staticmethod
    def gen(G):
        r = G.r
        k = r.random()
        if k < 0.5:
            return {'axes': None}
        return {'axes': [r.randint(-2, 4), r.randint(-2, 4)]}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        if m.n == 0:
            return None
        if a['axes'] is None:
            return Prep(lambda: x.coorientplane(), ('C07',), result='curve', ref=lambda: model.e_coorient(m, 0, 1),
                        maywarn=not m.finite)
        a1, a2 = a['axes']
        return Prep(lambda: x.coorientplane(axis1=a1, axis2=a2), ('C07',), result='curve',
                    ref=lambda: model.e_coorient(m, a1, a2), maywarn=not m.finite)


@curve_op('insertdim', est=200, backend=['np.insert'])
class _:
    @staticmethod
    def gen(G):
        r = G.r
        return {'axis': r.randint(-6, 6), 'vals': r.choice((None, 'list', 'array', 'array', 'ints')),
                'seed': r.randrange(50), 'app': r.random() < 0.4, 'scrib': r.random() < 0.5,
                'nan': r.random() < 0.12 and r.choice(('nan', 'inf', 'both'))}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        if m.n == 0 or m.d > 6:
            return None
        vals = None
        if a['vals']:
            vals = [float((a['seed'] * (i + 3)) % 17 - 8) for i in range(m.n)]
            if m.data.dtype.kind == 'u':
                vals = [abs(v) for v in vals]
            if a.get('nan') and m.data.dtype.kind == 'f' and a['vals'] != 'ints':
                vals[a['seed'] % m.n] = float('inf') if a['nan'] == 'inf' else float('nan')
                if a['nan'] == 'both':
                    vals[(a['seed'] + 1) % m.n] = float('-inf')
        expv = None if vals is None else np.array(vals)
        arg = vals
        if a['vals'] == 'array':
            arg = np.array(vals)
        elif a['vals'] == 'ints':
            arg = [int(v) for v in vals]
        scrib = [arg] if a['scrib'] and arg is not None else []
        bufs = [arg] if arg is not None else []
        if a['app']:
            return Prep(lambda: x.appenddim(arg), ('C07',), result='curve', bufs=bufs, scrib=scrib, errs=(IndexError,),
                        ref=lambda: model.e_insertdim(m, m.d, expv))
        ax = a['axis']
        return Prep(lambda: x.insertdim(ax, arg), ('C07',), result='curve', bufs=bufs, scrib=scrib, errs=(IndexError,),
                    ref=lambda: model.e_insertdim(m, ax, expv), what='insert dimension %d' % ax)


@curve_op('deletedim', backend=['np.delete'])
class _:
    @staticmethod
    def gen(G):
        r = G.r
        return {'axis': r.choice((r.randint(-6, 6), r.randint(-6, 6), [r.randint(0, 4), r.randint(0, 4)], 'slice')),
                'a': _bound(G, 4)}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        if m.n == 0:
            return None
        index = slice(a['a'], None) if a['axis'] == 'slice' else a['axis']
        return Prep(lambda: x.deletedim(index), ('C07',), result='curve', errs=(IndexError,),
                    ref=lambda: model.e_deletedim(m, index), what='delete dimension %s' % (index,))


REFUSED = {
    'index 2-d': (IndexError, lambda x, m: lambda: x[np.zeros((1, 1), dtype=int)]),
    'index text': (IndexError, lambda x, m: lambda: x[['a']]),
    'index float': (TypeError, lambda x, m: lambda: x[0.0]),
    'index float list': (IndexError, lambda x, m: lambda: x[[0.0]]),
    'index none': (TypeError, lambda x, m: lambda: x[None]),
    'index beyond': (IndexError, lambda x, m: lambda: x[m.n]),
    'index before': (IndexError, lambda x, m: lambda: x[-m.n - 1]),
    'list beyond': (IndexError, lambda x, m: lambda: x[[0, m.n]]),
    'list before': (IndexError, lambda x, m: lambda: x[[-m.n - 1, 0]]),
    'mask short': (IndexError, lambda x, m: lambda: x[np.ones(m.n - 1, dtype=bool)]),
    'mask long': (IndexError, lambda x, m: lambda: x[[True] * (m.n + 1)]),
    'insert beyond': (IndexError, lambda x, m: lambda: x.insert(m.n + 1, Point(m.data[0]))),
    'insert before': (IndexError, lambda x, m: lambda: x.insert(-m.n - 1, Point(m.data[0]))),
    'insert other dimension': (ValueError, lambda x, m: lambda: x.insert(0, Point([1.0] * (m.d + 1)))),
    'insert other curve': (ValueError, lambda x, m: lambda: x.insert(0, Curve(np.ones((2, m.d + 1))))),
    'insert number': (Exception, lambda x, m: lambda: x.insert(0, 5)),
    'append other dimension': (ValueError, lambda x, m: lambda: x.append(Curve(np.ones((2, m.d + 1))))),
    'append number': (Exception, lambda x, m: lambda: x.append(5)),
    'concat other dimension': (ValueError, lambda x, m: lambda: x + Curve(np.ones((2, m.d + 1)))),
    'concat point': (TypeError, lambda x, m: lambda: x + Point([1.0] * (m.d + 1))),
    'concat list': (TypeError, lambda x, m: lambda: x + [1.0, 2.0]),
    'delete beyond': (IndexError, lambda x, m: lambda: x.delete(m.n)),
    'delete before': (IndexError, lambda x, m: lambda: x.delete(-m.n - 1)),
    'delete list': (IndexError, lambda x, m: lambda: x.delete([0, m.n])),
    'delete mask': ((ValueError, IndexError), lambda x, m: lambda: x.delete([True] * (m.n + 1))),
    'dimension beyond': (IndexError, lambda x, m: lambda: x.insertdim(m.d + 2, np.ones(m.n))),
    'dimension size': (ValueError, lambda x, m: lambda: x.insertdim(0, np.ones(m.n + 1))),
    'appended size': (ValueError, lambda x, m: lambda: x.appenddim(np.ones(m.n + 1))),
    'only two dimensions': (ValueError, lambda x, m: (lambda: x.deletedim(0)) if m.d == 2 else None),
    'drop no checker': (TypeError, lambda x, m: lambda: x.drop(5)),
    'drop mask': (IndexError, lambda x, m: lambda: x.drop(lambda d: np.ones(m.n + 1, dtype=bool))),
    'values axis': (ValueError, lambda x, m: lambda: x.values(m.d)),
    'find dimension': (ValueError, lambda x, m: lambda: x.index(Point([1.0] * (m.d + 1)))),
    'count dimension': (ValueError, lambda x, m: lambda: x.count(Point([1.0] * (m.d + 1)))),
    'parameters size': (ValueError, lambda x, m: lambda: Curve(m.data, tdata=np.arange(m.n + 1.0))),
    'parameters 2-d': (ValueError, lambda x, m: lambda: Curve(m.data, tdata=np.ones((m.n, 1)))),
    'segment beyond': (ValueError, lambda x, m: lambda: CurveSegment(x, m.n - 1)),
    'segment before': (ValueError, lambda x, m: lambda: CurveSegment(x, -m.n)),
    'segment dimensions': (ValueError, lambda x, m: lambda: Segment(x[0], Point([1.0] * (m.d + 1)))),
    'point beyond': (IndexError, lambda x, m: lambda: CurvePoint(x, m.n)),
    'point before': (IndexError, lambda x, m: lambda: CurvePoint(x, -m.n - 1)),
    'orientation axis': (IndexError, lambda x, m: lambda: x.coorientplane(0, m.d)),
    'insert list beyond': (IndexError, lambda x, m: lambda: x.insert([0, m.n + 1], Point(m.data[0]))),
    'insert list before': (IndexError, lambda x, m: lambda: x.insert([0, -m.n - 1], Point(m.data[0]))),
    'insert array before': (IndexError, lambda x, m: lambda: x.insert(np.array([-m.n - 2, -m.n - 1]), Point(m.data[0]))),
    'insert text': (Exception, lambda x, m: lambda: x.insert(0, 'a')),
    'point of no dimensions': (ValueError, lambda x, m: lambda: Curve(np.ones((1, m.n)), axis=1)),
    'segment of numbers': (TypeError, lambda x, m: lambda: Segment([1.0] * m.d, [2.0] * m.d)),
    'segment distance to number': (TypeError, lambda x, m: lambda: Segment(x[0], x[1]).distance(5)),
    'segment connector to number': (TypeError, lambda x, m: lambda: Segment(x[0], x[1]).shortest_segment(5)),
    'point sub-curve to number': (TypeError, lambda x, m: lambda: x[0].subcurve(1)),
    'grid kind': (ValueError, lambda x, m: lambda: skcurve.UniformInterpolationGrid(3, kind='points')),
    'grid fill': (TypeError, lambda x, m: lambda: skcurve.UniformInterpolationGrid(3.5)),
    'grid fill too few': (ValueError, lambda x, m: lambda: skcurve.UniformInterpolationGrid(1)),
    'grid length': (TypeError, lambda x, m: lambda: skcurve.UniformInterpolationGrid('1', kind='length')),
    'grid kind of pieces': (ValueError, lambda x, m: lambda: skcurve.UniformExtrapolationGrid(
        skcurve.UniformInterpolationGrid(3), before=1, after=1, kind='points')),
    'grid pieces of points': (TypeError, lambda x, m: lambda: skcurve.UniformExtrapolationGrid(
        skcurve.UniformInterpolationGrid(3), before=1, after=1.5)),
    'grid first piece of points': (TypeError, lambda x, m: lambda: skcurve.UniformExtrapolationGrid(
        skcurve.UniformInterpolationGrid(3), before=1.5, after=1)),
    'grid pieces of length': (TypeError, lambda x, m: lambda: skcurve.UniformExtrapolationGrid(
        skcurve.UniformInterpolationGrid(3), before=1, after='1', kind='length')),
    'grid first piece of length': (TypeError, lambda x, m: lambda: skcurve.UniformExtrapolationGrid(
        skcurve.UniformInterpolationGrid(3), before='1', after=1, kind='length')),
    'grid number': (ValueError, lambda x, m: lambda: x.interpolate(2.5, 'linear')),
    'grid none': (ValueError, lambda x, m: lambda: x.interpolate(None, 'linear')),
    'grid text': (ValueError, lambda x, m: lambda: x.interpolate('abc', 'linear')),
    'grid column': (ValueError, lambda x, m: lambda: x.interpolate(np.linspace(x.t[0], x.t[-1], 3).reshape(3, 1), 'linear')),
    'grid row': (ValueError, lambda x, m: lambda: x.interpolate(np.linspace(x.t[0], x.t[-1], 3).reshape(1, 3), 'linear')),
    'grid of nothing': (ValueError, lambda x, m: lambda: x.interpolate([], 'linear')),
}


@curve_op('refused', est=60)
class _:
    """Edits that do not fit the curve"""
    @staticmethod
    def gen(G):
        return {'how': G.r.choice(sorted(h for h in REFUSED if G.p['name'] != 'C14' or h.startswith('grid')))}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        if m.n < 2:
            return None
        errs, make = REFUSED[a['how']]
        call = make(x, m)
        if call is None:
            return None
        word = a['how'].split()[0]
        tags = ('C08',) if word in ('segment', 'point') else ('C14',) if word == 'grid' else ('C07',)

        def ref():
            if not a['how'].endswith(('beyond', 'before')) or a['how'].startswith('segment'):
                raise Expect(Exception)
            raise Expect(*(errs if isinstance(errs, tuple) else (errs,)))
        return Prep(call, tags, ref=ref, errs=(skcurve.InterpolationError,) if word == 'grid' else (),
                    what='refusal (%s)' % a['how'])


@curve_op('values', est=80)
class _:
    @staticmethod
    def gen(G):
        return {'axis': G.r.choice((None, 0, 1, -1, G.r.randint(0, 3)))}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        ax = a['axis']
        if ax is not None and ax >= m.d:
            return None
        if m.n == 0:
            return None
        if ax is None:
            return Prep(lambda: list(x.values()), ('C01',), maybe=('C12',),
                        cmp=lambda v, e: None if len(v) == m.d and all(
                            same_bytes(np.array(v[i]), np.array(m.data[:, i])) for i in range(m.d)) else 'values differ')
        return Prep(lambda: x.values(ax), ('C01',),
                    cmp=lambda v, e: None if same_bytes(np.array(v), np.array(m.data[:, ax])) else 'values differ')


@curve_op('iterate', est=400)
class _:
    @staticmethod
    def gen(G):
        return {'rev': G.r.random() < 0.3}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        order = list(range(m.n))
        if a['rev']:
            order.reverse()
            call = lambda: list(reversed(x))  # noqa
        else:
            call = lambda: list(x)  # noqa

        def cmp(v, e):
            if len(v) != m.n:
                return '%d points instead of %d' % (len(v), m.n)
            for k, p in zip(order, v):
                if p.idx != k or p.curve is not co.obj or not close(
                        p.data, m.data[k].astype(np.float64), rtol=0, atol=0):
                    return 'point %d is %r' % (k, p)
        return Prep(call, ('C08', 'C07'), cmp=cmp)


@curve_op('find', est=150)
class _:
    """contains / index / count / eq"""
    @staticmethod
    def gen(G):
        r = G.r
        bound = lambda: r.choice((None, 0, 1, 2, 3, 5, -1, -2, -4, -9, 20))  # noqa
        return {'how': r.choice(('in', 'index', 'index', 'index', 'count', 'eq', 'incurve', 'incurve', 'dim')),
                'i': r.randrange(1000), 'hit': r.random() < 0.6, 'ref2': G.ref('curve'),
                'vals': [r.randint(-6, 6) for _ in range(5)], 'start': bound(), 'end': bound(),
                'cut': r.random() < 0.5, 'move': r.random() < 0.3}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        if m.n == 0 or not m.finite:
            return None
        row = m.data[a['i'] % m.n].astype(np.float64) if a['hit'] else np.array(a['vals'][:m.d], dtype=np.float64)
        if m.d > 5:
            return None
        same = lambda u, v: u.shape == v.shape and bool(np.all(model.isclose(u, v)))  # noqa
        p = Point(row)
        hits = [i for i in range(m.n) if same(row, m.data[i])]
        if a['how'] == 'in':
            return Prep(lambda: p in x, ('C07',), cmp=lambda v, e: None if bool(v) == bool(hits) else 'in: %r' % v)
        if a['how'] == 'count':
            return Prep(lambda: x.count(p), ('C07',), cmp=lambda v, e: None if v == len(hits) else 'count: %r' % v)
        if a['how'] == 'index':
            s, e = (a['start'], a['end']) if a['cut'] else (None, None)
            inside = [i for i in hits if i in range(m.n)[slice(s, e)]]

            def ref():
                if not inside:
                    raise Expect(ValueError)
                return inside[0]
            call = (lambda: x.index(p, s, e)) if a['cut'] else (lambda: x.index(p))
            return Prep(call, ('C07',), ref=ref, what='index of a point from %s to %s' % (s, e),
                        cmp=lambda v, e: None if v == e else 'index %r instead of %r' % (v, e))
        if a['how'] == 'dim':
            q = Point(np.append(row, 0.0))
            return Prep(lambda: q in x, ('C07',), cmp=lambda v, e: 'a point of another dimension is in the curve' if v else None)
        o2 = get(W, cl, a['ref2'], 'curve')
        y, m2 = o2.obj, o2.m
        if m2.n == 0 or not m2.finite:
            return None
        if a['how'] == 'eq':
            e1 = m.d == m2.d and same(m.data, m2.data)
            return Prep(lambda: (x == y, x != y), ('C07',),
                        cmp=lambda v, e: None if v == (e1, not e1) else 'eq: %r instead of %r' % (v, e1))
        n = m.n
        lo = a['i'] % n
        hi = lo + 1 + a['i'] // 7 % (n - lo)
        rows = np.array(m.data[lo:hi] if a['hit'] else m2.data, dtype=np.float64)
        if a['move']:
            rows[-1] = rows[-1] + 1.0
        k = len(rows)
        e2 = rows.shape[1] == m.d and any(same(m.data[i:i + k], rows) for i in range(n - k + 1))
        sub = Curve(rows)
        return Prep(lambda: sub in x, ('C07',), cmp=lambda v, e: None if bool(v) == e2 else
                    'a stretch of points in the curve: %r instead of %r' % (v, e2))


# ============================================================================================== representation, copies

@op('repr', est=120, backend=['np.array2string'])
class _:
    @staticmethod
    def gen(G):
        return {'ref': G.ref(('curve', 'curve', 'cpoint', 'seg', 'fpoint', 'fseg'), 0.3), 'str': G.r.random() < 0.3}

    @staticmethod
    def run(W, cl, a, attempt):
        o = get(W, cl, a['ref'], ('curve', 'cpoint', 'seg', 'fpoint', 'fseg'))
        if o is None:
            return None
        x = o.obj
        f = str if a['str'] else repr

        def cmp(v, e):
            fresh = fresh_copy(W, o)
            e = f(fresh)
            r = reference_repr(o)
            if v != e:
                return 'representation %r, alone it is %r' % (v, e)
            if r is not None and v != r:
                return 'representation %r, expected %r' % (v, r)
        return Prep(lambda: f(x), ('C09',), cmp=cmp, maywarn=True, what='representation')


def fresh_copy(W, o):
    if o.kind == 'curve':
        if o.obj.dtype != o.m.data.dtype:
            # another byte order, which is shown
            return Curve(np.array(o.m.data), tdata=o.m.t, dtype=o.obj.dtype)
        return W.clone(o.m)
    if o.kind == 'cpoint':
        return W.clone(o.m[0].m)[o.m[1]]
    if o.kind == 'seg':
        return CurveSegment(W.clone(o.m[0].m), o.m[1])
    if o.kind == 'fpoint':
        return Point(np.array(o.m), dtype=o.m.dtype)
    return Segment(Point(o.m[0]), Point(o.m[1]))


def reference_repr(o):
    """Only the numbers are fixed by the documentation's examples: 4 digits, no exponents"""
    return None


@op('pickle', est=200)
class _:
    @staticmethod
    def gen(G):
        return {'ref': G.ref('curve'), 'pref': G.ref('cpoint'), 'sref': G.ref('seg'), 'proto': G.r.choice((0, 1, 2, 2, 3, 3, 4, 4, 4, 4, 5, 5)),
                'dt': G.r.choice(('f8', 'f4', 'i8', 'i4', 'i2', '>f8')), 'd': G.r.choice((1, 2, 2, 3, 3, 4)), 'new': G.r.random() < 0.5,
                'vals': [G.r.randint(-9, 9) for _ in range(4)],
                'how': G.r.choice(('pickle', 'pickle', 'copy', 'deepcopy', 'deepcopylist', 'copycurve')),
                'what': G.r.choice(('curve', 'curve', 'point', 'both', 'fpoint', 'seg', 'both'))}

    @staticmethod
    def run(W, cl, a, attempt):
        co = get(W, cl, a['ref'], 'curve')
        po = get(W, cl, a['pref'], 'cpoint')
        so = get(W, cl, a['sref'], 'seg')
        fo = get(W, cl, {'s': -1}, 'fpoint')
        if fo is None or a.get('new'):
            p = Point(np.array(a['vals'][:a['d']], dtype=DT[a['dt']]), dtype=DT[a['dt']])
            fo = Obj('fpoint', p, np.array(a['vals'][:a['d']], dtype=DT[a['dt']]))
        objs = [co]
        how = a['how']
        if a['what'] == 'point' and po is not None:
            objs = [po]
        elif a['what'] == 'both' and po is not None:
            objs = [po, po.m[0], po]
        elif a['what'] == 'fpoint' and fo is not None:
            objs = [fo]
        elif a['what'] == 'seg' and so is not None and how == 'pickle':
            objs = [so, so.m[0]]
        xs = [o.obj for o in objs]
        if how == 'pickle':
            def call():
                # points cannot be pickled by the old protocols
                proto = a['proto'] if len(xs) == 1 and xs[0] is co.obj else max(2, a['proto'])
                try:
                    return pickle.loads(dumps(xs, proto))
                except TypeError as err:
                    if proto > 1 or '__slots__' not in str(err):
                        raise
                    return pickle.loads(dumps(xs, 2))
        elif how == 'deepcopylist':
            call = lambda: copy.deepcopy(xs)  # noqa
        elif how == 'copycurve':
            call = lambda: [Curve(x) if isinstance(x, Curve) else Point(x, dtype=x.data.dtype) if type(x) is Point else copy.copy(x)  # noqa
                            for x in xs]
        else:
            f = getattr(copy, how)
            call = lambda: [f(x) for x in xs]  # noqa

        def post(vals):
            for o, v in zip(objs, vals):
                if o.kind == 'curve' and isinstance(v, Curve):
                    r = Obj('curve', v, MCurve(o.m.data, o.m.t), name='c%d.%d' % (cl.num, a['id']))
                    r.m.data = np.array(o.m.data, order='K', copy=True)
                    W.results[cl.num][a['id']] = W.add(r)
                elif o.kind == 'cpoint' and isinstance(v, CurvePoint):
                    pass

        def cmp(vals, e):
            return compare_restored(W, objs, vals, linked=how == 'pickle')
        return Prep(call, ('C11',), cmp=cmp, post=post, maywarn=False, what='%s of %s' % (how, a['what']))


def compare_restored(W, objs, vals, linked=True, deep=True):
    """The restored objects equal the originals"""
    if len(vals) != len(objs):
        return 'different number of objects'
    restored = {}
    for o, v in zip(objs, vals):
        if o.kind == 'curve':
            restored[id(o)] = v
    for o, v in zip(objs, vals):
        if o.kind == 'curve':
            m = o.m
            if type(v) is not Curve:
                return 'restored as %r' % type(v)
            if nat(v.data.dtype) != nat(m.data.dtype) or v.data.shape[0] != m.n or (m.n and v.data.shape[1] != m.d):
                return 'restored with dtype %s and shape %s' % (v.data.dtype, v.data.shape)
            if m.n and not same_bytes(np.array(v.data), np.array(m.data)):
                return 'restored points %s instead of %s' % (v.data.tolist(), m.data.tolist())
            if v.isparametric != (m.t is not None):
                return 'restored parametric: %s' % v.isparametric
            if m.t is not None and not same_bytes(np.asarray(v.t), m.t):
                return 'restored parameters %s instead of %s' % (np.asarray(v.t).tolist(), m.t.tolist())
            if v.data.flags.writeable or v.t.flags.writeable:
                return 'the restored curve is mutable'
            if m.n == 0:
                continue
            if m.finite and not (v == o.obj and o.obj == v):
                return 'the restored curve is not equal to the original'
            for q in ('chordlen', 'cumarclen', 'firstderiv', 'curvature', 'torsion') if deep and m.n > 1 else ():
                val = getattr(v, q)
                c = clone_quantity(W, o, q)
                if c[0] == 'ok' and not close(val, c[1], rtol=1e-9, atol=1e-9):
                    return 'restored %s is %s instead of %s' % (q, np.asarray(val).tolist(), np.asarray(c[1]).tolist())
                if isinstance(val, np.ndarray) and val.flags.writeable:
                    return 'the restored curve is mutable (%s)' % q
            if m.n > 1:
                for i, s in enumerate(v.segments):
                    if s.curve is not v or s.idx != i or s.p1.curve is not v:
                        return 'segment %d of the restored curve belongs to another curve' % i
        elif o.kind == 'cpoint':
            co, k = o.m
            if type(v) is not CurvePoint:
                return 'point restored as %r' % type(v)
            if v.idx != k or not same_bytes(np.array(v.data), np.array(co.m.data[k].astype(np.float64))):
                return 'restored point %r instead of point %d at %s' % (v, k, co.m.data[k].tolist())
            if v.data.flags.writeable:
                return 'the restored point is mutable'
            if v.data.dtype != np.float64:
                return 'the restored point has dtype %s' % v.data.dtype
            if not same_bytes(np.array(v.curve.data), np.array(co.m.data)):
                return 'the restored point belongs to another curve'
            if linked and id(co) in restored and v.curve is not restored[id(co)]:
                return 'the restored point does not belong to the restored curve'
            t = co.m.param()
            if not close(v.t, t[k], dtype=co.m.data.dtype):
                return 'restored parameter %r instead of %r' % (v.t, t[k])
            if deep and co.m.n > 1:
                for q in ('curvature', 'frenet1'):
                    c = clone_quantity(W, co, q)
                    if c[0] == 'ok' and not close(getattr(v, q), c[1][k], rtol=1e-9, atol=1e-9):
                        return 'restored %s of a point differs' % q
        elif o.kind == 'fpoint':
            if type(v) is not Point or v != o.obj or not same_bytes(np.array(v.data), np.array(o.m)) or v.data.flags.writeable:
                return 'point restored as %r' % v
        elif o.kind == 'seg':
            co, k = o.m
            if type(v) is not CurveSegment or v.idx != k or not close(
                    v.data, co.m.data[k:k + 2].astype(np.float64), rtol=0, atol=0):
                return 'segment restored as %r' % v
            if linked and id(co) in restored and v.curve is not restored[id(co)]:
                return 'the restored segment does not belong to the restored curve'
    return None


# ================================================================================================ caller's own buffers

@op('mk', est=150)
class _:
    """Construction from the caller's buffers, which are overwritten afterwards"""
    @staticmethod
    def gen(G):
        from gen import shared_curve
        return {'spec': shared_curve(G.r), 'scrib': G.r.random() < 0.7, 'ndmin': G.r.choice((None, None, None, 2, 3, 5)),
                'copy': G.r.random() < 0.15, 'ref': G.ref('curve'), 'dt': G.r.choice((None, None, 'f8', 'f4'))}

    @staticmethod
    def run(W, cl, a, attempt):
        s = a['spec']
        if a['copy']:
            co = get(W, cl, a['ref'], 'curve')
            x, m = co.obj, co.m
            dt = DT[a['dt']] if a['dt'] else None
            if dt is not None and m.data.dtype.kind == 'f' and np.any(np.abs(m.data[np.isfinite(m.data)]) > 1e30):
                dt = None

            def refc():
                d = m.data if dt is None else m.data.astype(dt)
                return MCurve(d, m.t)
            return Prep(lambda: Curve(x, dtype=dt), ('C07', 'C11'), result='curve', ref=refc, what='copy of a curve')
        arg, kw, buf = layout(s['data'], s['dtype'], s['form'])
        t = s['t']
        tb = None
        if t is not None:
            tb = list(t) if s['tform'] == 'list' else np.array(t, dtype=float)
        rows = np.array(s['data'], dtype=DT[s['dtype']])
        rows = rows.reshape(len(s['data']), -1) if len(s['data']) else np.zeros((0, 2), dtype=DT[s['dtype']])
        nd = a['ndmin']
        if nd is not None:
            kw['ndmin'] = nd
            if rows.shape[0] and rows.shape[1] < nd:
                rows = np.hstack([rows, np.zeros((rows.shape[0], nd - rows.shape[1]), dtype=rows.dtype)])
        bufs = [b for b in (buf, tb) if b is not None]
        return Prep(lambda: Curve(arg, tdata=tb, **kw), ('C12', 'C07'), result='curve', ref=lambda: MCurve(rows, t),
                    bufs=bufs, scrib=bufs if a['scrib'] else [], what='construction')


@op('mkpoint', est=60)
class _:
    @staticmethod
    def gen(G):
        r = G.r
        d = r.choice((2, 3, 4))
        return {'vals': [r.randint(-9, 9) * 0.5 for _ in range(d)], 'form': r.choice(('list', 'array', 'strided', 'f4')),
                'scrib': r.random() < 0.7}

    @staticmethod
    def run(W, cl, a, attempt):
        v = a['vals']
        buf = list(v)
        if a['form'] != 'list':
            buf = np.array(v, dtype=np.float32 if a['form'] == 'f4' else np.float64)
        arg = buf
        if a['form'] == 'strided':
            buf = np.repeat(buf, 2)
            arg = buf[::2]

        def post(val):
            if isinstance(val, Point):
                W.results[cl.num][a['id']] = W.add(Obj('fpoint', val, np.array(v, dtype=np.float64),
                                                       name='c%d.%d' % (cl.num, a['id'])))
        return Prep(lambda: Point(arg), ('C12',), bufs=[buf], scrib=[buf] if a['scrib'] else [], post=post,
                    cmp=lambda p, e: None if same_bytes(np.array(p.data), np.array(v, dtype=np.float64))
                    else 'point %r instead of %s' % (p, v))


@op('scribble', est=0, nofault=True)
class _:
    """The caller overwrites the buffers a shared curve was built from"""
    @staticmethod
    def gen(G):
        return {'ref': G.ref('curve', 0)}

    @staticmethod
    def run(W, cl, a, attempt):
        co = get(W, cl, a['ref'], 'curve')
        if not isinstance(co.extra, dict) or 'buf' not in co.extra:
            return None
        W.count('fault.scribbled buffers')

        def call():
            scribble(co.extra['buf'])
            if co.extra['tbuf'] is not None:
                scribble(co.extra['tbuf'])
        return Prep(call, ('C12',))


@op('poke', est=200, nofault=True)
class _:
    """The caller tries to write into an array handed out by the library"""
    @staticmethod
    def gen(G):
        r = G.r
        kind = r.choice(('curve', 'curve', 'curve', 'cpoint', 'seg', 'fpoint'))
        q = {'curve': ('data', 't', 'values', 'valuesiter', 'segments') + model.QUANTITIES,
             'cpoint': ('data',) + model.POINT_QUANTITIES, 'seg': ('data', 'direction', 'p1'),
             'fpoint': ('data', 'item', 'slice')}[kind]
        return {'ref': G.ref(kind), 'kind': kind, 'q': r.choice(q),
                'how': r.choice(('set', 'iadd', 'sort', 'fill', 'view', 'T', 'ravel', 'one', 'put', 'byteswap')),
                'aug': r.random() < 0.3}

    @staticmethod
    def run(W, cl, a, attempt):
        o = get(W, cl, a['ref'], a['kind'])
        if o is None:
            return None
        co = o if o.kind == 'curve' else o.m[0] if o.kind in ('cpoint', 'seg') else None
        if co is not None and co.m.n < 2:
            return None
        x, q, how = o.obj, a['q'], a['how']

        if o.kind == 'fpoint' and a['aug']:
            before = np.array(x.data)

            def augmented():
                for f in INPLACE:
                    for other in (2, 2.5, x, Point(x)):
                        try:
                            f(x, other)
                        except (TypeError, ValueError):
                            pass
                        if not same_bytes(before, x.data):
                            return f.__name__
            return Prep(augmented, ('C01',), maywarn=True,
                        cmp=lambda v, e: 'the point was changed in place by %s' % v if v else None)

        def fetch():
            if q == 'values':
                return [x.values(1)]
            if q == 'valuesiter':
                return list(x.values())
            if q == 'item':
                return [x[0], x[0:1]]
            if q == 'slice':
                return [x[0:2].data if x.ndim > 1 else x[0]]
            if q == 'direction':
                return [x.direction.data]
            if q == 'p1':
                return [x.p1.data, x.p2.data]
            return [getattr(x, q)]

        def call():
            before = fetch()
            copies = [np.array(b, copy=True) if isinstance(b, np.ndarray) else b for b in before]
            for arr in before:
                if isinstance(arr, np.ndarray) and arr.size:
                    sys.settrace(None)
                    if poke_array(arr, how):
                        W.count('write accepted')
                    else:
                        W.count('write refused')
                    sys.settrace(cl.tracer)
            after = fetch()
            return copies, after

        def cmp(val, exp):
            for b, c in zip(*val):
                if isinstance(b, np.ndarray) and b.dtype == object:
                    if len(b) != len(c) or any(not (type(p) is type(r) and p.idx == r.idx and p.curve is r.curve)
                                               for p, r in zip(b, c)):
                        return 'writing into %s changed the object' % q
                elif not same_bytes(np.asarray(b), np.asarray(c)):
                    return 'writing into %s changed it from %s to %s' % (q, np.asarray(b).tolist(),
                                                                         np.asarray(c).tolist())
        return Prep(call, ('C01',), cmp=cmp, maywarn=True, what='write into %s of %s' % (q, o.kind))


INPLACE = (operator.iadd, operator.isub, operator.imul, operator.itruediv, operator.ifloordiv, operator.imatmul, operator.imod,
           operator.ipow, operator.iand)


def poke_array(arr, how):
    try:
        if how == 'set':
            arr[...] = None if arr.dtype == object else 99
        elif how == 'iadd':
            if arr.dtype == object:
                arr[0] = None
            else:
                np.add(arr, 1, out=arr, casting='unsafe')
        elif how == 'sort':
            arr[:] = arr[::-1].copy()
        elif how == 'fill':
            arr.fill(None if arr.dtype == object else 98)
        elif how == 'view':
            v = arr[0:1]
            v[...] = None if arr.dtype == object else 97
        elif how == 'T':
            arr.T[...] = None if arr.dtype == object else 96
        elif how == 'ravel':
            v = arr.reshape(-1) if arr.flags.c_contiguous else arr.T.reshape(-1)
            v[0] = None if arr.dtype == object else 95
        elif how == 'put':
            arr.put([0], None if arr.dtype == object else 94)
        elif how == 'byteswap':
            if arr.dtype == object:
                arr[-1] = None
            else:
                arr.byteswap(inplace=True)
        else:
            arr.flat[arr.size - 1] = None if arr.dtype == object else 93
        return True
    except (ValueError, TypeError, IndexError):
        return False


# ====================================================================================================== interpolation

METHODS = ('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps')


def gen_grid(G, depth=0):
    r = G.r
    k = r.choice(('frac', 'frac', 'frac', 'int', 'int', 'upoint', 'ulength', 'extra', 'speed', 'bad'))
    if k == 'bad' and r.random() < 0.5:
        k = 'frac'
    if depth and k in ('extra', 'bad', 'frac', 'speed'):
        k = r.choice(('upoint', 'ulength'))
    if k == 'int' and depth:
        k = 'upoint'
    if k == 'frac':
        n = r.randint(1, 9)
        if r.random() < 0.05:
            # a fine grid, around sizes at which something else might be done
            n = r.choice((33, 64, 65, 100, 127, 128, 129, 130, 200, 256, 257, 300))
            return {'kind': r.choice(('list', 'array', 'array', 'provider')), 'share': False,
                    'frac': [round(i / (n - 1.0), 6) for i in range(n)]}
        f = sorted(set(r.choice((0.0, 1.0, round(r.random(), 3), round(r.random(), 3), r.randint(0, 8) / 8.0))
                       for _ in range(n)))
        if r.random() < 0.15:
            f = [-0.2] + f + [1.3]
            f = sorted(set(f))
        return {'kind': r.choice(('list', 'array', 'array', 'tuple', 'provider', 'provider', 'array_ro')), 'frac': f,
                'share': r.random() < 0.5}
    if k == 'int':
        return {'kind': 'int', 'n': r.choice((2, 3, 5, 7, 12, 1)) if r.random() < 0.93 else r.randint(30, 300)}
    if k == 'upoint':
        return {'kind': 'upoint', 'n': r.choice((2, 3, 4, 6, 11)) if r.random() < 0.95 else r.randint(30, 300)}
    if k == 'ulength':
        return {'kind': 'ulength', 'len': r.choice((0.3, 0.7, 1.3, 2.1, 5.0))}
    if k == 'speed':
        return {'kind': 'speed', 'n': r.choice((2, 3, 5, 9))}
    if k == 'extra':
        return {'kind': 'extra', 'inner': gen_grid(G, 1), 'units': r.choice(('point', 'point', 'length')),
                'before': r.choice((0, 1, 2, 3)), 'after': r.choice((0, 1, 2))}
    # grids which have to be refused
    return {'kind': r.choice(('list', 'array', 'provider')), 'bad': r.choice(('nan', 'nan', 'dup', 'dec', '2d', 'nanfirst',
                                                                             'nanall', 'near', 'zero_d', 'nanlast')),
            'frac': [0.0, 0.25, 0.5, 1.0]}


def bad_grid(g, how):
    g = np.array(g, dtype=float)
    if how == 'nan':
        g[1] = np.nan
    elif how == 'nanfirst':
        g[0] = np.nan
    elif how == 'nanlast':
        g[-1] = np.nan
    elif how == 'nanall':
        g[:] = np.nan
    elif how == 'dup':
        g[2] = g[1]
    elif how == 'near':
        g[2] = g[1] + 1e-12
    elif how == 'dec':
        g = g[::-1].copy()
    elif how == '2d':
        g = g.reshape(2, 2)
    elif how == 'zero_d':
        g = g[:1].reshape(())
    return g


def build_grid(W, cl, spec, m, cb=None, curve=None, attempt=1):
    """(grid argument, reference grid thunk, buffers)"""
    k = spec['kind']
    if too_many(spec, m):
        raise Skip
    if k in ('list', 'array', 'tuple', 'provider', 'array_ro'):
        g = model.grid_of(m, spec)
        if not np.all(np.isfinite(g)):
            raise Skip
        bad = spec.get('bad')
        if bad:
            g = bad_grid(g, bad)
            if bad in ('nan', 'nanfirst', 'nanlast') and not np.all(np.diff(g[np.isfinite(g)]) > 1e-6):
                pass
        if bad == 'near' and k == 'list':
            pass
        expected = np.array(g)

        def refgrid():
            e = expected
            if e.ndim != 1 or e.size == 0 or np.any(np.isnan(e)):
                raise Expect(ValueError)
            d = np.diff(e)
            if np.any(d <= 1e-9):
                raise Expect(ValueError)
            if np.any(d < 1e-7):
                raise Skip
            return e
        if k == 'list':
            buf = g.tolist()
        elif k == 'tuple':
            buf = tuple(g.tolist()) if g.ndim else g.tolist()
        else:
            buf = g
        if k in ('list', 'tuple') and not isinstance(buf, (list, tuple)):
            buf = g
        if spec.get('share') and attempt == 1 and isinstance(buf, (np.ndarray, list)) and k != 'array_ro' and g.ndim == 1:
            # the caller uses one buffer again and again
            pool = W.pool.setdefault((cl.num, k, len(buf), str(g.dtype)), buf)
            pool[:] = buf
            buf = pool
        if k == 'array_ro':
            buf.flags.writeable = False
        if k != 'provider':
            return buf, refgrid, [buf], [buf] if not isinstance(buf, tuple) else []

        class Provider(skcurve.InterpolationGrid):
            def __call__(self, c):
                callback(W, cl, cb or {}, curve=curve, arrays=[c.data, c.t], attempt=attempt)
                return buf
        return Provider(), refgrid, [buf], [buf]
    arg = make_grid(spec)
    return arg, (lambda: model.grid_of(m, spec)), [], []


def too_many(spec, m):
    """Would the grid have an enormous number of points"""
    step = spec.get('len') or spec.get('inner', {}).get('len')
    if not step or m.n < 2:
        return False
    with np.errstate(all='ignore'):
        total = np.sum(np.sqrt(np.sum(np.diff(m.data.astype(float), axis=0) ** 2, axis=1)))
    return not total / step < 300


def make_grid(spec):
    k = spec['kind']
    if k == 'int':
        return spec['n']
    if k == 'upoint':
        return skcurve.UniformInterpolationGrid(spec['n'])
    if k == 'ulength':
        return skcurve.UniformInterpolationGrid(spec['len'], kind='length')
    if k == 'speed':
        return skcurve.PreservedSpeedInterpolationGrid(spec['n'])
    if k == 'extra':
        return skcurve.UniformExtrapolationGrid(make_grid(spec['inner']), before=spec['before'], after=spec['after'],
                                                kind=spec['units'])
    raise KeyError(k)


def gen_method(G):
    r = G.r
    m = r.choice(METHODS)
    p = {}
    if r.random() < 0.5:
        if m == 'linear':
            p['extrapolate'] = r.choice((True, False))
        elif m == 'cubic':
            p['bc_type'] = r.choice(('natural', 'not-a-knot', 'clamped'))
            if r.random() < 0.3:
                p['extrapolate'] = r.choice((True, False))
        elif m in ('hermite', 'pchip'):
            p['extrapolate'] = r.choice((True, False))
        elif m == 'spline':
            if r.random() < 0.6:
                p['k'] = r.choice((1, 2, 3, 4))
            if r.random() < 0.4:
                p['smooth'] = r.choice((0.0, 0.5, 3.0))
            if r.random() < 0.4:
                p['weights'] = True
            if r.random() < 0.3:
                p['extrapolate'] = r.choice((0, 1, 3))
        elif m == 'csaps':
            if r.random() < 0.6:
                p['smooth'] = r.choice((0.3, 0.85, 1.0))
            if r.random() < 0.4:
                p['weights'] = True
    return m, p


def method_params(p, m):
    """(parameters for the library, parameters for the reference, buffers)"""
    p1, p2 = dict(p), dict(p)
    bufs = []
    if p.get('weights'):
        w = [1.0 + (i * 7 % 5) * 0.5 for i in range(m.n)]
        p1['weights'] = np.array(w)
        p2['weights'] = np.array(w)
        bufs.append(p1['weights'])
    return p1, p2, bufs


INTERP_BACKEND = ['interp.interp1d', 'interp.CubicSpline', 'interp.CubicHermiteSpline', 'interp.Akima1DInterpolator',
                  'interp.PchipInterpolator', 'interp.UnivariateSpline', 'csaps.CubicSmoothingSpline']
INTERP_BACKEND = INTERP_BACKEND + [n + '()' for n in INTERP_BACKEND]
BK_OF = {'linear': 'interp.interp1d', 'cubic': 'interp.CubicSpline', 'hermite': 'interp.CubicHermiteSpline',
         'akima': 'interp.Akima1DInterpolator', 'pchip': 'interp.PchipInterpolator',
         'spline': 'interp.UnivariateSpline', 'csaps': 'csaps.CubicSmoothingSpline'}


def strict_interp(spec):
    def strict(kind, exc, fn):
        # grids are computed outside of the interpolator, and one kind of grid needs interpolation itself
        if kind == 'backend' and fn in INTERP_BACKEND and not (fn.startswith('interp.interp1d') and
                                                               spec['kind'] == 'speed'):
            return 'wrap'
        if kind == 'cb':
            return 'same'
    return strict


def interp_reference(W, m, method, p2, refgrid):
    """The expected interpolated curve as a model; raises Expect or Skip"""
    if m.n == 0:
        raise Skip
    if m.n == 1:
        raise Expect(ValueError, skcurve.InterpolationError)
    t = m.param()
    bad = not m.finite or not np.all(np.isfinite(t))
    if bad:
        raise Skip
    if m.t is None:
        # the same bits as the library's, provided that they are right
        own = np.asarray(W.clone(m).t, dtype=np.float64)
        if close(own, t, dtype=m.data.dtype):
            m = MCurve(m.data, None)
            m.tp = t = own
    frenet1 = None
    if method == 'hermite':
        frenet1 = model.quantity(m, 'frenet1')
    d = np.diff(t)
    if np.any((np.abs(d) < 1e-7) & (d != 0)):
        raise Skip
    import warnings
    # the order of the two possible failures is not specified
    cons_err = grid_err = None
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            model.interpolant(m, method, p2, np.array([t[0]]) if method != 'csaps' else np.array([t[0]]), frenet1)
    except Exception as err:
        cons_err = err
    try:
        g = refgrid()
    except Expect as err:
        grid_err = err
    if cons_err is not None and grid_err is not None:
        raise Expect(skcurve.InterpolationError, *grid_err.types)
    if grid_err is not None:
        raise grid_err
    if np.any(np.diff(g) <= 0):
        raise Expect(ValueError, skcurve.InterpolationError)
    if g.ndim != 1 or np.any((np.diff(g) < 1e-6)):
        raise Skip
    if cons_err is not None:
        raise Expect(skcurve.InterpolationError)
    if method == 'linear' and p2.get('extrapolate', True) is False:
        scale = 1e-9 * (1 + np.max(np.abs(t)))
        if np.any((np.abs(g - t.min()) < scale) & (g != t.min())) or np.any(
                (np.abs(g - t.max()) < scale) & (g != t.max())) or m.t is None:
            if g.min() < t.min() + scale or g.max() > t.max() - scale:
                raise Skip
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            x = model.interpolant(m, method, p2, g, frenet1)
    except Exception:
        raise Expect(skcurve.InterpolationError)
    e = MCurve(np.asarray(x, dtype=np.float64).reshape(len(g), m.d), g if m.t is not None else None)
    e.src = (m, g, method, p2)
    e.lazy = lambda: sensitivity(m, method, p2, g, frenet1, x)
    return e


def _noise(seed, shape):
    n = int(np.prod(shape))
    k = (np.arange(n) * 2654435761 + seed * 40503 + 12345) % 65536
    return (k / 32768.0 - 1.0).reshape(shape)


def sensitivity(m, method, p2, g, frenet1, x):
    """How much the interpolant moves when its inputs move by some roundings"""
    import warnings
    eps = 3e-6 if m.data.dtype == np.float32 else 1e-12
    sens = np.zeros(np.shape(x))
    for seed in (1, 2):
        mp = MCurve(m.data, None)
        t = np.array(m.param(), dtype=np.float64)
        mp.data = m.data.astype(np.float64)
        mp.data = mp.data + eps * (1 + np.max(np.abs(mp.data))) * _noise(seed, mp.data.shape)
        mp.tp = t * (1 + eps * _noise(seed + 7, t.shape))
        f1 = None if frenet1 is None else frenet1 * (1 + eps * _noise(seed + 13, np.shape(frenet1)))
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                xp = model.interpolant(mp, method, p2, g, f1)
                diff = np.abs(np.asarray(xp, dtype=np.float64).reshape(sens.shape) - x)
                diff[~np.isfinite(diff)] = np.inf
                diff[np.isnan(x)] = 0.0
                sens = np.maximum(sens, diff)
        except Exception:
            raise Skip
    return sens


def interp_compare(W, val, e):
    m, g, method, p2 = e.src
    v = val.data
    if nat(val.data.dtype) != nat(m.data.dtype):
        return 'number type %s instead of %s' % (val.data.dtype, m.data.dtype)
    if v.shape != e.data.shape:
        return 'shape %s instead of %s' % (v.shape, e.data.shape)
    if val.isparametric != (m.t is not None):
        return 'parametric: %s' % val.isparametric
    if m.t is not None and not close(val.t, g, rtol=1e-12, atol=1e-12):
        return 'parameters %s instead of the grid %s' % (val.t.tolist(), g.tolist())
    x = e.data
    t = m.param()
    rng = max(1.0, float(np.max(np.abs(t))))
    # values at the very end of the range may count as outside for methods which do not extrapolate
    near = (1e-9 if m.data.dtype != np.float32 or m.t is not None else 1e-5) * rng
    edge = (np.abs(g - t[0]) < near) | (np.abs(g - t[-1]) < near)
    v = np.array(v)
    scale = 1.0 + (np.max(np.abs(x[np.isfinite(x)])) if np.any(np.isfinite(x)) else 0.0)
    if m.data.dtype.kind in 'iu':
        with np.errstate(all='ignore'):
            fin = np.isfinite(x) & (np.abs(x) < 2 ** 30)
            if m.data.dtype.itemsize < 4:
                info = np.iinfo(m.data.dtype)
                fin &= (x > info.min) & (x < info.max)
            near = np.abs(x - np.round(x)) < 1e-6 * scale
            okv = (v == np.trunc(x)) | (near & (np.abs(v - x) <= 1.0 + 1e-6 * scale)) | ~fin | edge[:, None]
            if not np.all(okv) and e.lazy is not None:
                okv |= ~(e.lazy() < 1e-7 * scale)
        return None if np.all(okv) else 'points %s instead of %s' % (v.tolist(), x.tolist())
    tol = 1e-7 if m.data.dtype == np.float64 else 1e-3
    with np.errstate(all='ignore'):
        okv = (np.abs(v - x) <= tol * scale) | (np.isnan(v) & np.isnan(x)) | (v == x) | (np.abs(x) > 1e30)
        # NaN or zeros (splines) outside of the range
        out = np.isnan(v) | np.isnan(x)
        if method == 'spline' and p2.get('extrapolate') == 1:
            out |= (np.all(v == 0, axis=1) | np.all(x == 0, axis=1))[:, None]
        okv |= edge[:, None] & out
        if not np.all(okv) and e.lazy is not None:
            okv |= np.abs(v - x) <= tol * scale + 30.0 * e.lazy()
    return None if np.all(okv) else 'points %s instead of %s' % (v.tolist(), x.tolist())


def conditioned(m, method):
    """Is the interpolant insensitive to rounding of the parameter"""
    return True


@curve_op('interp', est=900, backend=INTERP_BACKEND + ['np.linspace', 'np.diff', 'np.isclose'])
class _:
    @staticmethod
    def gen(G):
        method, p = gen_method(G)
        a = {'method': method, 'p': p, 'grid': gen_grid(G), 'via': G.r.choice(('curve', 'curve', 'get'))}
        if a['grid']['kind'] == 'provider':
            a['cb'] = G.cb()
        return a

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        if m.n == 0:
            return None
        f = a.get('fault')
        if f and f['kind'] == 'backend' and f['fn'] in INTERP_BACKEND:
            f['fn'] = BK_OF[a['method']] + ('()' if f['fn'].endswith('()') else '')
        p1, p2, pb = method_params(a['p'], m)
        try:
            grid, refgrid, gb, gs = build_grid(W, cl, a['grid'], m, a.get('cb'), x, attempt)
        except Skip:
            return None
        except Expect:
            return None
        method = a['method']
        if a['via'] == 'curve':
            call = lambda: x.interpolate(grid, method, **p1)  # noqa
        else:
            call = lambda: skcurve.get_interpolator(method, x, **p1)(grid)  # noqa
        return Prep(call, ('C14',), result='curve', ref=lambda: interp_reference(W, m, method, p2, refgrid),
                    cmp=lambda v, e: interp_compare(W, v, e), fam='interp', errs=(skcurve.InterpolationError,),
                    bufs=gb + pb, scrib=gs + pb, maywarn=True, strict=strict_interp(a['grid']), maybe=('C15',),
                    what='interpolation %s %s %s' % (method, a['p'], a['grid']))


@op('interpobj', est=600, backend=[n for n in INTERP_BACKEND if n.endswith('()')])
class _:
    """A shared interpolator used by several clients"""
    @staticmethod
    def gen(G):
        a = {'ref': G.ref('interp', 0), 'grid': gen_grid(G)}
        if a['ref']['s'] < 0:
            return None
        if a['grid']['kind'] == 'provider':
            a['cb'] = G.cb()
        return a

    @staticmethod
    def run(W, cl, a, attempt):
        o = get(W, cl, a['ref'], 'interp')
        if o is None:
            return None
        co, method, p2 = o.m
        x, m = co.obj, co.m
        f = a.get('fault')
        if f and f['kind'] == 'backend':
            f['fn'] = BK_OF[method] + '()'
        try:
            grid, refgrid, gb, gs = build_grid(W, cl, a['grid'], m, a.get('cb'), x, attempt)
        except (Skip, Expect):
            return None
        it = o.obj
        return Prep(lambda: it(grid), ('C14', 'C15'), result='curve',
                    ref=lambda: interp_reference(W, m, method, p2, refgrid), cmp=lambda v, e: interp_compare(W, v, e),
                    errs=(skcurve.InterpolationError,), bufs=gb, scrib=gs, maywarn=True, strict=strict_interp(a['grid']),
                    what='shared interpolator %s %s' % (method, a['grid']))


@op('gridobj', est=300, backend=['np.linspace', 'np.hstack'])
class _:
    """A shared grid object applied to some curve"""
    @staticmethod
    def gen(G):
        a = {'ref': G.ref('grid', 0), 'cref': G.ref('curve'), 'how': G.r.choice(('call', 'interp'))}
        if a['ref']['s'] < 0:
            return None
        return a

    @staticmethod
    def run(W, cl, a, attempt):
        o = get(W, cl, a['ref'], 'grid')
        co = get(W, cl, a['cref'], 'curve')
        if o is None or co.m.n < 2 or not co.m.finite or too_many(o.m, co.m):
            return None
        g, spec, x, m = o.obj, o.m, co.obj, co.m
        if a['how'] == 'call':
            def ref():
                t = m.param()
                if not np.all(np.isfinite(t)):
                    raise Skip
                return model.grid_of(m, spec)
            return Prep(lambda: g(x), ('C15',), ref=ref, maywarn=True, what='grid object %s' % spec,
                        cmp=lambda v, e: None if close(v, e, dtype=m.data.dtype, rtol=1e-9, atol=1e-8) else
                        'grid %s instead of %s' % (np.asarray(v).tolist(), np.asarray(e).tolist()))
        return Prep(lambda: x.interpolate(g, 'linear'), ('C14', 'C15'), result='curve', maywarn=True,
                    ref=lambda: interp_reference(W, m, 'linear', {}, lambda: model.grid_of(m, spec)),
                    cmp=lambda v, e: interp_compare(W, v, e), errs=(skcurve.InterpolationError,),
                    what='interpolation by the grid object %s' % spec)


def setup_special(W, s, name):
    kind = s['kind']
    if kind == 'interp':
        co = W.shared[s['curve']]
        p1, p2, _ = method_params(s['p'], co.m)
        try:
            obj = skcurve.get_interpolator(s['method'], co.obj, **p1)
        except Exception:
            return Obj('none', None, name=name)
        return Obj('interp', obj, (co, s['method'], p2), name=name)
    if kind == 'grid':
        try:
            return Obj('grid', make_grid(s['spec']), s['spec'], name=name)
        except ValueError:
            return Obj('none', None, name=name)
    if kind == 'imethod':
        return Obj('imethod', skcurve.get_intersect_method(s['method'], **s['p']), (s['method'], s['p']), name=name)
    if kind == 'metric':
        return Obj('metric', skcurve.get_metric(s['name'], **s['p']), (s['name'], s['p']), name=name)
    if kind == 'rmethod':
        # user-registered methods are created before the clients start
        return Obj('rmethod', register_user_methods(W, s), s, name=name)
    raise KeyError(kind)


def _g_interp(G):
    method, p = gen_method(G)
    idx = [i for i, s in enumerate(G.shared) if s['kind'] == 'curve' and len(s['data']) >= 4]
    if not idx:
        return None
    return {'kind': 'interp', 'curve': G.r.choice(idx), 'method': method, 'p': p}


def _g_grid(G):
    for _ in range(20):
        s = gen_grid(G)
        if s['kind'] in ('upoint', 'ulength', 'extra', 'speed'):
            return {'kind': 'grid', 'spec': s}
    return None


SPECIAL_GEN['interp'] = _g_interp
SPECIAL_GEN['grid'] = _g_grid
SPECIAL_GEN['imethod'] = lambda G: dict(zip(('kind', 'method', 'p'), ('imethod',) + gen_imethod(G)))
SPECIAL_GEN['rmethod'] = lambda G: {'kind': 'rmethod', 'names': G.r.randint(2, 3)}


# ========================================================================================================== smoothing

def gen_window(n, kind):
    if kind == 'ones':
        return np.ones(n)
    if kind == 'ramp':
        return np.arange(1.0, n + 1)
    if kind == 'gauss':
        k = np.arange(n) - (n - 1) / 2.0
        return np.exp(-0.5 * (k / 2.0) ** 2)
    if kind in ('nan', 'inf'):
        w = np.ones(n)
        w[n // 2] = np.nan if kind == 'nan' else np.inf
        return w
    if kind == 'zerosum':
        return np.arange(n) - (n - 1) / 2.0
    if kind == 'negative':
        return -np.arange(1.0, n + 1)
    if kind == 'int':
        return np.arange(1, n + 1)
    if kind == 'float32':
        return np.arange(1, n + 1, dtype=np.float32)
    if kind == 'unsorted':
        w = np.ones(n)
        w[0], w[-1] = 5.0, -1.0
        return w
    return np.full(n, 3.0)


WINDOWS = ('ones', 'ramp', 'gauss', 'const') * 3 + ('nan', 'inf', 'zerosum', 'negative', 'int', 'float32', 'unsorted')


@curve_op('smooth', est=120, backend=['signal.savgol_filter', 'ndimage.convolve1d', 'windows.get_window'])
class _:
    @staticmethod
    def gen(G):
        r = G.r
        method = r.choice(('savgol', 'window', 'window', 'window', 'user'))
        if method == 'savgol':
            w = r.choice((3, 5, 7))
            return {'method': method, 'p': {'window_length': w, 'polyorder': r.randint(1, w - 1),
                                           'mode': r.choice(('interp', 'nearest', 'mirror'))}}
        if method == 'window':
            p = {'window_size': r.choice((3, 4, 5, 6))}
            if r.random() < 0.5:
                p['mode'] = r.choice(('reflect', 'constant', 'nearest', 'mirror', 'wrap'))
            if r.random() < 0.3:
                p['cval'] = 1.5
            a = {'method': method, 'p': p}
            if r.random() < 0.65:
                a['win'] = r.choice(WINDOWS)
                a['share'] = r.random() < 0.7
                a['cb'] = G.cb()
            elif r.random() < 0.6:
                p['window_type'] = r.choice(('hann', 'hamming', 'boxcar', 'triang', ('gaussian', 0.7), ('gaussian', 0.7),
                                             ('gaussian', 2.5), ('kaiser', 1.0), ('kaiser', 8.0), ('tukey', 0.5)))
                if p['window_size'] < 4:
                    p['window_size'] = 5
            else:
                p['window_size'] = max(4, p['window_size'])
            return a
        return {'method': 'user', 'p': {}, 'cb': G.cb(), 'f': r.randint(1, 3), 'owner': r.random() < 0.5}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        if m.n < 3 or not m.finite or np.any(np.abs(m.data.astype(float)) > 1e6):
            return None
        p1, p2 = dict(a['p']), dict(a['p'])
        if isinstance(p1.get('window_type'), list):
            p1['window_type'] = p2['window_type'] = tuple(p1['window_type'])
        bufs = []
        method = a['method']
        if method == 'user':
            name = W.prefix + 'usm%d_%d' % (cl.num, a['id'])
            tr = np.array(m.data, dtype=np.float64) * a['f'] + 1.0
            buf = np.array(tr)

            def body(curve, **params):
                callback(W, cl, a['cb'], curve=curve, arrays=[curve.data, curve.t], attempt=attempt)
                return buf
            SMOOTHERS[name] = body

            def ref():
                return MCurve(tr)
            return Prep(lambda: x.smooth(name), ('X35', 'C12'), result='curve', ref=ref, bufs=[buf], scrib=[buf],
                        errs=(skcurve.SmoothingError,), strict=strict_smooth_user, what='smoothing by a user method')
        if 'win' in a:
            win = gen_window(p1['window_size'], a['win'])
            if a['share']:
                win = W.shared_windows.setdefault((a['win'], p1['window_size']), win)
            bufs.append(win)

            def wf(size):
                callback(W, cl, a['cb'], curve=x, arrays=[x.data], attempt=attempt)
                return win
            p1['window_type'] = wf
            p2['window_type'] = lambda size: gen_window(size, a['win'])

        def ref():
            import warnings
            try:
                with warnings.catch_warnings(), np.errstate(all='ignore'):
                    warnings.simplefilter('ignore')
                    return MCurve(model.smoothed(m, method, p2))
            except Exception as err:
                if isinstance(err, (ValueError, TypeError)):
                    raise Expect(ValueError, TypeError)
                raise Expect(skcurve.SmoothingError)

        def cmp(v, e):
            if v.data.shape != e.data.shape:
                return 'shape %s instead of %s' % (v.data.shape, e.data.shape)
            scale = 1.0 + float(np.max(np.abs(e.data)))
            tol = 1e-9 if m.data.dtype != np.float32 and a.get('win') != 'float32' else 1e-4
            if np.all(np.isfinite(e.data)) and a.get('win') != 'zerosum' and not close(v.data, e.data, rtol=tol, atol=tol * scale):
                return 'points %s instead of %s' % (v.data.tolist(), e.data.tolist())
            if v.isparametric:
                return 'the smoothed curve is parametric'
        return Prep(lambda: x.smooth(method, **p1), ('X35',), result='curve', ref=ref, cmp=cmp, bufs=bufs,
                    errs=(skcurve.SmoothingError,), strict=strict_smooth, maywarn=True, maybe=('C15', 'C12'),
                    what='smoothing %s %s' % (method, a['p']))


def strict_smooth(kind, exc, fn):
    if kind == 'backend' and fn in ('signal.savgol_filter', 'ndimage.convolve1d', 'windows.get_window'):
        return 'same' if isinstance(exc, (ValueError, TypeError)) else 'wrap'
    if kind == 'cb':
        return (ValueError,)


def strict_smooth_user(kind, exc, fn):
    if kind == 'cb':
        return 'same' if isinstance(exc, (ValueError, TypeError)) else 'wrap'


SMOOTHERS = {}
_smoothers_known = set()


def ensure_smoother(W, name):
    if name in _smoothers_known:
        return
    _smoothers_known.add(name)

    def method(curve, **params):
        return SMOOTHERS[name](curve, **params)
    cl = kernel.current()
    skcurve.register_smooth_method(name)(method)


# ======================================================================================================= intersections

def gen_imethod(G):
    r = G.r
    if r.random() < 0.5:
        return 'exact', ({} if r.random() < 0.7 else {'feps': r.choice((1e-12, 1e-6))})
    p = {}
    if r.random() < 0.5:
        p['dist_tol'] = r.choice((1e-5, 1e-3, 0.3, 1.0))
    if r.random() < 0.3:
        p['correct_overlap'] = True
        if r.random() < 0.5:
            p['parallel_tol'] = 1e-9
    if r.random() < 0.15:
        p['remove_extra'] = True
        p['extra_tol'] = r.choice((1e-3, 0.5))
    return 'almost', p


def info_of(res):
    """Comparable form of a SegmentsIntersection"""
    i = res.intersect_info
    t = i.type.name
    if t == 'NONE':
        return (t, None)
    if t == 'EXACT':
        return (t, np.array(i.data.data))
    return (t, np.array(i.data.data))


def same_info(a, b, tol):
    return a[0] == b[0] and (a[1] is None and b[1] is None or close(a[1], b[1], rtol=tol, atol=tol))


def pair_info(W, s1, s2, method, p, cache, key):
    if key not in cache:
        import warnings
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                cache[key] = ('ok', info_of(s1.intersect(s2, method=method, **p)))
            except Exception as err:
                cache[key] = ('err', err)
    return cache[key]


def near_pairs(m1, m2, slack):
    """The pairs of segments whose boxes touch, up to slack"""
    a, b = m1.data.astype(float), m2.data.astype(float)
    alo, ahi = np.minimum(a[:-1], a[1:]) - slack, np.maximum(a[:-1], a[1:]) + slack
    blo, bhi = np.minimum(b[:-1], b[1:]), np.maximum(b[:-1], b[1:])
    ok = np.all((alo[:, None] <= bhi[None]) & (blo[None] <= ahi[:, None]), axis=2)
    i, j = np.nonzero(ok)
    return set(zip(i.tolist(), j.tolist()))


def nearly_parallel(m1, i, m2, j):
    """The position of the closest points is badly conditioned"""
    u = (m1.data[i + 1].astype(float) - m1.data[i].astype(float))
    v = (m2.data[j + 1].astype(float) - m2.data[j].astype(float))
    a, b, c = u @ u, u @ v, v @ v
    return a * c - b * b <= 1e-5 * a * c or a < 1e-8 or c < 1e-8


def distance_noise(m1, i, m2, j):
    """Bound for the rounding errors of the distance between two segments"""
    eps = 1.2e-7 if np.float32 in (m1.data.dtype, m2.data.dtype) else 2.2e-16
    x, y = m1.data[i:i + 2].astype(float), m2.data[j:j + 2].astype(float)
    u, v = x[1] - x[0], y[1] - y[0]
    a, b, c = u @ u, u @ v, v @ v
    det = a * c - b * b
    scale = 1 + max(np.max(np.abs(x)), np.max(np.abs(y)))
    if eps > 1e-10 and det < 1e-4 * a * c or det < 1e-10 * a * c and det != 0.0:
        return np.inf           # rounding errors decide whether the segments are parallel
    return 20 * eps * scale * (a * c / det if det > 0 else 1.0)


def expected_pairs(W, co1, co2, selfi, method, p, reported=(), swap=False):
    """What the method says about each pair of segments alone: {(i, j): info}; None where undecided"""
    key = ('pairs', id(co1), id(co2), selfi, method, tuple(sorted(p.items())), swap)
    pc = W.paircache.setdefault(key, {})
    p = {k: v for k, v in p.items() if k not in ('remove_extra', 'extra_tol')}
    m1, m2 = co1.m, co2.m
    if 'c1' not in pc:
        pc['c1'] = W.clone(m1)
        pc['c2'] = pc['c1'] if selfi else W.clone(m2)
    c1, c2 = pc['c1'], pc['c2']
    slack = 2 * p.get('dist_tol', 1e-5) + 1e-3 * (1 + np.max(np.abs(m1.data.astype(float))))
    exp = {}
    dist_tol = p.get('dist_tol', 1e-5)
    if 'near' not in pc:
        pc['near'] = {(i, j) for i, j in near_pairs(m1, m2, slack) if not selfi or j >= i + 2}
    todo = pc['near'] | set(reported)
    if len(todo) > 300:
        return None
    for i, j in sorted(todo):
        sa, sb = c1.segments[i], c2.segments[j]
        if swap:
            sa, sb = sb, sa
        r = pair_info(W, sa, sb, method, p, pc, (i, j))
        if r[0] == 'err':
            exp[i, j] = None
            continue
        info = r[1]
        if method == 'almost' and ('d', i, j) not in pc:
            pc['d', i, j] = float(sa.shortest_segment(sb).seglen)
        if method == 'almost' and abs(pc['d', i, j] - dist_tol) <= 0.1 * dist_tol + distance_noise(m1, i, m2, j):
            exp[i, j] = None
            continue
        if info[0] != 'NONE':
            exp[i, j] = info
    return exp


def extra_removed(exp, got, p, scale):
    """Whether the pairs can be what remains when of each group of connected intersections the shortest one is kept"""
    keys = sorted(k for k, v in exp.items() if v is not None)
    tol = p.get('extra_tol', 1e-3)
    pts = np.array([np.mean(np.atleast_2d(exp[k][1]), axis=0) for k in keys])
    lens = [float(np.sqrt(np.sum(np.diff(exp[k][1], axis=0) ** 2))) for k in keys]
    parent = list(range(len(keys)))

    def find(i):
        while parent[i] != i:
            i = parent[i]
        return i
    for i in range(len(keys)):
        for j in range(i):
            d = float(np.sqrt(np.sum((pts[i] - pts[j]) ** 2)))
            if abs(d - tol) < 1e-6 * scale:
                return None
            if d < tol:
                parent[find(i)] = find(j)
    groups = {}
    for i in range(len(keys)):
        groups.setdefault(find(i), []).append(i)
    for g in groups.values():
        left = [i for i in g if keys[i] in got]
        if len(left) != 1:
            return 'of the connected intersections %s %s are reported' % ([keys[i] for i in g], [keys[i] for i in left])
        if lens[left[0]] > min(lens[i] for i in g) + 1e-6 * scale:
            return 'of the connected intersections %s not the closest one, but %s is reported' % (
                [keys[i] for i in g], keys[left[0]])


def compare_curves(W, val, co1, co2, selfi, method, p, missing_ok=0, seg_other=None, seg_first=False):
    """None or message.  seg_other: the segment object the caller passed in place of the second curve"""
    if not isinstance(val, list):
        return 'result is %r' % type(val)
    got = {}
    order = []
    for r in val:
        if not isinstance(r, skcurve.SegmentsIntersection):
            return 'result contains %r' % type(r)
        s1, s2 = r.segment1, r.segment2
        if seg_other is not None:
            sx = s1 if seg_first else s2
            sc = s2 if seg_first else s1
            if sx is not seg_other:
                return 'the segment of the caller is reported as %r' % sx
            if not isinstance(sc, CurveSegment) or sc.curve is not co1.obj:
                return 'reported segment %r is not of the curve of the caller' % sc
            k = (sc.idx, 0)
        else:
            if not isinstance(s1, CurveSegment) or s1.curve is not co1.obj:
                return 'reported segment %r is not of the first curve' % s1
            if not isinstance(s2, CurveSegment) or s2.curve is not co2.obj:
                return 'reported segment %r is not of the second curve' % s2
            k = (s1.idx, s2.idx)
        if k in got:
            return 'the pair %s is reported twice' % (k,)
        got[k] = info_of(r)
        order.append(k)
    if order != sorted(order):
        return 'the pairs are not in order: %s' % order
    if selfi and any(j < i + 2 for i, j in order):
        return 'adjacent or repeated pairs: %s' % order
    for i, j in order:
        if not (0 <= i < co1.m.n - 1 and 0 <= j < co2.m.n - 1):
            return 'the pair %s does not exist' % ((i, j),)
    ex = expected_pairs(W, co1, co2, selfi, method, p, reported=set(got), swap=seg_first)
    if ex is None:
        W.count('undecided')
        return None
    scale = 1 + np.max(np.abs(co1.m.data.astype(float)))
    tol = 1e-7 * scale
    f4 = np.float32 in (co1.m.data.dtype, co2.m.data.dtype)
    if f4:
        tol = max(tol, 1e-2)
    missing = []
    for k, info in ex.items():
        if info is None:
            continue
        if k not in got:
            missing.append(k)
        elif not same_info(got[k], info, tol) and not (
                got[k][0] == info[0] and nearly_parallel(co1.m, k[0], co2.m, k[1])):
            return 'pair %s is reported as %r, alone it is %r' % (k, got[k], info)
    if p.get('remove_extra'):
        missing = []
        if method == 'almost' and not f4 and not p.get('correct_overlap') and None not in ex.values() \
                and not any(nearly_parallel(co1.m, i, co2.m, j) for i, j in ex):
            msg = extra_removed(ex, got, p, scale)
            if msg:
                return msg
    if len(missing) > missing_ok:
        return 'pairs %s are not reported: reported %s' % (missing, order)
    for k in got:
        if ex.get(k, 0) == 0:
            return 'pair %s is reported, alone it does not intersect' % (k,)


INTER_BACKEND = ['linalg.solve', 'linalg.solve', 'linalg.lstsq', 'linalg.matrix_rank', 'np.isclose', 'np.nonzero',
                 'np.einsum', 'distance.pdist', 'distance.squareform', 'np.stack', 'np.unique']


def strict_inter(kind, exc, fn):
    if kind == 'backend':
        return 'wrap'
    if kind == 'cb':
        return 'wrap'


def _limit(m, n=13):
    return m.n <= n and m.finite and (m.n == 0 or float(np.max(np.abs(m.data.astype(float)))) < 1e5)


@op('icurve', est=2500, backend=INTER_BACKEND)
class _:
    @staticmethod
    def gen(G):
        r = G.r
        method, p = gen_imethod(G)
        return {'ref': G.ref('curve', 0.25), 'ref2': G.ref('curve', 0.25), 'self': r.random() < 0.25,
                'method': method, 'p': p, 'selfform': r.random() < 0.5,
                'via': r.choice(('name', 'name', 'object', 'shared', 'default'))
                if method == 'exact' else r.choice(('name', 'name', 'object', 'shared')), 'mref': G.ref('imethod', 0)}

    @staticmethod
    def run(W, cl, a, attempt):
        co1 = get(W, cl, a['ref'], 'curve')
        co2 = co1 if a['self'] else get(W, cl, a['ref2'], 'curve')
        m1, m2 = co1.m, co2.m
        if not (_limit(m1, 400) and _limit(m2, 400)) or m1.n * m2.n > 2200:
            return None
        if max(m1.n, m2.n) > 13 and m1.n and m2.n and m1.d == m2.d and len(near_pairs(m1, m2, 1e-3)) > 60:
            return None
        if m1.n and m2.n and m1.d != m2.d or m1.n == 0 or m2.n == 0:
            return None
        x, y = co1.obj, co2.obj
        selfi = x is y
        method, p = a['method'], a['p']
        via = a['via']
        mo = get(W, cl, a['mref'], 'imethod') if via == 'shared' else None
        tags = ('C13',)
        if via == 'shared' and mo is None:
            via = 'name'
        if via == 'shared':
            method, p = mo.m
            meth = mo.obj
            kw = {}
            tags = ('C13', 'C15')
        elif via == 'object':
            meth = skcurve.get_intersect_method(method, **p)
            kw = {}
        elif via == 'default':
            meth, kw, p = None, {}, {}
        else:
            meth, kw = method, p
        if via == 'default' and W.defaults_change:
            meth = method
        if selfi and a['selfform']:
            call = lambda: x.intersect(method=meth, **kw) if meth is not None else x.intersect()  # noqa
        else:
            call = lambda: x.intersect(y, method=meth, **kw) if meth is not None else x.intersect(y)  # noqa
        f = a.get('fault')
        singular = f and f['kind'] == 'backend' and f['fn'] == 'linalg.solve' and f['exc'] == 'LinAlgError' \
            and attempt == 1

        def cmp(v, e):
            return compare_curves(W, v, co1, co2, selfi, method, p, missing_ok=1 if singular else 0)
        return Prep(call, tags, cmp=cmp, errs=(IE(),), maywarn=True, strict=strict_inter,
                    maybe=('C15', 'C06'), what='intersection %s %s' % (method, p))


def IE():
    from skcurve import _intersect
    return _intersect.IntersectionError


@op('iseg', est=1200, backend=INTER_BACKEND)
class _:
    """A curve with a segment, a segment with a curve, two segments"""
    @staticmethod
    def gen(G):
        method, p = gen_imethod(G)
        p.pop('remove_extra', None)
        p.pop('extra_tol', None)
        return {'ref': G.ref('curve', 0.3), 'sref': G.ref(('seg', 'seg', 'fseg')), 'method': method, 'p': p,
                'form': G.r.choice(('cs', 'ss', 'ss', 'mcs', 'msc'))}

    @staticmethod
    def run(W, cl, a, attempt):
        co = get(W, cl, a['ref'], 'curve')
        so = get(W, cl, a['sref'], ('seg', 'fseg'))
        if so is None or not _limit(co.m, 400) or co.m.n < 2:
            return None
        s, x = so.obj, co.obj
        if so.kind == 'seg':
            data = so.m[0].m.data[so.m[1]:so.m[1] + 2].astype(np.float64)
        else:
            data = np.array(so.m)
        sm = MCurve(data)
        if not _limit(sm) or sm.d != co.m.d or co.m.n > 60 and len(near_pairs(co.m, sm, 1e-3)) > 60:
            return None
        method, p = a['method'], a['p']
        f = a.get('fault')
        singular = f and f['kind'] == 'backend' and f['fn'] == 'linalg.solve' and f['exc'] == 'LinAlgError' \
            and attempt == 1
        smo = W.segmodels.setdefault(id(so), Obj('curve', None, sm))
        if a['form'] == 'ss':
            k = (a['id'] * 7 + co.m.n) % (co.m.n - 1)
            touching = sorted(i for i, _ in near_pairs(co.m, sm, 1e-3))
            if touching and a['id'] % 4:
                k = touching[k % len(touching)]
            s1 = x.segments[k]

            def cmp(v, e):
                if v.segment1 is not s1 or v.segment2 is not s:
                    return 'the segments of the caller are reported as %r, %r' % (v.segment1, v.segment2)
                if singular:
                    return None
                ex = expected_pairs(W, co, smo, False, method, p, reported={(k, 0)})
                if ex is None:
                    return None
                ex = ex.get((k, 0), ('NONE', None))
                if ex is not None and not same_info(info_of(v), ex, 1e-6):
                    return 'reported %r, alone it is %r' % (info_of(v), ex)
            return Prep(lambda: s1.intersect(s, method=method, **p), ('C13', 'C15'), cmp=cmp, errs=(IE(),),
                        maywarn=True, strict=strict_inter, what='intersection of segments')
        if a['form'] == 'cs':
            call = lambda: x.intersect(s, method=method, **p)  # noqa
        elif a['form'] == 'mcs':
            call = lambda: skcurve.get_intersect_method(method, **p)(x, s)  # noqa
        else:
            call = lambda: skcurve.get_intersect_method(method, **p)(s, x)  # noqa
        first = a['form'] == 'msc'

        def cmp(v, e):
            return compare_curves(W, v, co, smo, False, method, p, missing_ok=1 if singular else 0, seg_other=s,
                                  seg_first=first)
        return Prep(call, ('C13',), cmp=cmp, errs=(IE(),) , maywarn=True,
                    strict=strict_inter if a['form'] == 'cs' else None,
                    what='intersection of a curve and a segment (%s %s)' % (method, p))


# ================================================================================================= registries, default

KINDS = ('interp', 'smooth', 'inter')


def registry(kind):
    if kind == 'interp':
        return skcurve.register_interpolator, skcurve.interp_methods
    if kind == 'smooth':
        return skcurve.register_smooth_method, skcurve.smooth_methods
    return skcurve.register_intersect_method, skcurve.intersect_methods


NAMES = (('0', '1', '2', '3'), ('0', '1', '2', '3'), ('m', 'm ', ' m', 'm  '), ('method', 'Method', 'METHOD', 'methoD'),
         ('\u00e9', 'e\u0301', 'e', '\u00c9'), ('a.b', 'a', 'a.b.c', 'a-b'), ('exact', 'exact1', 'linear', 'savgol'))


def regname(W, n):
    """Names of user methods; they are the same in the three registries and easily confused with one another"""
    return W.prefix + 'R' + NAMES[W.plan['seed'] // 3 % len(NAMES)][n]


_dummy = []


def dummy_curve():
    if not _dummy:
        _dummy.append(Curve([[0.0, 1.0, 2.0, 3.0], [0.0, 1.0, 0.0, 1.0]]))
    return _dummy[0]


def make_method_class(W, kind, ident, cb=None):
    """A user-supplied method which can be recognised by its results"""
    if kind == 'interp':
        class M(skcurve.InterpolatorBase):
            ID = ident

            def _interpolate(self, grid):
                return np.full((grid.size, self.curve.ndim), float(ident))
        M.__name__ = 'Interp%d' % ident
        return M
    if kind == 'smooth':
        def smooth(curve, **params):
            return np.full(curve.data.shape, float(ident))
        smooth.ID = ident
        return smooth
    from skcurve._intersect import IntersectionMethodBase

    class I(IntersectionMethodBase):
        ID = ident

        def __init__(self, **params):
            self.params = params

        def _intersect_segments(self, s1, s2):
            for _ in range(1):
                kernel.yield_point()
            return skcurve.IntersectionType.EXACT(Point([float(ident)] * s1.ndim))

        def _intersect_curves(self, c1, c2):
            kernel.yield_point()
            return [skcurve.SegmentsIntersection(
                c1.segments[0], c2.segments[0], skcurve.IntersectionType.EXACT(Point([float(ident)] * c1.ndim)))]
    I.__name__ = 'Inter%d' % ident
    return I


@op('reg', est=60)
class _:
    @staticmethod
    def gen(G):
        r = G.r
        return {'kind': r.choice(G.p.get('regkinds', KINDS)), 'name': r.randrange(G.p.get('regnames', 3)),
                'wrong': r.random() < 0.12 and r.choice(('class', 'class', 'other', 'instance', 'none')), 'default': r.random() < G.p.get('regdefault', 0.0),
                'uid': r.randrange(1 << 20)}

    @staticmethod
    def run(W, cl, a, attempt):
        kind = a['kind']
        name = regname(W, a['name'])
        reg, lister = registry(kind)
        wrong = a['wrong'] if kind != 'smooth' else False
        ident = 10 + cl.num * 1000 + a['id']
        if not wrong:
            cls = make_method_class(W, kind, ident)
        elif wrong == 'other':
            cls = make_method_class(W, 'inter' if kind == 'interp' else 'interp', ident)
        else:
            cls = {'instance': 5, 'none': None}.get(wrong, type('Wrong', (object,), {}))
        default = a['default'] and kind == 'inter'
        h = {'op': 'reg', 'kind': kind, 'name': name, 'val': ident, 'wrong': wrong, 'client': cl.num, 'oid': a['id'],
             'cls': cls}
        hd = {'op': 'setdef', 'name': name, 'client': cl.num, 'oid': a['id'], 'after': h} if default else None

        def call():
            h['start'] = W.tick()
            if hd:
                hd['start'] = W.tick()
            try:
                r = reg(name, default=True)(cls) if default else reg(name)(cls)
                h['res'] = 'ok'
                if hd:
                    hd['res'] = 'ok'
                return r
            except ValueError as err:
                h['res'] = 'ValueError'
                raise
            except TypeError:
                h['res'] = 'TypeError'
                raise
            except BaseException as err:
                h['res'] = 'aborted'
                if hd:
                    hd['res'] = 'aborted'
                raise
            finally:
                h['end'] = W.tick()
                if hd:
                    hd['end'] = h['end']
                    hd.setdefault('res', 'none')

        W.history.append(h)
        if hd:
            W.history.append(hd)

        def cmp(r, e):
            if r is not cls:
                return 'the decorator returned %r instead of the decorated object' % (r,)

        def ref():
            if wrong or h['res'] in ('ValueError', 'TypeError'):
                raise Expect(ValueError, TypeError)
        return Prep(call, ('C05',), ref=ref, cmp=cmp, retry=False, what='registration')


@op('lookup', est=60)
class _:
    @staticmethod
    def gen(G):
        r = G.r
        return {'kind': r.choice(G.p.get('regkinds', KINDS)), 'name': r.randrange(G.p.get('regnames', 3)),
                'how': r.choice(('get', 'get', 'use', 'list', 'list'))}

    @staticmethod
    def run(W, cl, a, attempt):
        kind = a['kind']
        name = regname(W, a['name'])
        reg, lister = registry(kind)
        c = dummy_curve()
        h = {'op': 'list' if a['how'] == 'list' else 'lookup', 'kind': kind, 'name': name, 'client': cl.num,
             'oid': a['id']}

        def get_it():
            if a['how'] == 'list':
                return registry_names(W, kind)
            if kind == 'interp':
                if a['how'] == 'get':
                    return skcurve.get_interpolator(name, c).ID
                return int(c.interpolate(3, name).data[0, 0])
            if kind == 'smooth':
                if a['how'] == 'get':
                    return skcurve.get_smooth_method(name).ID
                return int(c.smooth(name).data[0, 0])
            if a['how'] == 'get':
                return skcurve.get_intersect_method(name).ID
            return int(c.intersect(c, method=name)[0].intersect_point.data[0])

        def call():
            h['start'] = W.tick()
            try:
                h['res'] = get_it()
                return h['res']
            except NameError:
                h['res'] = 'NameError'
                raise
            except BaseException:
                h['res'] = 'aborted'
                raise
            finally:
                h['end'] = W.tick()
        W.history.append(h)

        def ref():
            if h['res'] == 'NameError':
                raise Expect(NameError)
        return Prep(call, ('C05',), ref=ref, what='lookup', errs=(skcurve.InterpolationError, skcurve.SmoothingError, IE()))


def register_user_methods(W, s):
    """Registered before the clients start: names <prefix>d0.. with recognisable results"""
    names = []
    for i in range(s['names']):
        name = W.prefix + 'd%d' % i
        cls = make_method_class(W, 'inter', 500 + i)
        skcurve.register_intersect_method(name)(cls)
        W.known_defaults[name] = 500 + i
        names.append(name)
    return names


BAD_NAMES = ('unknown', 'unknown', 'empty', 'Exact', 'exact ', 'prefix')


def bad_name(W, kind):
    """The name of no method"""
    return {'empty': '', 'Exact': 'Exact', 'exact ': 'exact ', 'prefix': W.prefix}.get(kind, W.prefix + 'unknown')


class Name(str):
    """A method name which is not a plain string"""


def _dname(W, a):
    names = sorted(W.known_defaults)
    if not names:
        return 'exact'
    return (names + ['exact', 'almost'])[a['name'] % (len(names) + 2)]


@op('setdef', est=40)
class _:
    @staticmethod
    def gen(G):
        return {'name': G.r.randrange(5), 'bad': G.r.random() < 0.15 and G.r.choice(BAD_NAMES)}

    @staticmethod
    def run(W, cl, a, attempt):
        name = bad_name(W, a['bad']) if a['bad'] else _dname(W, a)
        h = {'op': 'setdef', 'name': name, 'bad': a['bad'], 'client': cl.num, 'oid': a['id']}

        def call():
            h['start'] = W.tick()
            try:
                r = skcurve.set_default_intersect_method(name)
                h['res'] = 'ok'
                return r
            except NameError:
                h['res'] = 'NameError'
                raise
            except BaseException:
                h['res'] = 'aborted'
                raise
            finally:
                h['end'] = W.tick()
        W.history.append(h)

        def ref():
            if a['bad']:
                raise Expect(NameError)
        return Prep(call, ('C06',), ref=ref, what='setting the default method', retry=False)


@op('getdef', est=20)
class _:
    @staticmethod
    def gen(G):
        return {}

    @staticmethod
    def run(W, cl, a, attempt):
        h = {'op': 'getdef', 'client': cl.num, 'oid': a['id']}

        def call():
            h['start'] = W.tick()
            try:
                h['res'] = skcurve.default_intersect_method()
                return h['res']
            except BaseException:
                h['res'] = 'aborted'
                raise
            finally:
                h['end'] = W.tick()
        W.history.append(h)
        return Prep(call, ('C06',), what='reading the default method')


CROSS = ([[0.0, 2.0, 4.0], [0.0, 2.0, 0.0]], [[0.0, 4.0], [1.0, 1.0]])


@op('idef', est=700, backend=['linalg.solve', 'linalg.matrix_rank', 'np.isclose'])
class _:
    """An intersection which does not name a method / which does"""
    @staticmethod
    def gen(G):
        r = G.r
        return {'how': r.choice(('none', 'none', 'none', 'none', 'name', 'object', 'unknown')), 'name': r.randrange(5),
                'form': r.choice(('curve', 'curve', 'seg', 'curveseg')), 'bad': r.choice(BAD_NAMES),
                'odd': r.random() < 0.3}

    @staticmethod
    def run(W, cl, a, attempt):
        c1, c2 = W.cross()
        name = _dname(W, a)
        h = {'op': 'use', 'client': cl.num, 'oid': a['id']}
        kw = {}
        expect = None
        if a['how'] == 'name':
            kw = {'method': Name(name) if a.get('odd') else name}
            expect = name
        elif a['how'] == 'object':
            kw = {'method': skcurve.get_intersect_method(name)}
            expect = name
            if a.get('odd'):
                # an object which is easily taken for something which is not there
                m = make_method_class(W, 'inter', 499)()
                t = type(m)
                t.__bool__, t.__len__ = (lambda s: False), (lambda s: 0)
                t.__str__ = t.__repr__ = lambda s: 'almost'
                kw, expect = {'method': m}, 499
        elif a['how'] == 'unknown':
            kw = {'method': bad_name(W, a.get('bad'))}

        def ref():
            if a['how'] == 'unknown':
                raise Expect(NameError)

        def use():
            if a['form'] == 'seg':
                r = c1.segments[0].intersect(c2.segments[0], **kw)
            elif a['form'] == 'curveseg':
                r = c1.intersect(c2.segments[0], **kw)
                r = r[0] if r else None
            else:
                r = c1.intersect(c2, **kw)
                r = r[0] if r else None
            if not r:
                return 'none'
            t = r.intersect_info.type.name
            if t == 'ALMOST':
                return 'almost'
            v = float(r.intersect_info.data.data[0])
            return 'exact' if abs(v - 1.0) < 1e-9 else int(v)

        def call():
            h['start'] = W.tick()
            try:
                v = use()
                for n, ident in W.known_defaults.items():
                    if ident == v:
                        v = n
                for hh in W.history:
                    if hh['op'] == 'reg' and hh['kind'] == 'inter' and hh['val'] == v:
                        v = hh['name']
                # a singular system of equations which was injected means "no intersection" for a pair
                h['res'] = v if cl.bfault_exc is None else 'aborted'
                return v
            except BaseException:
                h['res'] = 'aborted'
                raise
            finally:
                h['end'] = W.tick()
        if a['how'] == 'none':
            W.history.append(h)
        return Prep(call, ('C06',), what='intersection (%s)' % a['how'], errs=(IE(),), ref=ref,
                    cmp=lambda v, e: None if expect is None or v == expect or h['res'] == 'aborted' else
                    'the method %s was used instead of %s' % (v, expect))


# ============================================================================================== parameters and metrics

METRICS = [('euclidean', {}), ('cityblock', {}), ('chebyshev', {}), ('minkowski', {}), ('minkowski', {'p': 1}),
           ('minkowski', {'p': 3}), ('sqeuclidean', {}), ('minkowski', {'p': 2, 'w': 'w'}), ('seuclidean', {'V': 'w'}),
           ('wminkowski', {'p': 2, 'w': 'w'}), ('canberra', {}), ('euclidean', {'w': 'w'}), ('cosine', {}),
           ('braycurtis', {}), ('correlation', {})]
SPECIAL_GEN['metric'] = lambda G: {'kind': 'metric', 'name': 'minkowski', 'p': G.r.choice(({}, {'p': 1}, {'p': 3}))}


@op('dist', est=60, backend=['distance.euclidean', 'distance.cityblock', 'distance.chebyshev', 'distance.minkowski'])
class _:
    @staticmethod
    def gen(G):
        r = G.r
        a = {'ref': G.ref('cpoint'), 'vals': [r.randint(-9, 9) * 0.5 for _ in range(6)], 'm': r.randrange(len(METRICS)),
             'via': r.choice(('name', 'name', 'name', 'obj', 'user', 'unknown', 'shared')), 'mref': G.ref('metric', 0)}
        if a['via'] == 'user':
            a['cb'] = G.cb()
        return a

    @staticmethod
    def run(W, cl, a, attempt):
        import scipy.spatial.distance as sd
        po = get(W, cl, a['ref'], 'cpoint')
        if po is None:
            return None
        co, k = po.m
        row = co.m.data[k].astype(np.float64)
        if not np.all(np.isfinite(row)) or co.m.d > 6:
            return None
        other = np.array(a['vals'][:co.m.d])
        p, q = po.obj, Point(other)
        name, kw = METRICS[a['m']]
        kw = {kk: ([1.0 + i for i in range(co.m.d)] if v == 'w' else v) for kk, v in kw.items()}
        via = a['via']
        mo = get(W, cl, a['mref'], 'metric') if via == 'shared' else None
        if via == 'shared' and mo is None:
            via = 'name'
        if via == 'unknown':
            def ref():
                raise Expect(NameError)
            return Prep(lambda: p.distance(q, metric='no such metric'), ('C04',), ref=ref)
        if via == 'user':
            def metric(u, v):
                callback(W, cl, a['cb'], curve=co.obj, arrays=[u, v], attempt=attempt)
                if not same_bytes(np.array(u), row) or not same_bytes(np.array(v), other):
                    W.violate(('C12',), 'callback data', 'the metric received %s, %s' % (u, v), cl.num, a['id'])
                return 42.5
            return Prep(lambda: p.distance(q, metric=metric), ('C12', 'C15'), maywarn=True,
                        cmp=lambda v, e: None if v == 42.5 else 'distance %r instead of that of the metric' % v,
                        strict=lambda kind, exc, fn: 'same' if kind == 'cb' else None)
        if via == 'shared':
            name, kw = mo.m
            f = mo.obj
            call = lambda: p.distance(q, metric=f)  # noqa
        elif via == 'obj':
            call = lambda: p.distance(q, metric=skcurve.get_metric(name, **kw))  # noqa
        else:
            call = lambda: p.distance(q, metric=name, **kw)  # noqa

        def ref():
            fn = getattr(sd, name)
            fn = getattr(fn, '__dst_orig__', fn)
            with np.errstate(all='ignore'):
                return float(fn(np.array(row), np.array(other), **kw))
        return Prep(call, ('C15',), ref=ref, maywarn=True, what='distance %s %s' % (name, kw),
                    cmp=lambda v, e: None if close(v, e) else 'distance %r instead of %r' % (v, e),
                    strict=lambda kind, exc, fn: 'same' if kind == 'backend' else None)


@op('segalg', est=500)
class _:
    """Algorithms on segments: results depend on the arguments alone"""
    @staticmethod
    def gen(G):
        r = G.r
        return {'ref': G.ref(('seg', 'seg', 'fseg')), 'ref2': G.ref(('seg', 'fseg')),
                'how': r.choice(('point', 'points', 'points', 't', 'ts', 'angle', 'parallel', 'collinear', 'coplanar',
                                 'overlap', 'shortest', 'distance', 'reverse', 'to_curve')),
                'ts': [r.choice((0.0, 1.0, 0.5, 0.25, 2.0)) for _ in range(r.randint(1, 4))],
                'form': r.choice(('list', 'array', 'tuple'))}

    @staticmethod
    def run(W, cl, a, attempt):
        o1 = get(W, cl, a['ref'], ('seg', 'fseg'))
        o2 = get(W, cl, a['ref2'], ('seg', 'fseg'))
        if o1 is None or o2 is None:
            return None
        d1, d2 = _segdata(o1), _segdata(o2)
        if d1.shape != d2.shape or not (np.all(np.isfinite(d1)) and np.all(np.isfinite(d2))):
            return None
        s, q = o1.obj, o2.obj
        how = a['how']
        bufs = []
        if how in ('points', 'ts'):
            arg = list(a['ts'])
            if a['form'] == 'array':
                arg = np.array(a['ts'])
            elif a['form'] == 'tuple':
                arg = tuple(a['ts'])
            bufs = [arg]
        if how == 'point':
            call = lambda: s.point(a['ts'][0])  # noqa
        elif how == 'points':
            call = lambda: s.point(arg)  # noqa
        elif how == 't':
            pt = Point(d1[0] + a['ts'][0] * (d1[1] - d1[0]))
            call = lambda: s.t(pt)  # noqa
        elif how == 'ts':
            pts = [Point(d1[0] + t * (d1[1] - d1[0])) for t in a['ts']]
            bufs = []
            call = lambda: s.t(pts)  # noqa
        elif how in ('reverse', 'to_curve'):
            call = lambda: getattr(s, how)()  # noqa
        elif how == 'shortest':
            call = lambda: s.shortest_segment(q)  # noqa
        else:
            call = lambda: getattr(s, how)(q)  # noqa

        def again(x, y):
            if how == 'point':
                return x.point(a['ts'][0])
            if how == 'points':
                return x.point(list(a['ts']))
            if how == 't':
                return x.t(pt)
            if how == 'ts':
                return x.t(pts)
            if how in ('reverse', 'to_curve'):
                return getattr(x, how)()
            if how == 'shortest':
                return x.shortest_segment(y)
            return getattr(x, how)(y)

        def cmp(v, e):
            if how in ('point', 'points'):
                e = [d1[0] + t * (d1[1] - d1[0]) for t in a['ts']]
                v2 = [v] if how == 'point' else v
                e = e[:1] if how == 'point' else e
                if len(v2) != len(e) or any(not close(p.data, w) for p, w in zip(v2, e)):
                    return 'points %r instead of %r' % (v, e)
                return None
            x = Segment(Point(np.array(d1[0])), Point(np.array(d1[1])))
            y = Segment(Point(np.array(d2[0])), Point(np.array(d2[1])))
            try:
                e = again(x, y)
            except Exception as err:
                return 'result %r, alone %r' % (v, err)
            if not same_value(v, e):
                return '%s: result %r, alone it is %r' % (how, v, e)

        def ref():
            x = Segment(Point(np.array(d1[0])), Point(np.array(d1[1])))
            y = Segment(Point(np.array(d2[0])), Point(np.array(d2[1])))
            try:
                again(x, y)
            except Exception as err:
                raise Expect(type(err))
        return Prep(call, ('C10',), ref=ref, cmp=cmp, bufs=bufs, scrib=[b for b in bufs if not isinstance(b, tuple)],
                    maywarn=True, what='segment %s' % how, maybe=('C12', 'C02'))


def _segdata(o):
    if o.kind == 'seg':
        return o.m[0].m.data[o.m[1]:o.m[1] + 2].astype(np.float64)
    return np.array(o.m)


def same_value(a, b):
    if type(a) in (list, tuple):
        return type(a) is type(b) and len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, (Point, Segment, Curve)):
        return type(b) is type(a) and close(a.data, b.data)
    if a is None or b is None:
        return a is b
    return close(np.asarray(a), np.asarray(b))


@op('ptarith', est=60)
class _:
    @staticmethod
    def gen(G):
        r = G.r
        return {'ref': G.ref(('cpoint', 'fpoint')), 'ref2': G.ref(('cpoint', 'fpoint')),
                'how': r.choice(('add', 'sub', 'mul', 'div', 'radd', 'dot', 'norm', 'eq'))}

    @staticmethod
    def run(W, cl, a, attempt):
        o1 = get(W, cl, a['ref'], ('cpoint', 'fpoint'))
        o2 = get(W, cl, a['ref2'], ('cpoint', 'fpoint'))
        if o1 is None or o2 is None:
            return None
        d = [np.array(o.m if o.kind == 'fpoint' else o.m[0].m.data[o.m[1]], dtype=np.float64) for o in (o1, o2)]
        if d[0].shape != d[1].shape or not np.all(np.isfinite(d)):
            return None
        x, y, how = o1.obj, o2.obj, a['how']
        table = {'add': (lambda: x + y, lambda: d[0] + d[1]), 'sub': (lambda: x - y, lambda: d[0] - d[1]),
                 'mul': (lambda: x * 3, lambda: d[0] * 3), 'div': (lambda: x / 2, lambda: d[0] / 2),
                 'radd': (lambda: 1 + x, lambda: 1 + d[0]), 'dot': (lambda: x @ y, lambda: np.dot(d[0], d[1])),
                 'norm': (lambda: x.norm(), lambda: np.sqrt(np.dot(d[0], d[0]))),
                 'eq': (lambda: x == y, lambda: bool(np.all(model.isclose(d[0], d[1]))))}
        call, ref = table[how]
        return Prep(call, ('C10',), ref=ref, what='point %s' % how,
                    cmp=lambda v, e: None if close(getattr(v, 'data', v) if isinstance(v, Point) else v, e)
                    else '%r instead of %r' % (v, e))


@op('gc', est=0, nofault=True)
class _:
    @staticmethod
    def gen(G):
        return {}

    @staticmethod
    def run(W, cl, a, attempt):
        W.count('fault.gc')
        return Prep(lambda: ids.collect(True), ())


@op('dirty', est=0, nofault=True)
class _:
    """Leaves garbage in freed memory"""
    @staticmethod
    def gen(G):
        return {'v': G.r.randrange(1000)}

    @staticmethod
    def run(W, cl, a, attempt):
        W.count('fault.dirty heap')
        return Prep(lambda: dirty_heap(a['v']), ())


def dirty_heap(v):
    val = [1e300, -7.5, float('nan'), 12345.678, float('inf')][v % 5]
    keep = []
    for n in list(range(1, 40)) + [64, 96, 128, 200]:
        for _ in range(3):
            keep.append(np.full(n, val))
            keep.append(np.full((n, 2), val))
    del keep


# ==================================================================================== methods supplied by the user

def registry_names(W, kind):
    names = registry(kind)[1]()
    out = [n for n in names if n.startswith(W.prefix + 'R')]
    if isinstance(names, list):
        # the list belongs to the caller
        names.reverse()
        del names[::2]
        names.append(W.prefix + 'R junk')
    return out


def registry_get(kind, name):
    if kind == 'interp':
        return skcurve.get_interpolator(name, dummy_curve()).ID
    if kind == 'smooth':
        return skcurve.get_smooth_method(name).ID
    return skcurve.get_intersect_method(name).ID


_user_known = set()


def ensure_user_methods(W):
    """One user method of every kind per run; what it does is decided by its parameters and by the calling client"""
    if W.prefix in _user_known:
        return
    _user_known.add(W.prefix)
    from skcurve._intersect import IntersectionMethodBase

    def enter(where, params, curve, arrays=()):
        cl = kernel.current()
        um = cl.um
        um['params'] = dict(params)
        for k in list(params):       # the parameters are the method's own
            params[k] = None
        params['left'] = 'over'
        if um['where'] == where:
            callback(um['W'], cl, um['cb'], curve=curve, arrays=arrays, attempt=um['attempt'])

    class UserInterpolator(skcurve.InterpolatorBase):
        def __init__(self, curve, value=1.0, **more):
            super().__init__(curve)
            self.value = value
            enter('init', dict(more, value=value), curve)

        def _interpolate(self, grid):
            cl = kernel.current()
            if cl.um['where'] == 'call':
                callback(cl.um['W'], cl, cl.um['cb'], curve=self.curve, arrays=[], attempt=cl.um['attempt'])
            return np.stack([grid * (i + 1) + self.value for i in range(self.curve.ndim)], axis=1)

    def user_smoother(curve, **params):
        value = params.get('value', 1.0)
        enter('call', params, curve, [curve.data])
        return curve.data.astype(np.float64) * 2 + value

    class UserIntersection(IntersectionMethodBase):
        def __init__(self, value=1.0, **more):
            self.value = value
            enter('init', dict(more, value=value), None)

        def _intersect_segments(self, s1, s2):
            cl = kernel.current()
            if cl.um['where'] == 'call':
                callback(cl.um['W'], cl, cl.um['cb'], curve=None, attempt=cl.um['attempt'])
            return skcurve.IntersectionType.EXACT(Point([float(self.value)] * s1.ndim))

        def _intersect_curves(self, c1, c2):
            return [skcurve.SegmentsIntersection(c1.segments[0], c2.segments[0],
                                                 self._intersect_segments(c1.segments[0], c2.segments[0]))]
    skcurve.register_interpolator(W.prefix + 'um')(UserInterpolator)
    skcurve.register_smooth_method(W.prefix + 'um')(user_smoother)
    skcurve.register_intersect_method(W.prefix + 'um')(UserIntersection)


def setup_methods(W):
    """Registers the user methods of the plan before the clients start"""
    for num, oplist in enumerate(W.plan['clients']):
        for o in oplist:
            if o['op'] == 'usermethod':
                ensure_user_methods(W)
            elif o['op'] == 'smooth' and o['method'] == 'user':
                ensure_smoother(W, W.prefix + 'usm%d_%d' % (num, o['id']))


@curve_op('usermethod', est=200)
class _:
    @staticmethod
    def gen(G):
        r = G.r
        p = {}
        if r.random() < 0.6:
            p['value'] = float(r.randint(2, 9))
        if r.random() < 0.3:
            p['extra%d' % r.randint(0, 3)] = r.randint(0, 9)
        return {'kind': r.choice(KINDS), 'p': p, 'where': r.choice(('init', 'call', 'call')), 'cb': G.cb(),
                'n': r.randint(2, 6), 'how': r.choice(('curve', 'seg'))}

    @staticmethod
    def run(W, cl, a, attempt, x, m, co):
        if m.n < 2 or not m.finite:
            return None
        name = W.prefix + 'um'
        kind, p = a['kind'], a['p']
        cl.um = {'W': W, 'cb': a['cb'], 'where': a['where'] if kind != 'smooth' else 'call', 'attempt': attempt}
        um = cl.um
        value = p.get('value', 1.0)
        passed = dict(p)

        def received():
            exp = dict(passed) if kind == 'smooth' else dict(passed, value=value)
            if um.get('params') != exp:
                return (('C15',), 'the method received the parameters %r instead of %r' % (um.get('params'), exp))

        if kind == 'interp':
            def ref():
                t = m.param()
                if not np.all(np.isfinite(t)):
                    raise Skip
                g = np.linspace(t[0], t[-1], a['n'])
                d = np.diff(g)
                if np.any(d <= 1e-7):
                    if np.any(d > 1e-10):
                        raise Skip
                    raise Expect(ValueError)
                e = MCurve(np.stack([g * (i + 1) + value for i in range(m.d)], axis=1), g if m.t is not None else None)
                e.src = (m, g, 'user', {})
                return e
            return Prep(lambda: x.interpolate(a['n'], name, **p), ('C14',), result='curve', ref=ref,
                        cmp=lambda v, e: received() or interp_compare(W, v, e), errs=(skcurve.InterpolationError,),
                        strict=lambda k, exc, fn: 'wrap' if k == 'cb' else None, maywarn=True, maybe=('C15',),
                        what='interpolation by a user method')
        if kind == 'smooth':
            def cmp(v, e):
                return received() or (None if same_bytes(np.array(v.data), np.array(e.data)) and not v.isparametric
                                      else 'points %s instead of %s' % (v.data.tolist(), e.data.tolist()))
            return Prep(lambda: x.smooth(name, **p), ('X35',), result='curve', cmp=cmp,
                        ref=lambda: MCurve(m.data.astype(np.float64) * 2 + value), errs=(skcurve.SmoothingError,),
                        strict=strict_smooth_user, maybe=('C15',), what='smoothing by a user method')
        if a['how'] == 'seg':
            s = CurveSegment(x, 0)
            call = lambda: [s.intersect(s, method=name, **p)]  # noqa
        else:
            call = lambda: x.intersect(x, method=name, **p)  # noqa

        def cmp2(v, e):
            msg = received()
            if msg:
                return msg
            if len(v) != 1 or v[0].intersect_info.type.name != 'EXACT' or \
                    not close(v[0].intersect_info.data.data, [value] * m.d):
                return 'the result %r is not that of the method' % (v,)
        return Prep(call, ('C15',), cmp=cmp2, errs=(IE(),), what='intersection by a user method',
                    strict=lambda k, exc, fn: 'wrap' if k == 'cb' and a['where'] == 'call' else None)


@op('make', est=100)
class _:
    """Predefined curves"""
    @staticmethod
    def gen(G):
        r = G.r
        kw = {}
        if r.random() < 0.6:
            kw['p_count'] = r.randint(2, 9)
        if r.random() < 0.4:
            kw['t_start'] = r.choice((0.0, -1.0, 0.5))
        return {'name': r.choice(('arc', 'lemniscate_of_bernoulli', 'archimedean_spiral', 'euler_spiral', 'lissajous',
                                  'helix', 'irregular_helix')), 'kw': kw}

    @staticmethod
    def run(W, cl, a, attempt):
        import skcurve.curves as curves
        f = getattr(curves, a['name'], None)
        if f is None:
            return None

        def ref():
            c = f(**a['kw'])
            return MCurve(c.data, c.t if c.isparametric else None)
        return Prep(lambda: f(**a['kw']), ('C10',), result='curve', ref=ref, what='predefined curve %s' % a['name'])


# Steps of nearly all executions of an operation (measured), for the choice of the steps at which it is interrupted
EST.update({
    'append': 470, 'attrs': 72, 'concat': 335, 'coorient': 620, 'delete': 226, 'deletedim': 196, 'dist': 44,
    'drop': 855, 'fancy': 290, 'find': 190, 'get': 980, 'getdef': 5, 'getmany': 1200, 'gridobj': 740,
    'icurve': 5000, 'idef': 5400, 'insert': 455, 'insertdim': 207, 'interp': 860, 'interpobj': 585, 'iseg': 3000,
    'churn': 4000, 'iterate': 1500, 'lookup': 69, 'mask': 295, 'mk': 220, 'mkpoint': 44, 'nonsingular': 384, 'orphan': 2310,
    'pcopy': 89, 'pickle': 400, 'point': 128, 'ptarith': 83, 'reg': 110, 'repr': 93, 'reverse': 220, 'seg': 2800,
    'segalg': 720, 'setdef': 22, 'slice': 260, 'smooth': 572, 'subcurve': 302, 'unique': 232, 'usermethod': 3000,
    'values': 76})

import boot  # noqa
if boot.PLOTS:
    import plots  # noqa
