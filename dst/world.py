# -*- coding: utf-8 -*-
"""One simulated run: shared objects, clients executing operations, recorded outcomes, deferred checks."""

import gc
import os
import random
import sys
import traceback
import warnings

import numpy as np

import kernel
import model
from model import MCurve, Expect, Skip

import skcurve
from skcurve import Curve, Point, Segment, CurvePoint, CurveSegment

DT = {'f8': np.float64, 'f4': np.float32, 'i8': np.int64, 'i4': np.int32, 'i2': np.int16, 'u1': np.uint8,
      '>f8': np.dtype('>f8'), '>i4': np.dtype('>i4')}


def nat(dt):
    """The number type without its byte order"""
    return np.dtype(dt).newbyteorder('=')


class Obj:
    """An object of the library together with what the reference says about it"""
    __slots__ = ('kind', 'obj', 'm', 'snap', 'born', 'extra', 'name')

    def __init__(self, kind, obj, m=None, born=None, extra=None, name=None):
        self.kind = kind
        self.obj = obj
        self.m = m
        self.born = born
        self.extra = extra
        self.name = name
        self.snap = None


def layout(rows, dtype, form):
    """Builds the caller's buffer for the given points: (argument for Curve, kwargs, buffer)"""
    dt = DT[dtype]
    a = np.array(rows, dtype=dt)
    if a.ndim == 1:
        a = a.reshape(len(rows), -1) if len(rows) else np.zeros((0, 2), dtype=dt)
    if form == 'list' and a.shape[0] > 0:       # [X, Y, ...] lists
        buf = [list(map(float, a[:, i])) if a.dtype.kind == 'f' else [int(v) for v in a[:, i]]
               for i in range(a.shape[1])]
        return buf, {'dtype': dt}, buf
    if form == 'tuple_arrays' and a.shape[0] > 0:  # (x, y, ...) arrays
        buf = [np.array(a[:, i]) for i in range(a.shape[1])]
        return tuple(buf), {'dtype': dt}, buf
    if form == 'cols':
        buf = np.array(a.T, order='C')
        if a.shape[0] == 0:
            return buf, {'dtype': dt}, buf
        return buf, {'axis': 1}, buf
    if form == 'fortran':
        buf = np.array(a, order='F')
        return buf, {}, buf
    if form == 'strided':
        big = np.zeros((a.shape[0] * 2, a.shape[1] + 1), dtype=dt)
        view = big[::2, 1:]
        view[...] = a
        return view, {}, big
    if form == 'negative':
        buf = np.array(a[::-1])
        return buf[::-1], {}, buf
    if form == 'readonly':
        buf = np.array(a)
        buf.flags.writeable = False
        return buf, {}, buf
    if form == 'otherdtype' and a.dtype.kind == 'f':
        buf = np.array(a, dtype=np.float64)
        return buf, {'dtype': dt}, buf
    buf = np.array(a)
    return buf, {}, buf


def scribble(buf):
    """The caller overwrites its own buffer"""
    if isinstance(buf, list):
        for i, b in enumerate(buf):
            if isinstance(b, (list, np.ndarray)):
                scribble(b)
            else:
                buf[i] = 77
        return
    if isinstance(buf, np.ndarray):
        if not buf.flags.writeable:
            buf.flags.writeable = True
        buf[...] = 77 if buf.dtype != np.bool_ else True


def freeze(buf):
    """Deep copy of a buffer to compare with later"""
    if isinstance(buf, np.ndarray):
        return ('a', buf.dtype.str, buf.shape, buf.tobytes(), buf.flags.writeable)
    if isinstance(buf, (list, tuple)):
        return (type(buf).__name__,) + tuple(freeze(b) for b in buf)
    if isinstance(buf, dict):
        return ('d',) + tuple((k, freeze(v)) for k, v in sorted(buf.items()))
    return repr(buf)


def same_bytes(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and nat(a.dtype) == nat(b.dtype) and (
        a.tobytes() == b.tobytes() or bool(np.array_equal(a, b)) or
        (a.dtype.kind == 'f' and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))))


class Settings:
    """Snapshot of the process-wide settings the library could touch"""

    @staticmethod
    def take():
        import random as pyrandom
        import locale
        st = np.random.get_state()
        return {
            'printoptions': sorted((k, repr(v)) for k, v in np.get_printoptions().items()),
            'filters': [tuple(map(repr, f)) for f in warnings.filters],
            'showwarning': (warnings.showwarning, warnings.formatwarning, warnings._showwarnmsg_impl),
            'pyrandom': pyrandom.getstate(),
            'nprandom': (st[0], st[1].tobytes(), st[2:]),
            'errcall': np.geterrcall(),
            'err': np.geterr(),
            'bufsize': np.getbufsize(),
            'switches': sys.getswitchinterval(),
            'recursion': sys.getrecursionlimit(),
            'excepthook': (sys.excepthook, getattr(__import__('threading'), 'excepthook', None)),
            'cwd': os.getcwd(),
            'environ': dict(os.environ),
            'gc': gc.isenabled(),
            'locale': locale.setlocale(locale.LC_ALL),
            'strfunc': repr(np.array([1.5, 2.0])),
        }

    @staticmethod
    def diff(a, b):
        return [k for k in a if a[k] != b[k]]


class World:
    def __init__(self, plan):
        self.plan = plan
        self.env = plan.get('env', {})
        self.violations = []
        self.checks = []          # deferred checks
        self.shared = []
        self.results = []         # per client: dict op id -> Obj
        self.objs = []            # every Obj created
        self.history = []         # registry/default operations
        self.pool = {}            # buffers of the callers which are used repeatedly
        self.seq = 0
        self.stats = {}
        self.buffers = []         # (label, buffer, frozen) of shared inputs which must not change
        self.outcomes = {}
        self.monitor = bool(self.env.get('monitor'))
        self.fired = []
        self.prefix = 'x%x_' % (plan['seed'] & 0xffffffffffff)
        self.digest = []
        self.touched = {}         # (name of obj, quantity) first seen bytes
        self.plan_has_faults = any('fault' in o or (o.get('cb') or {}).get('exc')
                                   for ops_ in plan['clients'] for o in ops_)
        self.defaults_change = any(o['op'] == 'setdef' or (o['op'] == 'reg' and o.get('default'))
                                   for ops_ in plan['clients'] for o in ops_)
        self.strictenv = self.env.get('warn') == 'error' or self.env.get('err') == 'raise'
        self.noscribble = bool(plan.get('noscribble'))
        self.shared_windows = {}
        self.paircache = {}
        self.segmodels = {}
        self.known_defaults = {}
        self.warned = []          # (client, op, category name, text)
        self._cross = None

    # ---------------------------------------------------------------------------------------------------- reporting
    def violate(self, tags, kind, detail, client=None, op=None, maybe=()):
        self.violations.append({'tags': sorted(tags), 'maybe': sorted(maybe), 'kind': kind,
                                'detail': str(detail)[:1500], 'client': client, 'op': op})

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def tick(self):
        self.seq += 1
        return self.seq

    # ------------------------------------------------------------------------------------------------------ objects
    def add(self, o):
        self.objs.append(o)
        if o.kind in ('curve', 'cpoint', 'fpoint'):
            o.snap = np.array(o.obj.data, order='K', copy=True)
        return o

    def adopt_layout(self, o):
        """The model takes the memory layout of the object, the values being equal"""
        if o.kind == 'curve' and o.snap is not None and same_bytes(o.snap, o.m.data):
            o.m.data = np.array(o.snap, order='K', copy=True)

    def cross(self):
        if self._cross is None:
            import ops
            self._cross = Curve(ops.CROSS[0]), Curve(ops.CROSS[1])
        return self._cross

    def clone(self, m):
        return Curve(np.array(m.data, order='K', copy=True), tdata=None if m.t is None else np.array(m.t),
                     dtype=m.data.dtype)

    def setup(self):
        import ops
        ops.setup_methods(self)
        for i, s in enumerate(self.plan['shared']):
            name = 's%d' % i
            kind = s['kind']
            if kind == 'curve':
                arg, kw, buf = layout(s['data'], s['dtype'], s['form'])
                t = s.get('t')
                tb = None
                if t is not None:
                    tb = np.array(t, dtype=np.float64)
                    if s.get('tform') == 'list':
                        tb = [float(v) for v in t]
                    elif s.get('tform') == 'readonly':
                        tb.flags.writeable = False
                c = Curve(arg, tdata=tb, **kw)
                rows = np.array(s['data'], dtype=DT[s['dtype']])
                rows = rows.reshape(len(s['data']), -1) if len(s['data']) else np.zeros((0, 2), dtype=rows.dtype)
                m = MCurve(rows, t)
                o = self.add(Obj('curve', c, m, born='setup', extra={'buf': buf, 'tbuf': tb}, name=name))
                self.check_new_curve(o, ('C12',), 'construction')
                self.adopt_layout(o)
            elif kind == 'cpoint':
                co = self.shared[s['curve']]
                if co.m.n == 0:
                    o = Obj('none', None, name=name)
                else:
                    k = s['i'] % co.m.n
                    o = self.add(Obj('cpoint', co.obj[k], (co, k), born='setup', name=name))
            elif kind == 'seg':
                co = self.shared[s['curve']]
                if co.m.n < 2:
                    o = Obj('none', None, name=name)
                else:
                    k = s['i'] % (co.m.n - 1)
                    o = self.add(Obj('seg', CurveSegment(co.obj, k), (co, k), born='setup', name=name))
            elif kind == 'fpoint':
                o = self.add(Obj('fpoint', Point(s['data'], dtype=DT[s.get('dtype', 'f8')]),
                                 np.array(s['data'], dtype=DT[s.get('dtype', 'f8')]), born='setup', name=name))
            elif kind == 'fseg':
                p1, p2 = np.array(s['p1'], dtype=float), np.array(s['p2'], dtype=float)
                o = self.add(Obj('fseg', Segment(Point(p1), Point(p2)), (p1, p2), born='setup', name=name))
            else:
                import ops
                o = ops.setup_special(self, s, name)
            self.shared.append(o)

    # ------------------------------------------------------------------------------------------------------- checks
    def check_new_curve(self, o, tags, what, client=None, op=None, maybe=()):
        """Deferred check: the new curve equals its model"""
        def check():
            self.compare_curve(o.obj, o.m, tags, what, client, op, snap=o.snap, maybe=maybe)
        self.checks.append(check)

    def compare_curve(self, c, m, tags, what, client=None, op=None, snap=None, maybe=()):
        data = c.data if snap is None else snap
        v = lambda msg: self.violate(tags, what, msg, client, op, maybe)  # noqa
        if type(c) is not Curve:
            return v('result is %r' % type(c))
        if not isinstance(data, np.ndarray) or data.ndim != 2:
            return v('data has %r dimensions' % getattr(data, 'ndim', None))
        if data.shape[0] != m.n:
            return v('%d points instead of %d: %s expected %s' % (data.shape[0], m.n, data.tolist(), m.data.tolist()))
        if m.n and data.shape[1] != m.d:
            return v('dimension %d instead of %d' % (data.shape[1], m.d))
        if nat(data.dtype) != nat(m.data.dtype):
            return v('dtype %s instead of %s' % (data.dtype, m.data.dtype))
        if m.n and not same_bytes(np.array(data), np.array(m.data)):
            return v('points %s instead of %s' % (data.tolist(), m.data.tolist()))
        if c.isparametric != (m.t is not None):
            return v('parametric: %s instead of %s' % (c.isparametric, m.t is not None))
        if m.t is not None and not same_bytes(np.asarray(c.t), m.t):
            return v('parameters %s instead of %s' % (np.asarray(c.t).tolist(), m.t.tolist()))
        if len(c) != m.n or c.size != m.n:
            return v('size %d instead of %d' % (c.size, m.n))
        return True

    def final(self):
        """Checks after all clients have finished"""
        for check in self.checks:
            try:
                check()
            except Skip:
                self.count('undecided')
        self.checks = []
        self.check_immutable()

    def check_immutable(self):
        for o in self.objs:
            if o.kind in ('curve', 'cpoint', 'fpoint'):
                now = o.obj.data
                if not same_bytes(np.array(now), np.array(o.snap)):
                    self.violate(('C01',), 'coordinates changed', '%s: %s was %s' % (
                        o.name, now.tolist(), o.snap.tolist()), maybe=('C03', 'C12'))
                if now.flags.writeable:
                    self.violate(('C01',), 'writable', 'coordinates of %s' % o.name, maybe=('C11',))
            if o.kind == 'curve' and o.m is not None and o.m.t is not None:
                if not same_bytes(np.asarray(o.obj.t), o.m.t):
                    self.violate(('C01',), 'parameters changed', '%s: %s was %s' % (
                        o.name, np.asarray(o.obj.t).tolist(), o.m.t.tolist()), maybe=('C03', 'C12'))
                if o.obj.t.flags.writeable:
                    self.violate(('C01',), 'writable', 'parameters of %s' % o.name, maybe=('C11',))
