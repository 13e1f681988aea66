# -*- coding: utf-8 -*-
"""Execution of one plan: environment, clients under the scheduler, checks at quiescence"""

import gc
import hashlib
import json
import pickle
import sys
import warnings

import numpy as np

import ids
import kernel
import model
import ops
import hist
from world import World, Obj, Settings, freeze, same_bytes
from model import MCurve

import skcurve
from skcurve import Curve, CurveSegment

ALL = tuple('C%02d' % i for i in range(1, 17))
MAX_STEPS = 3000000


def set_env(W):
    env = W.env
    warnings.resetwarnings()
    mode = env.get('warn', 'ignore')
    if mode == 'record':
        warnings.simplefilter('always')
    elif mode == 'error':
        warnings.simplefilter('error')
    else:
        warnings.simplefilter('ignore')
    W.orig_show = warnings.showwarning

    def show(message, category, filename, lineno, file=None, line=None):
        cl = kernel.current()
        W.warned.append((cl.num if cl else None, cl.op if cl else None, category.__name__, str(message)[:80]))
    warnings.showwarning = show
    # values which nobody has by default: restoring the defaults is a change
    W.orig_rest = warnings.formatwarning, sys.getrecursionlimit(), sys.excepthook, sys.getswitchinterval()
    warnings.formatwarning = lambda *args, **kw: W.orig_rest[0](*args, **kw)
    sys.setrecursionlimit(W.orig_rest[1] + 37)
    sys.excepthook = lambda *args: W.orig_rest[2](*args)
    sys.setswitchinterval(0.0049)
    if env.get('printopts'):
        np.set_printoptions(**env['printopts'])
    if env.get('dirty') is not None:
        ops.dirty_heap(env['dirty'])


def reset_env(W):
    warnings.showwarning = W.orig_show
    warnings.formatwarning, _, sys.excepthook, _ = W.orig_rest
    sys.setrecursionlimit(W.orig_rest[1])
    sys.setswitchinterval(W.orig_rest[3])
    warnings.resetwarnings()
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')



def reset_print():
    np.set_printoptions(edgeitems=3, infstr='inf', linewidth=75, nanstr='nan', precision=8, suppress=False,
                        threshold=1000, formatter=None, sign='-', floatmode='maxprec', legacy=False)


def _errcall(kind, flag):
    pass


def client_body(W, num, oplist, start=0):
    def body(cl):
        err = W.env.get('err')
        np.seterr(all='raise' if err == 'raise' else 'ignore' if num % 2 == 0 else 'warn')
        np.seterrcall(_errcall)
        np.setbufsize(16384)
        before = np.geterr(), np.geterrcall(), np.getbufsize()
        for idx in range(start, len(oplist)):
            o = oplist[idx]
            crash = W.plan.get('crash')
            if crash and W.blob is None and crash['client'] == num and idx >= crash['at']:
                checkpoint(W, cl, idx, crash['proto'])
            W.position[num] = idx
            ops.execute(W, cl, o)
        W.position[num] = len(oplist)
        after = np.geterr(), np.geterrcall(), np.getbufsize()
        if before != after:
            W.violate(('C09',), 'settings changed', 'floating point error handling %s became %s' % (
                before, after), num)
    return body


def run_plan(plan, restored=None, trace=True, record=False):
    """restored: blob of a checkpoint; the plan is continued from there"""
    ids.collect()
    gc.disable()
    np.random.seed(plan['seed'] % (1 << 32))
    W = World(plan)
    W.record = record
    W.blob = None
    nc = len(plan['clients'])
    W.results = [dict() for _ in range(nc)]
    W.position = [0] * nc
    set_env(W)
    first = [0] * nc
    if restored is None:
        W.setup()
    else:
        ops.setup_methods(W)
        first = restore(W, restored)
        W.plan = dict(plan, crash=None)
    W.frozen_objs = list(W.objs)
    before = Settings.take()
    kern = kernel.Kernel(plan['sched'], max_steps=plan.get('max_steps', MAX_STEPS))
    kern.trace = trace
    if W.monitor or W.env.get('gc'):
        kern.on_switch = monitor(W, kern)
    kern.run([client_body(W, i, ol, first[i]) for i, ol in enumerate(plan['clients'])])
    res = {'seed': plan['seed'], 'switches': kern.nswitch, 'steps': kern.steps, 'log': kern.log,
           'contexts': sorted(kern.contexts), 'stats': W.stats, 'violations': W.violations, 'crash': None,
           'fired': W.fired, 'blob': None}
    if kern.crash is not None:
        kind, detail = kern.crash
        if kind == 'harness':
            res['crash'] = ('harness', detail)
            return res
        where = [(c.num, c.op, c.opname) for c in kern.clients if not c.done]
        maybe = ('C03',) if W.plan_has_faults else ()
        W.violate(ALL, kind, '%s; unfinished operations %s' % (detail, where), maybe=maybe)
        res['dead'] = True
        return res
    for lock in kern.held:
        if lock._owner is not None:
            lock._owner = None
            W.violate(('C03', 'C05'), 'lock left held', 'after all clients have finished; faults: %s' % W.fired)
    after = Settings.take()
    reset_env(W)
    for k in Settings.diff(before, after):
        W.violate(('C09',), 'settings changed', '%s: %r became %r' % (k, _short(before[k]), _short(after[k])))
    registries(W)
    try:
        W.final()
        reset_print()
        reread(W)
    except Exception:
        import traceback
        res['crash'] = ('harness', traceback.format_exc())
    h = hashlib.sha1(json.dumps([kern.log, sorted(W.stats.items()), W.fired], default=str).encode())
    res['digest'] = h.hexdigest()
    res['blob'] = W.blob
    res['outcomes'] = getattr(W, 'outcomes', None) if record else None
    gc.enable()
    return res


def _short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + '...'


def monitor(W, kern):
    """Invariants checked at every context switch"""
    state = {'n': 0}

    def on_switch():
        state['n'] += 1
        if W.env.get('gc') and state['n'] % 7 == 3:
            W.count('fault.gc')
            ids.collect(True)
        for c in kern.clients:
            for b, fr in getattr(c, 'live', ()):
                if freeze(b) != fr:
                    W.violate(('C12',), 'argument modified',
                              '%s: the data passed by the caller was modified while the call was running' % c.opname,
                              c.num, c.op)
        if state['n'] % 3 == 0:
            for o in W.frozen_objs:
                if o.kind == 'curve' and o.snap is not None and o.snap.size and \
                        o.obj.data.tobytes() != o.snap.tobytes() and not same_bytes(o.obj.data, o.snap):
                    W.violate(('C01',), 'coordinates changed', 'while operations were running: %s' % o.name)
    return on_switch


def registries(W):
    """History checks, final state of registries and of the default"""
    seen = set(h['kind'] for h in W.history if h['op'] in ('reg', 'lookup', 'list'))
    for kind in sorted(seen):
        names = sorted(set(h['name'] for h in W.history if h.get('kind') == kind))
        for how in ['list'] + names:
            h = {'op': 'list' if how == 'list' else 'lookup', 'kind': kind, 'name': how, 'client': -1, 'oid': -1}
            h['start'] = W.tick()
            try:
                h['res'] = ops.registry_names(W, kind) if how == 'list' else ops.registry_get(kind, how)
            except NameError:
                h['res'] = 'NameError'
            except Exception as err:
                h['res'] = repr(err)
            h['end'] = W.tick()
            W.history.append(h)
        ok, n = hist.check_registry(W.history, kind)
        W.count('history.registry')
        W.count('history.registry.ops', n)
        if ok is False:
            failed = any(h['op'] == 'reg' and h.get('res') not in (None, 'ok') for h in W.history)
            W.violate(('C05', 'C03') if failed else ('C05',), 'registry history',
                      'no sequential order explains %s' % _history(W, kind), maybe=('C03',) if W.plan_has_faults else ())
    if any(h['op'] in ('setdef', 'getdef', 'use') for h in W.history):
        h = {'op': 'getdef', 'client': -1, 'oid': -1, 'start': W.tick()}
        h['res'] = skcurve.default_intersect_method()
        h['end'] = W.tick()
        W.history.append(h)
        ok, n = hist.check_default(W.history, 'exact')
        W.count('history.default')
        W.count('history.default.ops', n)
        if ok is False:
            W.violate(('C06',), 'default method history', 'no sequential order explains %s' % _history(W, None),
                      maybe=('C03',) if W.plan_has_faults else ())
    elif skcurve.default_intersect_method() != 'exact':
        W.violate(('C06',), 'default method changed', 'it became %r' % skcurve.default_intersect_method())
    try:
        if skcurve.default_intersect_method() not in skcurve.intersect_methods():
            W.violate(('C06', 'C03'), 'unusable default method', '%r is the default and is not registered' %
                      skcurve.default_intersect_method())
        if skcurve.default_intersect_method() != 'exact':
            skcurve.set_default_intersect_method('exact')
    except Exception:
        pass


def _history(W, kind):
    out = []
    for h in W.history:
        if 'start' not in h or (h.get('kind') != kind and kind is not None):
            continue
        if kind is None and h['op'] not in ('setdef', 'getdef', 'use'):
            continue
        out.append((h['client'], h['oid'], h['op'], h.get('name'), h.get('val'), h['res'], h['start'], h['end']))
    return out


def reread(W):
    """Everything that was read is still the same; views still belong to their curves"""
    for o, q, first in list(W.touched.values()):
        try:
            now = np.asarray(getattr(o.obj, q))
        except Exception as err:
            W.violate(('C01', 'C02'), 'changed at the end', '%s of %s raises %r' % (q, o.name, err), maybe=('C03',))
            continue
        if freeze(now) != first:
            f = np.frombuffer(first[3], dtype=np.dtype(first[1])).reshape(first[2])
            tol = 1e-10 if o.m.data.dtype != np.float32 else 1e-5
            scale = np.max(np.abs(f[np.isfinite(f)]), initial=0.0) if f.dtype.kind == 'f' else 0.0
            if not (f.shape == now.shape and model.close(f, now, rtol=tol, atol=tol * (1 + scale))):
                W.violate(('C01', 'C02'), 'changed at the end', '%s of %s was %s and is %s' % (
                    q, o.name, f.tolist(), now.tolist()), maybe=('C03', 'C12'))
    for o in W.objs:
        if o.kind not in ('cpoint', 'seg'):
            continue
        co, k = o.m
        if o.obj.curve is not co.obj or o.obj.idx != k:
            W.violate(('C08',), 'view of another position', '%s: index %r instead of %d' % (o.name, o.obj.idx, k))
            continue
        x = co.m.data.astype(np.float64)
        exp = x[k] if o.kind == 'cpoint' else x[k:k + 2]
        if not same_bytes(np.array(o.obj.data), exp):
            W.violate(('C01', 'C08'), 'view changed', '%s: %s instead of %s' % (
                o.name, o.obj.data.tolist(), exp.tolist()))


# ------------------------------------------------------------------------------------------------- crash and restart

_KEEP = ('curve', 'cpoint', 'seg', 'fpoint')


def checkpoint(W, cl, idx, proto):
    """Everything the process hands over: all points, curves and segments, pickled while others are at work"""
    W.count('fault.crash and restart')
    table, index = [], {}

    def put(o):
        if id(o) in index:
            return index[id(o)]
        if o.kind == 'curve':
            row = ['curve', o.obj, (o.m.data, o.m.t), o.name]
        elif o.kind == 'fpoint':
            row = ['fpoint', o.obj, o.m, o.name]
        else:
            k = put(o.m[0])
            row = [o.kind, o.obj, (k, o.m[1]), o.name]
        index[id(o)] = len(table)
        table.append(row)
        return index[id(o)]
    shared = [put(o) if o.kind in _KEEP else None for o in W.shared]
    results = [{k: put(o) for k, o in r.items() if o.kind in _KEEP} for r in W.results]
    pos = list(W.position)
    pos[cl.num] = idx
    objs = [row[1] for row in table]
    cl.op, cl.opname, cl.n = 'checkpoint', 'checkpoint', 0
    sys.settrace(cl.tracer)
    try:
        data = ops.dumps(objs, proto)
    finally:
        sys.settrace(None)
    meta = pickle.dumps(([[r[0], r[2], r[3]] for r in table], shared, results, pos), 4)
    W.blob = (data, meta)


def plan_seed_odd(W):
    return bool(W.plan['seed'] % 2)


def restore(W, blob):
    data, meta = blob
    table, shared, results, pos = pickle.loads(meta)
    vals = pickle.loads(data)
    objs = []
    for (kind, m, name), v in zip(table, vals):
        if kind == 'curve':
            o = Obj('curve', v, MCurve(*m), born='restored', name=name)
            o.m.data = m[0]
        elif kind == 'fpoint':
            o = Obj('fpoint', v, m, born='restored', name=name)
        else:
            o = Obj(kind, v, (objs[m[0]], m[1]), born='restored', name=name)
        objs.append(o)
    msg = None
    originals = []
    try:
        for o in objs:
            if o.kind == 'curve':
                originals.append(Obj('curve', W.clone(o.m), o.m, name=o.name))
            elif o.kind == 'fpoint':
                originals.append(o)
            else:
                originals.append(Obj(o.kind, None, (originals[objs.index(o.m[0])], o.m[1])))
        msg = ops.compare_restored(W, originals, vals, deep=plan_seed_odd(W))
    except Exception as err:
        msg = 'unusable: %r' % err
    if msg:
        W.violate(('C11',), 'restored in another process', msg)
    for o in objs:
        W.add(o)
    W.shared = [objs[k] if k is not None else Obj('none', None) for k in shared]
    W.results = [{k: objs[i] for k, i in r.items()} for r in results]
    return pos


# ------------------------------------------------------------------------- the same programs among other programs (C10)

def run_group(group):
    """Programs of one client each, one after the other and interleaved, in one long-lived process.
    Returns their outcomes in the order of the plans"""
    out = [None] * len(group['plans'])
    stats = {}
    for k, part in enumerate(group['parts']):
        plans = [group['plans'][i] for i in part['idx']]
        if part.get('noise'):
            # other work, with failures; its results do not matter here
            r = run_plan(part['noise'])
            if r['crash']:
                raise RuntimeError(r['crash'][1])
            if r.get('dead'):
                for rest in group['parts'][k:]:
                    for i in rest['idx']:
                        out[i] = 'aborted'
                return out, stats
            stats['fault.failed work before'] = stats.get('fault.failed work before', 0) + len(r['fired'])
        if not plans:
            continue
        if part.get('dirty') is not None:
            ops.dirty_heap(part['dirty'])
            stats['fault.dirty heap'] = stats.get('fault.dirty heap', 0) + 1
        if part.get('gc'):
            stats['fault.gc'] = stats.get('fault.gc', 0) + 1
            ids.collect(True)
        if len(plans) == 1:
            r = run_plan(plans[0], record=True)
            outs, st = [r.get('outcomes')], r['stats']
            if r['crash']:
                raise RuntimeError(r['crash'][1])
        else:
            outs, st = run_interleaved(plans, part['sched'])
        for i, o in zip(part['idx'], outs):
            out[i] = o
        for k, v in st.items():
            stats[k] = stats.get(k, 0) + v
    return out, stats


def run_interleaved(plans, sched):
    ids.collect()
    gc.disable()
    np.random.seed(plans[0]['seed'] % (1 << 32))
    worlds = []
    for i, plan in enumerate(plans):
        W = World(dict(plan, env={'warn': 'ignore'}, clients=[[] for _ in range(i)] + plan['clients']))
        W.record = True
        W.blob = None
        W.results = [dict() for _ in plans]
        W.position = [0] * len(plans)
        worlds.append(W)
        set_env(W)
        W.setup()
        W.frozen_objs = []
    kern = kernel.Kernel(sched, max_steps=MAX_STEPS)
    kern.run([client_body(W, i, W.plan['clients'][i]) for i, W in enumerate(worlds)])
    stats = {}
    reset_env(worlds[0])
    outs = []
    for i, W in enumerate(worlds):
        if kern.crash is not None:
            if kern.crash[0] == 'harness':
                raise RuntimeError(kern.crash[1])
            outs.append({('crash',): kern.crash})
            continue
        outs.append({(0, oid): v for (_, oid), v in W.outcomes.items()})
        for k, v in W.stats.items():
            stats[k] = stats.get(k, 0) + v
    stats['interleaved programs'] = stats.get('interleaved programs', 0) + len(plans)
    stats['interleaved switches'] = kern.nswitch
    gc.enable()
    return outs, stats
