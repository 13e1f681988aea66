# -*- coding: utf-8 -*-
"""Seeded generation of plans.  A plan is plain JSON: shared objects, one list of operations per client,
environment, scheduler parameters and faults.  Everything a run does is a function of its plan."""

import math
import random


def curve_data(r, d=None, n=None, finite=False, smallint=False, simple=False):
    """Points on a small lattice, so that special positions (ties, collinearity, repetition) are common"""
    d = d or r.choice((2, 2, 2, 3, 3, 3, 4, 5))
    if n is None:
        n = r.choice((0, 1, 2, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10, 12)) if r.random() < 0.9 else r.randint(13, 60)
    kind = r.choice(('lattice', 'lattice', 'walk', 'walk', 'line', 'planar', 'smooth', 'smooth', 'dups', 'closed',
                     'zigzag', 'big'))
    if simple and kind in ('dups', 'line', 'big', 'closed'):
        kind = 'smooth'
    q = 1.0 if smallint else r.choice((1.0, 0.25, 0.5, 0.1))
    L = lambda a: r.randint(-a, a)  # noqa
    pts = []
    if kind == 'lattice':
        pts = [[L(8) for _ in range(d)] for _ in range(n)]
    elif kind in ('walk', 'dups', 'closed'):
        p = [L(5) for _ in range(d)]
        for _ in range(n):
            pts.append(list(p))
            if kind == 'dups' and r.random() < 0.4:
                continue
            p = [v + L(3) for v in p]
        if kind == 'closed' and n > 2:
            pts[-1] = list(pts[0])
    elif kind == 'line':
        p = [L(5) for _ in range(d)]
        s = [L(2) for _ in range(d)]
        for i in range(n):
            k = i if r.random() < 0.8 else r.randint(0, max(0, n))
            pts.append([a + k * b for a, b in zip(p, s)])
    elif kind == 'planar':
        z = [L(3) for _ in range(d - 2)]
        pts = [[L(6), L(6)] + z for _ in range(n)]
    elif kind == 'smooth':
        q = 1.0
        a, b = r.choice((1, 2, 3)), r.choice((1, 2))
        for i in range(n):
            th = i * (0.4 + 0.2 * b)
            row = [a * math.cos(th), a * math.sin(b * th)] + [0.3 * i * (k + 1) + math.sin(th * (k + 1))
                                                            for k in range(d - 2)]
            pts.append([round(v, r.choice((3, 6))) for v in row])
        if smallint:
            pts = [[round(v * 4) for v in p] for p in pts]
    elif kind == 'zigzag':
        for i in range(n):
            pts.append([i * 2] + [r.choice((-2, 2)) if (i + k) % 2 else L(2) for k in range(d - 1)])
    elif kind == 'big':
        pts = [[L(30) * 1000 for _ in range(d)] for _ in range(n)]
    if n and r.random() < 0.18:
        # one coordinate does not change
        k, v = r.randrange(d), r.choice((0, 0, 0, L(4)))
        for p in pts:
            p[k] = v
    pts = [[v * q + 0.0 for v in p] for p in pts]
    if n and not smallint and r.random() < 0.06:
        # zeros of both signs, which are equal
        for p in pts:
            for k in range(d):
                if p[k] == 0 and r.random() < 0.5:
                    p[k] = -0.0
        if r.random() < 0.5:
            pts.append([-v if v == 0 else v for v in pts[r.randrange(n)]])
            if r.random() < 0.6:
                pts.pop(0)
    if not finite and not smallint and n and r.random() < 0.05:
        for _ in range(r.randint(1, 2)):
            pts[r.randrange(n)][r.randrange(d)] = r.choice((float('nan'), float('inf'), float('-inf')))
    return pts


def params(r, n):
    k = r.random()
    if k < 0.35:
        step = r.choice((1.0, 0.5, 0.1, 2.0))
        t0 = r.choice((0.0, 0.0, -1.0, 3.0))
        return [t0 + step * i for i in range(n)]
    if k < 0.9:
        t, out = r.choice((0.0, 1.0, -2.5)), []
        for _ in range(n):
            out.append(t)
            t += r.choice((0.25, 0.5, 1.0, 2.0, 0.125))
        return out
    if k < 0.96:
        return [float(r.randint(-4, 4)) for _ in range(n)]
    return [-0.5 * i for i in range(n)]


FORMS = ('rows', 'rows', 'cols', 'list', 'tuple_arrays', 'fortran', 'strided', 'negative', 'readonly', 'otherdtype')


def shared_curve(r, d=None, n=None, finite=False, dtypes=None, simple=False, nmin=0, near=0.02):
    dt = r.choice(dtypes or ('f8', 'f8', 'f8', 'f8', 'f8', 'f8', 'f4', 'f4', 'i8', 'i4', 'i2', 'u1'))
    if not dtypes and r.random() < float(__import__('os').environ.get('DST_RARE') or 0.05):
        dt = r.choice(('>f8', '>f8', '>i4'))
    pts = curve_data(r, d, n, finite, smallint=dt[0] in 'iu' or dt == '>i4', simple=simple)
    while len(pts) < nmin:
        pts = curve_data(r, d, n, finite, smallint=dt[0] in 'iu' or dt == '>i4', simple=simple)
    if dt == 'u1':
        pts = [[abs(int(v)) % 200 for v in p] for p in pts]
    if dt == 'i2':
        pts = [[int(v) % 4001 - 2000 for v in p] for p in pts]
    if dt == 'f4':
        pts = [[max(-1e4, min(1e4, v)) if v == v and abs(v) != float('inf') else v for v in p] for p in pts]
    if len(pts) > 1 and dt in ('f8', 'i8') and not simple and r.random() < near:
        # points which differ by less than a coarser number type can tell
        for _ in range(r.randint(1, 3)):
            i, j, k = r.randrange(len(pts)), r.randrange(len(pts)), r.randrange(len(pts[0]))
            pts[i] = list(pts[j])
            v = pts[i][k]
            if dt == 'i8':
                v = int(v) + 2 ** 53
                pts[i][k], pts[j][k] = v + r.choice((0, 1, 1)), v
            elif v == v and abs(v) < 1e6:
                pts[i][k] = v + r.choice((1e-9, -1e-12, 3e-5, 0.0, 2.0 ** -52 * max(1.0, abs(v))))
    t = params(r, len(pts)) if r.random() < 0.5 else None
    if t is not None and len(pts) > 1 and r.random() < 0.05:
        # the parameters the curve would have anyway
        t = [0.0]
        for p, q in zip(pts, pts[1:]):
            t.append(t[-1] + math.sqrt(sum((float(a) - float(b)) ** 2 for a, b in zip(p, q))))
        if not all(v == v and abs(v) < 1e9 for v in t):
            t = [float(i) for i in range(len(pts))]
    if t is not None and simple:
        t = sorted(set(t))
        if len(t) != len(pts):
            t = [float(i) for i in range(len(pts))]
        k = r.random()
        if k < 0.04:
            t = t[::-1]
        elif k < 0.08:
            r.shuffle(t)
    s = {'kind': 'curve', 'data': pts, 'dtype': dt, 'form': r.choice(FORMS), 't': t,
         'tform': r.choice(('array', 'list', 'readonly'))}
    if s['form'] == 'list' and dt == 'f4':
        s['form'] = 'rows'
    return s


def twin(r, s):
    """A curve which is easily confused with the given one"""
    s = {k: (v if not isinstance(v, list) else [list(x) if isinstance(x, list) else x for x in v])
         for k, v in s.items()}
    n = len(s['data'])
    k = r.choice(('coord', 'coord', 'middle', 'tiny', 't', 't', 'dtype', 'swap', 'param', 'reverse', 'scale', 'same',
                  'shape', 'shape', 'natural'))
    if s['dtype'].lstrip('>')[0] in 'iu' and k in ('tiny', 'scale'):
        k = 'coord'
    if n == 0:
        k = 'param'
    if k == 'coord':
        s['data'][r.randrange(n)][r.randrange(len(s['data'][0]))] += 1
        if s['dtype'][0] == 'u':
            s['data'] = [[abs(int(v)) % 200 for v in p] for p in s['data']]
    elif k == 'middle':
        if n > 2:
            s['data'][r.randint(1, n - 2)][0] += 1 if s['dtype'].lstrip('>')[0] in 'iu' else 0.5
            if s['dtype'][0] == 'u':
                s['data'] = [[abs(int(v)) % 200 for v in p] for p in s['data']]
    elif k == 'tiny':
        s['data'][r.randrange(n)][0] += 3e-6
    elif k == 't':
        t = params(r, n)
        s['t'] = sorted(t)
        if len(set(t)) < n:
            s['t'] = [0.5 * i for i in range(n)]
    elif k == 'dtype':
        if s['dtype'] == 'f8':
            s['dtype'] = 'f4' if all(abs(v) < 1e4 for p in s['data'] for v in p) else 'f8'
            if s['form'] == 'list':
                s['form'] = 'rows'
        elif s['dtype'] in ('i8', 'i4', 'f4'):
            s['dtype'] = 'f8'
    elif k == 'swap' and n > 3:
        i = r.randint(1, n - 3)
        s['data'][i], s['data'][i + 1] = s['data'][i + 1], s['data'][i]
    elif k == 'param':
        s['t'] = None if s['t'] is not None else [float(i) for i in range(n)]
    elif k == 'natural':
        t = [0.0]
        for p, q in zip(s['data'], s['data'][1:]):
            t.append(t[-1] + math.sqrt(sum((float(a) - float(b)) ** 2 for a, b in zip(p, q))))
        if all(v == v and abs(v) < 1e9 for v in t) and (s['t'] is None or len(set(t)) == n):
            s['t'] = t
    elif k == 'shape':
        # the same coordinates one after the other, in another dimension
        flat = [v for p in s['data'] for v in p]
        d = [k for k in (2, 3, 4) if len(flat) % k == 0 and k != len(s['data'][0]) and len(flat) // k > 1]
        if d:
            d = r.choice(d)
            s['data'] = [flat[i:i + d] for i in range(0, len(flat), d)]
            if s['t'] is not None:
                s['t'] = [float(i) for i in range(len(s['data']))]
    elif k == 'reverse':
        s['data'] = s['data'][::-1]
    elif k == 'scale':
        s['data'] = [[v * 2 for v in p] for p in s['data']]
    return s


def logint(r, lo, hi):
    return int(math.exp(r.uniform(math.log(lo), math.log(hi + 1)))) if hi > lo else lo


class Gen:
    def __init__(self, seed, profile):
        self.seed = seed
        self.p = profile
        self.r = random.Random(seed)
        self.opid = 0
        self.made = []

    def plan(self):
        r, p = self.r, self.p
        import ops
        shared = []
        ncurves = r.randint(*p.get('ncurves', (2, 4)))
        cd = p.get('curve', {})
        dim = r.choice(p.get('dims', (2, 2, 3, 3, 4, 5))) if r.random() < p.get('samedim', 0.8) else None
        if dim and 'dims' not in p and r.random() < float(__import__('os').environ.get('DST_DIMS') or 0.04):
            dim = r.choice((6, 7, 8, 9, 10))
        for i in range(ncurves):
            if shared and r.random() < p.get('twin', 0.35):
                shared.append(twin(r, r.choice(shared)))
            else:
                kw = dict(cd)
                if r.random() < p.get('simple', 0.0):
                    kw['simple'] = True
                if 'n' in kw:
                    kw['n'] = r.randint(*kw['n']) if r.random() > 0.06 or kw.get('nmin') else r.choice((0, 1, 1, 1))
                if i == 0 and r.random() < float(__import__('os').environ.get('DST_LARGE') or p.get('large', 0.03)):
                    # sizes at which something else might be done
                    kw['n'] = r.choice((20, 33, 50, 64, 65, 66, 100, 101, 127, 128, 129, 130, 150, 180, 200, 255, 256, 257, 258, 300))
                    if r.random() < float(__import__('os').environ.get('DST_HUGE') or 0.06):
                        kw['n'] = r.choice((400, 500, 501, 512, 513, 600, 1000, 1001, 1024, 1025))
                shared.append(shared_curve(r, d=kw.pop('d', None) or dim, **kw))
        nc = len(shared)
        for _ in range(r.randint(*p.get('npoints', (1, 2)))):
            shared.append({'kind': 'cpoint', 'curve': r.randrange(nc), 'i': r.randrange(1000)})
        for _ in range(r.randint(*p.get('nsegs', (0, 2)))):
            shared.append({'kind': 'seg', 'curve': r.randrange(nc), 'i': r.randrange(1000)})
        if r.random() < 0.5:
            d = len(shared[0]['data'][0]) if shared[0]['data'] else 2
            shared.append({'kind': 'fpoint', 'data': [r.randint(-6, 6) * 0.5 for _ in range(d)],
                           'dtype': r.choice(('f8', 'f8', 'f4', 'i8')) if False else 'f8'})
        if r.random() < 0.4:
            d = len(shared[0]['data'][0]) if shared[0]['data'] else 2
            shared.append({'kind': 'fseg', 'p1': [float(r.randint(-6, 6)) for _ in range(d)],
                           'p2': [float(r.randint(-6, 6)) for _ in range(d)]})
        self.shared = shared
        for kind, rng in p.get('special', {}).items():
            for _ in range(r.randint(*rng)):
                s = ops.SPECIAL_GEN[kind](self)
                if s is not None:
                    shared.append(s)

        nclients = r.choice(p.get('clients', (1, 2, 2, 3, 3, 4)))
        names = list(p['ops'])
        weights = [p['ops'][k] for k in names]
        if r.random() < p.get('focus', 0.3):
            # concentrate on a few kinds of operations
            k = r.randint(1, 3)
            names = [r.choices(names, weights)[0] for _ in range(k)]
            weights = [1] * len(names)
        clients = []
        for c in range(nclients):
            self.opid = 0
            nops = r.randint(*p.get('nops', (2, 7)))
            oplist = []
            for _ in range(nops):
                name = r.choices(names, weights)[0]
                a = ops.GEN[name](self)
                if a is None:
                    continue
                a['op'] = name
                a['id'] = self.opid
                self.opid += 1
                oplist.append(a)
            clients.append(oplist)
        same = nclients > 1
        if nclients > 1 and r.random() < p.get('mirror', 0.25):
            # all clients do the same work: the most contended situation
            clients = [[dict(o) for o in clients[0]] for _ in clients]
        elif nclients > 1 and r.random() < p.get('parallel', 0.2):
            # all clients do the same work, each one with objects of its own of the same shapes
            clients = [clients[0]] + [self.parallel(clients[0]) for _ in clients[1:]]
        elif nclients > 1 and r.random() < p.get('vary', 0.12):
            # all clients do almost the same work: the arguments differ a little
            clients = [clients[0]] + [self.vary(clients[0]) for _ in clients[1:]]
        else:
            same = False
        self.faults(clients)
        k = r.random()
        if k < 0.15:
            prob = 1.0 / r.randint(1, 3)
        else:
            prob = math.exp(r.uniform(math.log(1 / 1500.0), math.log(1 / 3.0)))
        env = {'warn': r.choice(p.get('warn', ('ignore', 'ignore', 'record')))}
        if p.get('monitor'):
            env['monitor'] = 1
        if r.random() < p.get('gcenv', 0.0):
            env['gc'] = 1
        if r.random() < p.get('errraise', 0.0):
            env['err'] = 'raise'
        if r.random() < p.get('printopts', 0.0):
            env['printopts'] = r.choice(({'precision': 3}, {'linewidth': 40}, {'threshold': 5}, {'suppress': True},
                                         {'precision': 12, 'sign': ' '}, {'edgeitems': 1, 'threshold': 3}))
        if r.random() < p.get('dirty', 0.3):
            env['dirty'] = r.randrange(1000)
        plan = {'seed': self.seed, 'profile': p['name'], 'env': env, 'shared': shared, 'clients': clients,
                'sched': {'mode': 'random', 'seed': r.randrange(1 << 48), 'p': prob}}
        if r.random() < (0.5 if same else 0.3):
            # switches right before and after instructions which store something
            plan['sched']['ps'] = r.choice((0.02, 0.1, 0.3, 0.7))
        if r.random() < max(p.get('pg', 0.2), 0.35 if same else 0):
            # switches right before a variable which others may change is read
            plan['sched']['pg'] = r.choice((0.05, 0.15, 0.3, 0.6))
        if nclients > 1 and r.random() < (0.4 if same else 0.1):
            # another client is let run up to the place where the running one is stopped
            plan['sched']['meet'] = r.choice((0.3, 0.7, 1.0))
        if p.get('crash') and r.random() < p['crash']:
            plan['crash'] = {'client': r.randrange(nclients), 'at': r.randint(0, 6), 'proto': r.choice((2, 3, 4, 4, 5))}
        return plan

    def vary(self, oplist):
        import ops

        def leaves(x, path=()):
            if isinstance(x, dict):
                return {q for k, v in x.items() for q in leaves(v, path + (k,))}
            if isinstance(x, (list, tuple)):
                return {q for k, v in enumerate(x) for q in leaves(v, path + (k,))}
            return {path + (repr(x),)}
        out = []
        for o in oplist:
            mine = leaves({k: v for k, v in o.items() if k not in ('op', 'id')})
            best = None
            for _ in range(20):
                a = ops.GEN[o['op']](self)
                if a is None:
                    continue
                for k in a:
                    if k == 'ref' or k.startswith('ref'):
                        a[k] = o.get(k, a[k])
                d = len(leaves(a) ^ mine)
                if d and (best is None or d < best[0]):
                    best = d, a
            a = best[1] if best else dict(o)
            a['op'], a['id'] = o['op'], o['id']
            out.append(a)
        return out

    def parallel(self, oplist):
        r = self.r
        to = {}
        how = r.choice(('reverse', 'rotate', 'both', 'other'))

        def sibling(i):
            if i in to or not 0 <= i < len(self.shared):
                return to.get(i, i)
            s = self.shared[i]
            if s['kind'] == 'curve':
                new = {k: ([list(v) if isinstance(v, list) else v for v in x] if isinstance(x, list) else x)
                       for k, x in s.items()}
                if how in ('reverse', 'both'):
                    new['data'] = new['data'][::-1]
                if how in ('rotate', 'both'):
                    new['data'] = [v[1:] + v[:1] for v in new['data']]
                if how == 'other':
                    for v in new['data']:
                        k = r.randrange(len(v))
                        v[k] = (v[k] + r.randint(1, 3)) % 200 if s['dtype'] == 'u1' else v[k] + r.randint(1, 3)
            elif s['kind'] in ('cpoint', 'seg'):
                new = dict(s, curve=sibling(s['curve']))
            elif s['kind'] == 'fpoint':
                new = dict(s, data=[v + r.choice((-0.5, 0.5, 1.0)) for v in s['data']])
            elif s['kind'] == 'fseg':
                new = dict(s, p1=s['p2'], p2=s['p1'])
            else:
                return i
            self.shared.append(new)
            to[i] = len(self.shared) - 1
            return to[i]

        def walk(v):
            if isinstance(v, dict):
                if 's' in v and set(v) <= {'s', 'r'}:
                    return dict(v, s=sibling(v['s']))
                return {k: walk(x) for k, x in v.items()}
            if isinstance(v, list):
                return [walk(x) for x in v]
            return v
        return [{k: walk(v) for k, v in o.items()} for o in oplist]

    def faults(self, clients):
        r, p = self.r, self.p
        rate = p.get('fault', 0.0)
        if rate <= 0:
            return
        import ops
        if r.random() < p.get('nofault', 0.15):
            return
        for oplist in clients:
            for o in oplist:
                if o['op'] in ops.NOFAULT or r.random() >= rate:
                    continue
                kinds = ['async', 'async', 'async']
                bk = ops.BACKEND.get(o['op'])
                if bk:
                    kinds += ['backend'] * 3
                if 'cb' in o:
                    kinds += ['cb'] * 4
                kind = r.choice(p.get('faultkinds') and [k for k in kinds if k in p['faultkinds']] or kinds)
                if kind == 'async':
                    n = logint(r, 1, 4000) if r.random() < 0.5 else r.randint(1, ops.EST.get(o['op'], 300))
                    o['fault'] = {'kind': 'async', 'n': n,
                                  'exc': r.choice(('KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError',
                                                   'MemoryError', 'SystemExit', 'InjectedError'))}
                    if r.random() < (0.75 if o['op'] in ('reg', 'setdef') else 0.45):
                        # right after the n-th instruction of the operation which stores something
                        o['fault'].update(at='store', n=logint(r, 1, r.choice((4, 12, 60))))
                elif kind == 'backend':
                    fn = r.choice(bk)
                    bias = [f for f in p.get('faultfns', ()) if f in bk]
                    if bias and r.random() < 0.6:
                        fn = r.choice(bias)
                    excs = ['MemoryError', 'ValueError', 'RuntimeError', 'TypeError', 'KeyboardInterrupt',
                            'InjectedError', 'FloatingPointError', 'SystemExit', 'GeneratorExit', 'OSError',
                            'InjectedValueError', 'InjectedTypeError', 'InjectedBase', 'NameError',
                            'NotImplementedError', 'InjectedLookup']
                    if fn.startswith('linalg'):
                        excs += ['LinAlgError'] * (20 if p.get('singular') and fn == 'linalg.solve' else 6)
                        excs += ['FloatingPointError', 'ZeroDivisionError', 'OverflowError', 'ArithmeticError']
                    o['fault'] = {'kind': 'backend', 'fn': fn, 'k': r.choice((1, 1, 1, 2, 2, 3, 4, 6)),
                                  'exc': r.choice(excs)}
                else:
                    o['cb']['exc'] = r.choice(('ValueError', 'TypeError', 'RuntimeError', 'MemoryError', 'IndexError',
                                               'KeyError', 'InjectedError', 'KeyboardInterrupt', 'SystemExit',
                                               'GeneratorExit', 'ZeroDivisionError', 'OSError', 'AttributeError',
                                               'InjectedValueError', 'InjectedTypeError', 'InjectedBase', 'InjectedLookup',
                                               'NameError', 'NotImplementedError', 'AssertionError', 'InterpolationError',
                                               'SmoothingError', 'IntersectionError'))

    # -------------------------------------------------------------------------------------------------- ingredients
    def ref(self, kinds, p_result=0.45):
        """Reference to an object: result of an earlier operation of the client, else a shared object"""
        if isinstance(kinds, str):
            kinds = (kinds,)
        idx = [i for i, s in enumerate(self.shared) if s['kind'] in kinds]
        a = {'s': self.r.choice(idx) if idx else -1}
        if self.opid and self.r.random() < p_result:
            a['r'] = self.r.randrange(self.opid)
        return a

    def cb(self):
        r = self.r
        c = {'y': r.choice((0, 1, 1, 2, 3))}
        k = r.random()
        if k < 0.25:
            c['do'] = 'reenter'
            c['q'] = r.choice(('curvature', 'torsion', 'cumarclen', 't', 'frenet2', 'chordlen', 'segments', 'repr',
                               'firstderiv', 'nonsingular', 'interpolate', 'intersect'))
        elif k < 0.45:
            c['do'] = 'scribble'
        return c
