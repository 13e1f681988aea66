# -*- coding: utf-8 -*-
"""Operations which plot curves (C16).

Every simulated client works on axes of its own.  What a call has to draw is written down from the curve's
coordinates and the arguments of the call, and compared with the artists that appeared on its axes; what all other
calls have drawn before, on any axes, must stay as it was.
"""

import numpy as np

from ops import op, get, Prep, Expect

PARAMS = ('curvature', 'speed', 't', 'cumarclen', 'torsion')
CMAPS = ('plasma', 'viridis', 'jet', 'gray')
BACKEND = ['mpl.Axes.plot', 'mpl.Axes3D.plot', 'mpl.Axes.quiver', 'mpl.Axes.scatter', 'mpl.Axes3D.scatter',
           'mpl.Axes.add_collection', 'mpl.Axes3D.add_collection3d', 'mpl.figure', 'mpl.Figure.add_subplot',
           'mpl.Figure.colorbar', 'mpl.LineCollection', 'mpl.Line3DCollection', 'mpl.Normalize',
           'mpl.ScalarMappable', 'np.gradient', 'linalg.norm']


class Ax:
    """Axes with what was drawn on them so far"""

    def __init__(self, ax, dim, key):
        self.ax = ax
        self.dim = dim
        self.key = key
        self.seen = self.look()
        self.lo = self.hi = None

    def look(self):
        return [describe(a) for a in artists(self.ax)]


def artists(ax):
    return list(ax.lines) + list(ax.collections) + list(ax.patches) + list(ax.texts) + list(ax.images)


def frozen(a):
    a = np.ma.filled(np.ma.asarray(a, dtype=float), np.nan)
    return a.shape, a.tobytes()


def describe(a):
    """What an artist shows"""
    from matplotlib.collections import PathCollection
    out = [type(a).__name__]
    if hasattr(a, 'get_data_3d'):
        out.append([frozen(v) for v in a.get_data_3d()])
    elif hasattr(a, 'get_xdata'):
        out.append([frozen(a.get_xdata(orig=True)), frozen(a.get_ydata(orig=True))])
    if hasattr(a, 'get_color') and hasattr(a, 'get_marker'):
        out.append((repr(a.get_color()), repr(a.get_marker()), a.get_linestyle(), a.get_linewidth(), a.get_label()))
    if hasattr(a, '_segments3d'):
        out.append([frozen(s) for s in a._segments3d])
    elif hasattr(a, 'get_segments') and not hasattr(a, '_offsets3d'):
        out.append([frozen(s) for s in a.get_segments()])
    if hasattr(a, '_offsets3d'):
        out.append([frozen(v) for v in a._offsets3d])
    elif isinstance(a, PathCollection):
        out.append(frozen(a.get_offsets()))
    if type(a).__name__ == 'Quiver':
        out.append([frozen(v) for v in (a.X, a.Y, a.U, a.V)])
    if hasattr(a, 'get_array') and a.get_array() is not None:
        out.append(frozen(a.get_array()))
        out.append(a.get_cmap().name)
    return out


def settings():
    import matplotlib
    import matplotlib.pyplot as plt
    out = {k: repr(v) for k, v in dict.items(matplotlib.rcParams)}
    for name in sorted(CMAPS):
        # a colour map is shared by all who ask for it
        cm = plt.get_cmap(name)
        out['colour map ' + name] = repr([tuple(cm.get_bad()), tuple(cm.get_under()), tuple(cm.get_over()),
                                          cm.N, tuple(cm(0.5)), cm.name, cm.colorbar_extend])
    return out


def state(W):
    if not hasattr(W, 'axes'):
        import matplotlib.pyplot as plt
        plt.close('all')
        W.axes = {}               # (client, key) -> Ax
        W.plots = {}              # (client, op) -> (plot, Ax)
        W.rc = settings()
        W.plotted = set()
        W.checks.append(lambda: final(W))
    return W


def final(W):
    import matplotlib.pyplot as plt
    for rec in W.axes.values():
        if rec.look() != rec.seen:
            W.violate(('C16',), 'drawing changed', 'what was drawn on %s is not what is there now' % (rec.key,))
    now = settings()
    bad = sorted(k for k in now if now[k] != W.rc.get(k))
    if bad:
        W.violate(('C16', 'C09'), 'plot settings changed', '%s' % bad)
    plt.close('all')


def own_axes(W, cl, dim, n):
    """Axes which belong to the caller, on a figure outside of pyplot or inside"""
    key = (cl.num, 'own', dim, n)
    rec = W.axes.get(key)
    if rec is None:
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        fig = Figure() if n % 2 else plt.figure()
        ax = fig.add_subplot(1, 1, 1, projection='3d') if dim == 3 else fig.add_subplot(1, 1, 1)
        rec = W.axes[key] = Ax(ax, dim, key)
    return rec


def near(a, b):
    a = np.ma.filled(np.ma.asarray(a, dtype=float), np.nan)
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-9 * (1 + np.abs(b)))))


@op('plot', est=400, backend=BACKEND)
class _:
    @staticmethod
    def gen(G):
        r = G.r
        a = {'ref': G.ref('curve'), 'on': r.choice(('new', 'chain', 'chain', 'chain', 'axes', 'own', 'own', 'own')),
             'n': r.randrange(3), 'cmap': r.choice((None, None) + CMAPS), 'style': {}}
        if G.opid:
            a['p'] = r.randrange(G.opid)
        k = r.random()
        if k < 0.5:
            a['param'] = r.choice(PARAMS)
        elif k < 0.55:
            a['param'] = 'no such parameter'
        st = a['style']
        if r.random() < 0.4:
            st['linewidth'] = r.choice((0.5, 2, 3.25))
        if r.random() < 0.4:
            st['marker'] = r.choice(('.', 'o', 's'))
        if r.random() < 0.2:
            st['alpha'] = 0.5
        if r.random() < 0.2:
            st['label'] = 'a label'
        if 'param' not in a:
            if r.random() < 0.3:
                a['fmt'] = r.choice(('r--', 'g-', 'b:'))
            elif r.random() < 0.3:
                st['color'] = r.choice(('r', 'k'))
        if r.random() < 0.3:
            a['normals'] = True
        if r.random() < 0.1:
            a['otherdim'] = True
        return a

    @staticmethod
    def run(W, cl, a, attempt):
        import matplotlib.pyplot as plt
        from matplotlib.colors import to_rgba
        import skcurve.plot as P
        state(W)
        co = get(W, cl, a['ref'], 'curve')
        if co is None or co.m is None or co.m.n < 2:
            return None
        m, c = co.m, co.obj
        x = m.data.astype(np.float64)
        if not np.all(np.isfinite(x)) or np.abs(x).max() > 1e6:
            return None
        param, normals, on = a.get('param'), a.get('normals', False), a['on']
        if m.d == 3 and normals and a['n'] == 0:
            normals = False
        want = vals = frenet = None
        if m.d in (2, 3):
            twin = W.clone(m)
            try:
                if param in PARAMS:
                    vals = np.array(getattr(twin, param), dtype=float)
                    if vals.shape != (m.n,) or not np.all(np.isfinite(vals)) or np.abs(vals).max() > 1e12:
                        return None
                if normals and m.d == 2:
                    frenet = np.array(twin.frenet2, dtype=float)
                    if not np.all(np.isfinite(frenet)):
                        return None
            except Exception:
                return None
        # the axes
        kw = dict(a['style'])
        plot = rec = None
        if on in ('chain', 'axes'):
            plot, rec = W.plots.get((cl.num, a.get('p')), (None, None))
            if rec is None or rec.dim != m.d and not a.get('otherdim'):
                on = 'own' if a['n'] else 'new'
                rec = plot = None
        if on == 'own':
            dim = min(max(m.d, 2), 3)
            rec = own_axes(W, cl, 5 - dim if a.get('otherdim') else dim, a['n'])
        if rec is not None and rec.dim == 3 and m.d == 2:
            return None
        if on in ('own', 'axes'):
            kw['axes'] = rec.ax
        if param is not None:
            kw['param'] = param
        if a['cmap'] is not None:
            kw['param_cmap'] = a['cmap']
        if normals:
            kw['show_normals'] = True
        args = (a['fmt'],) if 'fmt' in a else ()
        func = plot.curveplot if on == 'chain' else P.curveplot
        nums = len(plt.get_fignums())
        had = list(artists(rec.ax)) if rec is not None else []
        nax = len(rec.ax.figure.axes) if rec is not None else 0
        key = (cl.num, a['id'])
        names = set(k for k in W.axes)

        def others(msg):
            for k, r in list(W.axes.items()):
                if k[0] == cl.num and r is not rec and k in names and r.look() != r.seen:
                    W.violate(('C16',), 'drawing on other axes', '%s: %s, of %s' % (msg, r.key, cl.num), cl.num, a['id'])
                    r.seen = r.look()

        def failed(err):
            """What a failed call leaves: earlier drawings as they were, nothing on other axes"""
            others('failed plot')
            if rec is not None:
                now = artists(rec.ax)
                if [x_ for x_ in now if any(x_ is h for h in had)] != had or \
                        [describe(h) for h in had] != rec.seen:
                    W.violate(('C16', 'C03'), 'failed plot', 'it changed earlier drawings: %r' % err, cl.num, a['id'])
                rec.seen = rec.look()

        def call():
            try:
                return func(c, *args, **kw)
            except BaseException as err:
                import sys
                sys.settrace(None)
                cl.kernel.paused = True
                try:
                    failed(err)
                finally:
                    cl.kernel.paused = False
                raise

        def judge(p):
            nonlocal rec
            if p is None or not isinstance(p, P.CurvePlot):
                return 'the result is %r' % (p,)
            ax = p.axes
            if rec is not None:
                if ax is not rec.ax:
                    return 'drawn on other axes than requested'
            else:
                if any(r.ax is ax for r in W.axes.values()):
                    return 'drawn on axes that existed before'
                if ax.figure.number not in plt.get_fignums():
                    return 'drawn outside of the figures of pyplot'
                rec = W.axes[cl.num, 'new', a['id'], attempt] = Ax(ax, m.d, key)
                rec.seen = []
                if hasattr(ax, 'get_zlim') != (m.d == 3):
                    return 'axes of another dimension'
            others('plot')
            now = artists(ax)
            new = [x_ for x_ in now if not any(x_ is h for h in had)]
            old = [x_ for x_ in now if any(x_ is h for h in had)]
            if len(old) != len(had) or [describe(h) for h in had] != rec.seen:
                return 'earlier drawings on the same axes changed'
            rec.seen = rec.look()
            W.plots[cl.num, a['id']] = (p, rec)
            return compare(new, ax)

        def compare(new, ax):
            from matplotlib.lines import Line2D
            kinds = {}
            for n in new:
                k = type(n).__name__
                k = {'Line3D': 'line', 'Line2D': 'line', 'LineCollection': 'segments', 'Line3DCollection': 'segments',
                     'PathCollection': 'marks', 'Path3DCollection': 'marks', 'Quiver': 'arrows'}.get(k, k)
                kinds.setdefault(k, []).append(n)
            exp = {'line': 1} if param is None else {'segments': 1}
            if param is not None and 'marker' in a['style']:
                exp['marks'] = 1
            if normals:
                exp['arrows'] = 1
            got = {k: len(v) for k, v in kinds.items()}
            if got != exp:
                return 'drawn were %s instead of %s' % (got, exp)
            if 'line' in kinds:
                n = kinds['line'][0]
                data = n.get_data_3d() if m.d == 3 else (n.get_xdata(orig=True), n.get_ydata(orig=True))
                if len(data) != m.d or not all(near(data[i], x[:, i]) for i in range(m.d)):
                    return 'the line goes through %s instead of %s' % (
                        [np.asarray(v).tolist() for v in data], x.T.tolist())
                st = a['style']
                for k, f in (('linewidth', n.get_linewidth), ('marker', n.get_marker), ('alpha', n.get_alpha),
                             ('label', n.get_label)):
                    if k in st and f() != st[k]:
                        return 'the line has %s %r instead of %r' % (k, f(), st[k])
                    if k == 'marker' and k not in st and f() not in ('None', None, ''):
                        return 'the line has marker %r which was not requested' % f()
                    if k == 'alpha' and k not in st and f() is not None:
                        return 'the line has alpha %r which was not requested' % f()
                if 'fmt' in a and (to_rgba(n.get_color())[:3] != to_rgba(a['fmt'][0])[:3] or
                                   n.get_linestyle() != a['fmt'][1:]):
                    return 'the line has style %r %r instead of %r' % (n.get_color(), n.get_linestyle(), a['fmt'])
                if 'color' in st and to_rgba(n.get_color())[:3] != to_rgba(st['color'])[:3]:
                    return 'the line has colour %r instead of %r' % (n.get_color(), st['color'])
            if 'segments' in kinds:
                n = kinds['segments'][0]
                segs = n._segments3d if m.d == 3 else n.get_segments()
                if len(segs) != m.n - 1 or not all(near(segs[i], x[i:i + 2]) for i in range(m.n - 1)):
                    return 'the segments are %s instead of those of %s' % (
                        [np.asarray(s).tolist() for s in segs], x.tolist())
                if n.get_array() is None or not close(n.get_array(), vals):
                    return 'coloured by %s instead of %s = %s' % (
                        None if n.get_array() is None else np.asarray(n.get_array()).tolist(), param, vals.tolist())
                if n.get_cmap().name != (a['cmap'] or 'plasma'):
                    return 'colour map %s instead of %s' % (n.get_cmap().name, a['cmap'] or 'plasma')
                if 'linewidth' in a['style'] and list(n.get_linewidth())[:1] != [a['style']['linewidth']]:
                    return 'line width %s' % list(n.get_linewidth())
                span = vals.max() - vals.min()
                if span > 1e-6 * (1 + np.abs(vals).max()) and not close(
                        [n.norm.vmin, n.norm.vmax], [vals.min(), vals.max()]):
                    return 'colours span %s instead of %s' % ([n.norm.vmin, n.norm.vmax], [vals.min(), vals.max()])
                bars = [b for b in ax.figure.axes if b is not ax]
                if len(ax.figure.axes) != nax + 1 + (on == 'new') or not bars or \
                        bars[-1].get_ylabel() != param:
                    return 'colour bars %s, the last one should be of %s' % ([b.get_ylabel() for b in bars], param)
                if 'marks' in kinds:
                    q = kinds['marks'][0]
                    off = q._offsets3d if m.d == 3 else np.ma.filled(q.get_offsets(), np.nan).T
                    if not all(near(np.ma.filled(off[i], np.nan), x[:, i]) for i in range(m.d)):
                        return 'the marks are at %s instead of %s' % ([np.asarray(o).tolist() for o in off], x.T.tolist())
                    if span > 1e-6 * (1 + np.abs(vals).max()) and m.d == 2:
                        import matplotlib
                        cm = matplotlib.cm.get_cmap(a['cmap'] or 'plasma')
                        rgba = cm((vals - vals.min()) / span)
                        if not np.all(np.abs(q.get_facecolors()[:, :3] - rgba[:, :3]) < 0.03):
                            return 'the marks have the colours %s instead of %s' % (
                                q.get_facecolors().tolist(), rgba.tolist())
            elif len(ax.figure.axes) != nax + (on == 'new'):
                return 'axes were added to the figure'
            if 'arrows' in kinds:
                q = kinds['arrows'][0]
                if not (near(q.X, x[:, 0]) and near(q.Y, x[:, 1])):
                    return 'the normals are at %s, %s instead of %s' % (q.X, q.Y, x.tolist())
                if not (close(np.ma.filled(q.U, np.nan), frenet[:, 0]) and
                        close(np.ma.filled(q.V, np.nan), frenet[:, 1])):
                    return 'the normals are %s, %s instead of %s' % (q.U, q.V, frenet.tolist())
            if m.d == 2:
                for lim, v in ((ax.get_xlim(), x[:, 0]), (ax.get_ylim(), x[:, 1])):
                    eps = 1e-9 * (1 + np.abs(v).max())
                    if min(lim) > v.min() + eps or max(lim) < v.max() - eps:
                        return 'points are outside of the view: %s' % (lim,)
            return None

        def close(p_, q_):
            p_, q_ = np.asarray(p_, dtype=float), np.asarray(q_, dtype=float)
            return p_.shape == q_.shape and bool(np.all(np.abs(p_ - q_) <= 1e-9 * (1 + np.max(np.abs(q_)))))

        msg = []

        def post(p):
            msg.append(judge(p))
            W.count('plots')

        def ref():
            if m.d > 3:
                raise Expect(ValueError)
            if rec is not None and rec.dim == 2 and m.d == 3:
                raise Expect(TypeError)
            if param is not None and param not in PARAMS:
                raise Expect(AttributeError)
            if normals and m.d == 3:
                raise Expect(NotImplementedError)

        if m.d > 3 or rec is not None and rec.dim == 2 and m.d == 3:
            # refused: nothing is drawn, no figure appears
            def refused(err, inner=failed):
                if len(W.plan['clients']) == 1 and len(plt.get_fignums()) != nums:
                    W.violate(('C16',), 'refused plot', 'it left a figure behind: %r' % err, cl.num, a['id'])
                if rec is not None and rec.look() != rec.seen:
                    W.violate(('C16',), 'refused plot', 'it drew something: %r' % err, cl.num, a['id'])
                inner(err)
            failed = refused
        return Prep(call, ('C16',), ref=ref, post=post, cmp=lambda v, e: msg[0] if msg else None, maywarn=True,
                    what='plot', strict=lambda kind, exc, fn: 'same')
