"""C38: plots of planes show the quantity asked for where it was computed"""
import sys
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.collections import QuadMesh, PathCollection, LineCollection
from rec import call, num, nums, digest
from props.c31 import modules
LEVEL = 'model_checking'
RULE = 'planes of every shape drawn by the three plane plots with cells, zones and lines; the cells, corners and limits of the drawing compared by the specification with the plane; colour scales colour by colour'


def even(rng, n):
    d = [1., .5, .25, 2., 40.][rng.integers(5)]
    return rng.integers(-6, 3) * d + d * np.arange(n) + rng.choice([0., .125])


def drawing(rng, im, ax, before, fig0, fill):
    """what has been drawn"""
    r = dict(kind='none', cx='', cy='', val='', clim='', levels='', zones=[], lines=[], xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel())
    new = [q for q in ax.collections if id(q) not in before]
    verts = lambda q: dict(x=nums(np.concatenate([p.vertices[:, 0] for p in q.get_paths()] or [np.zeros(0)])), y=nums(np.concatenate([p.vertices[:, 1] for p in q.get_paths()] or [np.zeros(0)])))
    def clean(segs):      # closing vertices repeat the first
        P = np.vstack([np.asarray(s).reshape(-1, 2) for s in segs] or [np.zeros((0, 2))])
        return dict(x=nums(P[:, 0]), y=nums(P[:, 1]))
    drawn = []
    if im is not None:
        if isinstance(im, QuadMesh):
            C = np.asarray(im.get_coordinates())
            cen = (C[:-1, :-1] + C[1:, :-1] + C[:-1, 1:] + C[1:, 1:]) / 4
            v = np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan)
            r.update(kind='mesh', cx=nums(cen[..., 0]), cy=nums(cen[..., 1]), val=nums(v), clim=nums(im.get_clim()))
            drawn = [im]
            if not any(q is im for q in ax.collections): r['kind'] = 'not drawn'
        else:
            r.update(kind='zones', levels=nums(im.levels), clim=nums(im.get_clim()), zones=[clean(s) for s in im.allsegs])
            drawn = list(im.collections)
    rest = [q for q in new if not any(q is d for d in drawn)]
    r['lines'] = [clean([p.vertices for p in q.get_paths()]) for q in rest]
    return r


def planes(rec, A, B):
    rng = rec.rng
    c = rec.chunk('plots')
    for k in range(5):
        f = ['plotPlane', 'plotPlane', 'plotPlaneVert', 'coupling'][rng.integers(4)]
        nx, ny = int(rng.integers(2, 7)), int(rng.integers(2, 7))
        x, y = even(rng, nx), even(rng, ny)
        F = [rng.normal(size=(nx, ny)) * rng.choice([.1, 1., 5.]) + rng.choice([0., 1., 8.]) for _ in range(4)]
        hor = bool(rng.random() < .5)
        comp = ['Axial', 'Axial', 'Total', 'Vorticity'][rng.integers(4 if f == 'plotPlane' else 3)]
        other = 0
        u, v, o = F[0], F[1], F[2]
        fill = ['mesh', 'zones', 'none'][rng.integers(3)] if f != 'coupling' else 'mesh'
        with_nan = fill == 'mesh' and rng.random() < .3
        lines = levels = []
        S = u if comp == 'Axial' else o if comp == 'Vorticity' else np.hypot(u, v)
        lo, hi = S.min(), S.max()
        if fill == 'zones':
            levels = np.sort(rng.uniform(lo - .3 * (hi - lo), hi + .3 * (hi - lo), int(rng.integers(2, 5))))
        if not with_nan and rng.random() < .6:
            lines = np.sort(rng.uniform(lo, hi, int(rng.integers(1, 4))))
        if with_nan:
            w = (rng.integers(nx), rng.integers(ny))
            for q in (u, v, o): q[w] = np.nan
        lim = ''
        kw = {}
        if rng.random() < .5:
            kw.update(minSpeed=float(rng.choice([0., lo])), maxSpeed=float(hi + 1)); lim = nums([kw['minSpeed'], kw['maxSpeed']])
        if fill == 'zones': kw['levelsContour'] = [list, np.array][rng.integers(2)](levels)
        if fill == 'none': kw['levelsContour'] = []
        if len(lines): kw['levelsLines'] = [list, np.array][rng.integers(2)](lines)
        asked = [q for q in kw.values() if isinstance(q, (list, np.ndarray))]
        given = f == 'coupling' or rng.random() < .5
        fig0, ax0 = plt.subplots() if given else (None, None)
        if given and rng.random() < .3: ax0.scatter([0.], [0.])      # something drawn before
        before = {id(q) for q in ax0.collections} if given else set()
        nfig = len(plt.get_fignums())
        G = np.meshgrid(y, x)       # rows: x (downwind), columns: y
        if f == 'plotPlane':
            data = type('Plane', (), {})()
            data.Z, data.U, data.V, data.W, data.O = G[1], (v if hor else F[3]), (F[3] if hor else v), u, o
            data.X, data.Y = (G[0], 0 * G[0]) if hor else (0 * G[0], G[0])
            if comp != 'Axial' or rng.random() < .5: kw['component'] = comp
            if not hor or rng.random() < .5: kw['Horizontal'] = hor
            held = [data.X, data.Y, data.Z, data.U, data.V, data.W, data.O] + asked
            pre = digest(held)
            out, res = call(lambda: B.plotPlane(data, ax=ax0, **kw))
        elif f == 'plotPlaneVert':
            if comp != 'Axial' or rng.random() < .5: kw['component'] = comp
            held = [G[0], G[1], v, u] + asked
            pre = digest(held)
            out, res = call(lambda: B.plotPlaneVert(G[0], G[1], v, u, ax=ax0, **kw))
        else:
            X, Y = (x, y) if rng.random() < .5 else np.meshgrid(x, y)
            if comp == 'Axial': kw['axial'] = True
            held = [X, Y, u, v] + asked
            pre = digest(held)
            out, res = call(lambda: A.plotPlane(X, Y, u.T, v.T, ax0, **kw))
            if out == 'ok': res = (res, ax0, None)
        a = dict(f=f, comp=comp, x=nums(x), y=nums(y), u=nums(u), v=nums(v), o=nums(o), fill=fill, lim=lim, levels=nums(levels), lines=nums(lines), newfig=str(int(not given)),
                 xlabel='' if f == 'coupling' else 'x/R [-]', ylabel='' if f == 'coupling' else 'y/R [-]' if f == 'plotPlane' and hor else 'z/R [-]')
        e = dict(op='Note', a=a, r={}, out=out, chk=['plot', 'pure'], pre=pre, post=digest(held), msg='' if out == 'ok' else repr(res)[:200])
        if out == 'ok':
            try:
                im, ax, fig = res
                e['r'] = drawing(rng, im, ax, before, fig0, fill)
                own = fig is not None and ax.figure is fig and len(plt.get_fignums()) == nfig + 1
                e['r']['newfig'] = '1' if own else '0' if fig is None and ax is ax0 and len(plt.get_fignums()) == nfig else 'other'
            except Exception as q:
                e.update(out='error', msg=repr(q)[:200])
        c.add(**e)
        plt.close('all')


def streams(rec, A, B):
    rng = rec.rng
    coup = bool(rng.random() < .4)      # the plot of the coupling: starting points at the first rotor
    c = rec.chunk('streamlines')
    nx, ny = int(rng.integers(4, 8)), int(rng.integers(3, 8))
    hor = bool(rng.random() < .6) or coup
    x = np.linspace(-4 - rng.uniform(.1, 2), rng.uniform(1, 4), nx)
    lo, hi = -rng.uniform(1, 7 if coup else 3), rng.uniform(1.7, 4)
    y = np.linspace(lo, hi, ny)
    u = rng.uniform(.6, 1.3, (nx, ny)) * rng.choice([1., 1., -1., 8.])
    v = rng.uniform(-.08, .08, (nx, ny)) * np.abs(u)
    if rng.random() < .5: v = v + .06 * u
    n = int(rng.integers(2, 5))
    G = np.meshgrid(y, x)
    F = [rng.normal(size=(nx, ny)) for _ in range(2)]
    data = type('Plane', (), {})()
    data.Z, data.U, data.V, data.W, data.O = G[1], (v if hor else F[0]), (F[0] if hor else v), u, F[1]
    data.X, data.Y = (G[0], 0 * G[0]) if hor else (0 * G[0], G[0])
    held = [data.X, data.Y, data.Z, data.U, data.V, data.W, data.O]
    pre = digest(held)
    if coup:
        held = [x, y, u, v]
        pre = digest(held)
        fig0, ax0 = plt.subplots()
        out, res = call(lambda: A.plotPlane(x, y, u.T, v.T, ax0, nStreamlines=n, axial=bool(rng.random() < .5)))
        if out == 'ok': res = (res, ax0)
    else:
        out, res = call(lambda: B.plotPlane(data, levelsContour=[], nStreamlines=n, Horizontal=hor))
    a = dict(start='0' if coup else '-4', x=nums(x), y=nums(y), u=nums(u), v=nums(v), nstream=n, horizontal=str(int(hor)))
    e = dict(op='Note', a=a, r={}, out=out, chk=['stream', 'pure'], pre=pre, post=digest(held), msg='' if out == 'ok' else repr(res)[:200])
    if out == 'ok':
        try:
            S = np.vstack([np.array(q.get_segments()) for q in res[1].collections if isinstance(q, LineCollection)])
            # some of the many segments, and those nearest to the column of the starting points
            d = np.abs(S[:, 0, 0] - float(a['start']))
            sel = np.unique(np.concatenate([rng.integers(0, len(S), 80), np.nonzero(d < .012 * (x[-1] - x[0]))[0]]))
            S = S[sel]
            S = S[np.hypot(*(S[:, 1] - S[:, 0]).T) > 0]
            e['r'] = dict(x0=nums(S[:, 0, 0]), y0=nums(S[:, 0, 1]), x1=nums(S[:, 1, 0]), y1=nums(S[:, 1, 1]))
        except Exception as q:
            e.update(out='error', msg=repr(q)[:200])
    c.add(**e)
    plt.close('all')


def colours(rec, P):
    rng = rec.rng
    c = rec.chunk('colours')
    def look(cm):
        idx = np.unique(np.concatenate([[0, 255], rng.integers(0, 256, 14)]))
        return dict(idx=nums(idx), rgba=[nums(cm(int(i))) for i in idx])
    for k in range(2):
        n, m = int(rng.integers(2, 6)), int(rng.integers(3, 5))
        seq = [tuple(float(q) for q in rng.uniform(0, 1, m)) for _ in range(n)]
        pos = ''
        args = (seq,)
        if rng.random() < .6:
            v = np.concatenate([[0.], np.sort(rng.uniform(.02, .98, n - 2)), [1.]])
            if np.any(np.diff(v) < 1e-3): continue
            pos = nums(v); args = (seq, v if rng.random() < .5 else list(v))
        pre = digest(args)
        out, v = call(lambda: P.make_colormap(*args))
        e = dict(op='Note', a=dict(seq=[nums(q) for q in seq], pos=pos), r={}, out=out, chk=['makemap', 'pure'], pre=pre, post=digest(args), msg='' if out == 'ok' else repr(v)[:200])
        if out == 'ok': e['r'] = look(v)
        c.add(**e)
    for k in range(2):
        lo, hi, al = float(rng.uniform(.1, .89)), float(rng.uniform(1.01, 1.6)), float(rng.choice([1., .6, .25]))
        out, v = call(lambda: P.get_cmap(lo, hi, alpha=al) if al < 1 or rng.random() < .5 else P.get_cmap(lo, hi))
        e = dict(op='Note', a=dict(lo=num(lo), hi=num(hi), alpha=num(al)), r={}, out=out, chk=['speedmap'], msg='' if out == 'ok' else repr(v)[:200])
        if out == 'ok': e['r'] = dict(look(v[0]), ticks=nums(v[1]))
        c.add(**e)
        CT = float(rng.choice([.95, .4, .64, .8]))
        out, v = call(lambda: P.get_contours(CT))
        e = dict(op='Note', a=dict(CT=num(CT)), r={}, out=out, chk=['levels'], msg='' if out == 'ok' else repr(v)[:200])
        if out == 'ok': e['r'] = dict(filled=nums(v[0]), lines=nums(v[1]))
        c.add(**e)


def build(rec):
    A, B = modules()
    import wiz.plotting_functions as P
    if not hasattr(B, 'streamQuiver'): B.streamQuiver = lambda *a, **k: None      # the arrows come from a package that is not installed
    for i in range(400 if rec.thorough else 60):
        planes(rec, A, B)
        colours(rec, P)
        if i % 3 == 0: streams(rec, A, B)


