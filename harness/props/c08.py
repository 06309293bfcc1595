"""C08: ground effect is the mirror image; nothing flows through the ground"""
import models as mc
import itertools
import numpy as np
import gen, scen, kern
from kern import K
LEVEL = 'model_checking'
RULE = 'every model x component set x number of cylinders x skew x way of asking for the ground: velocity = alone + reflected velocity at the mirrored point, no normal velocity on the ground, absolute comparison with the specification'


def trio(c, t, sh, P, tol, **o):
    """with ground, and alone at the points and their images"""
    o.pop('ground', None)
    o = dict(o, only_ind=True)
    own = bool(c.rng.random() < .5)
    if sh.ground != own:
        c.ground(t, own)
    a = c.query(t, P, chk=['outcome'], ground=False, **o) if own or c.rng.random() < .5 else c.query(t, P, chk=['outcome'], **o)
    b = c.query(t, sh.mirror(P), chk=['outcome'], ground=False, **o)
    kw = dict(o) if own and c.rng.random() < .7 else dict(o, ground=True)
    if c.ev[a - 1]['out'] != 'ok' or c.ev[b - 1]['out'] != 'ok':
        c.query(t, P, chk=['outcome'], **kw)
        return None, kw
    return c.query(t, P, chk=['outcome', 'rel'], rel=[dict(k='mirror', a=a, b=b)], tol=tol, sc=4 * scen.speed(sh), **kw), kw


def on_ground(sh, rng, n, dmin=.2):
    out = []
    for P in scen.pts(rng, sh, 40 * n):
        Q = P - P.dot(sh.vert) * sh.vert
        Q -= Q.dot(sh.vert) * sh.vert
        L = sh.to_local([Q])[0]
        if gen.clear(L, sh.R, sh.m(), sh.radii, dmin, True) and min(abs(L[2]), abs(L[2] + .6 * sh.R), abs(np.hypot(L[0], L[1]) - 1.001 * sh.R), abs(np.linalg.norm(L) - 6 * sh.R)) > 1e-5 * sh.R:
            out.append(Q)
        if len(out) == n:
            return np.array(out)
    return np.array(out)


def build(rec):
    rng = rec.rng
    big = rec.thorough
    cases = [('VC', o, n, sk) for o in scen.COMPS for n in (1, 2, 4) for sk in (0., .5, -.9)] + [(m, {}, 1, 0.) for m in ('VCFF', 'VD', 'SS')] * 6
    for rep in range(4 if big else 1):
        for (model, o, n, sk) in cases:
            c = rec.chunk('mirror')
            sh = scen.turbine(c, 0, rng, model=model, skew=sk * (1 if rng.random() < .7 else rng.uniform(.1, 1.1)), ncyl=n, ground=True, vertical=float(rng.uniform(-2, 2)) if rng.random() < .3 else 0.,
                              low=float(rng.choice([1.2, 2., 5.])), exact=True, kinds=('Ct', 'Gamma') if o.get('root') or o.get('longi') else ('Ct', 'Gamma', 'fun'))
            if rng.random() < .2:
                # a rotor whose hub is on (or below) the ground plane
                c.pos(0, sh.hub - sh.vert * sh.hub.dot(sh.vert) * float(rng.choice([1., 2.])))
            for k in range(2 if big else 1):
                P = scen.pts(rng, sh, 6)
                if model == 'VCFF' and rng.random() < .7:
                    o = dict(o, R_far_field=float(rng.uniform(1, 9)))
                tol = 1e-9
                i, kw = trio(c, 0, sh, P, tol, **o)
                if i and rng.random() < .5:     # the mask removes the image too
                    c.query(0, P, chk=['outcome', 'rel'], rel=[dict(k='mask', a=i)], tol=1e-11, sc=2 * scen.speed(sh), no_wake=True, **kw)
                if model == 'VC' and rng.random() < .5 and sk == 0 and n == 1:
                    trio(c, 0, sh, P, tol, Model=str(rng.choice(['VCFF', 'VD', 'SS'])), R_far_field=float(rng.uniform(1, 8)), **o)
                G = on_ground(sh, rng, 5)
                if len(G):
                    kw = dict(o, only_ind=True)
                    if not sh.ground: kw['ground'] = True
                    c.query(0, G, chk=['outcome', 'rel'], rel=[dict(k='noflow')], tol=1e-8, sc=2 * scen.speed(sh), **kw)
                kw = dict(o) if sh.ground else dict(o, ground=True)
                if rng.random() < .5: kw['only_ind'] = True
                c.query(0, P, chk=['outcome', 'abs'], tol=2e-6, sc=scen.speed(sh), **kw)
                # the wind itself is not mirrored
                a = c.query(0, P, chk=['outcome'], only_ind=True, **{q: w for q, w in kw.items() if q != 'only_ind'})
                kw.pop('only_ind', None)
                c.query(0, P, chk=['outcome', 'rel'], rel=[dict(k='wind', a=a)], tol=1e-11, sc=2 * scen.speed(sh), **kw)
                # moved and turned: the image follows
                if rng.random() < .5:
                    c.pos(0, sh.hub + sh.vert * sh.R * rng.uniform(.5, 2) + np.cross(sh.vert, sh.shaft0))
                    c.yaw(0, sh.yaw + .2)
                    if model == 'VC' or abs(sh.skew()) < 1e-9:
                        trio(c, 0, sh, scen.pts(rng, sh, 4), tol, **o)
    # the functions for sets of cylinders, which have their own images
    for f in ('vcs_tang_u', 'vcs_longi_u', 'svcs_tang_u', 'svcs_longi_u'):
        for i in range(30 if big else 8):
            c = rec.chunk(f)
            k = K(f, kern.rand(rng, f, kc=(int(rng.integers(1, 4)), int(rng.integers(1, 3))), ground='1'))
            P = k.points(rng, 4)
            k.emit(c, P, tol=1e-6)
            Q = []
            for p in np.vstack([k.points(rng, 40), rng.uniform(-6, 6, (40, 3)) * k.Rref()]):
                p = np.array([p[0], 0., p[2]])
                if k.singular(p) > .2:
                    Q.append(p)
            if Q:
                k.emit(c, np.array(Q[:8]), chk=['ok', 'krel'], rel=[dict(k='noflow')], tol=1e-8)
    # a row of turbines over the ground: no flow through it
    for i in range(40 if big else 12):
        c = rec.chunk('farm over the ground')
        f = gen.rand_frame(rng)
        nt = int(rng.integers(1, 5))
        for t in range(nt):
            scen.turbine(c, t, rng, R=1., frame=f, ground=True, low=1.5, kinds=('Ct', 'Gamma'))
        c.farmnew('F', list(range(nt)))
        o = dict(scen.COMPS[rng.integers(len(scen.COMPS))])
        G = []
        for P in rng.uniform(-8, 8, (200, 3)):
            Q = P - P.dot(f[1]) * f[1]
            if all(gen.clear(c.sh[t].to_local([Q])[0], 1., c.sh[t].m(), c.sh[t].radii, .25, True) for t in range(nt)):
                G.append(Q - Q.dot(f[1]) * f[1])
        G = np.array(G[:8])
        if len(G):
            c.farmquery('F', G, None, chk=['ok', 'rel'], rel=[dict(k='noflow')], tol=1e-8, sc=20. * nt, **o)


def models(rec):
    return mc.run(rec, 'geometry')
