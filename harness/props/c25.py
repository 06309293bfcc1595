"""C25: linearity in the strengths, geometric and dynamic similarity"""
import models as mc
import numpy as np
import kern, gen
from kern import K
from rec import num
LEVEL = 'model_checking'
RULE = 'pairs of calls related by a scaling of strengths or lengths, results compared'
POW = dict(tang=0, longi=0, line=-1, ff=0, fin=0, tangs=0, longis=0, ring=-1, rings=-1, dbl=-3, dline=-2, ss=0)


def build(rec):
    rng = rec.rng
    N = 16 if rec.thorough else 4
    for f, form in list(kern.every()) + [('rings_u', 'pol2')]:
        kind = kern.FUN[f][1]
        for i in range(N):
            c = rec.chunk(f)
            p = kern.rand(rng, f)
            if f == 'rings_u' and form == 'pol2': p = dict(p, xc=p['xc'] * 0, yc=p['yc'] * 0)      # coaxial rings
            k = K(f, p, form)
            hid = f in kern.HIDDEN
            P = k.points(rng, 12, dmin=.25 if kind != 'dline' else .3, offaxis=.01 if hid else 0, near=0 if kind in ('ff', 'dline') else .15)
            if kind == 'dline':
                P = np.array([q for q in P if abs(q[2]) < 12 * k.Lref()])
                if len(P) == 0: continue
            # on the axis too
            if not hid and kind in ('tang', 'longi', 'ring', 'ff') and f not in ('svc_longi_u', 'svc_longi_u_polar', 'fV_Trailed'):
                P = np.vstack([P, k.scale() * np.array([[0, 0, -.7]])])
            a = k.emit(c, P, chk=[])
            for s in (-1., 0., 2.5, -1e3, 1e-4, -1e-13, 1e9):
                k.times(sg=s).emit(c, P, chk=['krel'], rel=[dict(k='lin', a=a, s=num(s))], tol=1e-10, sc=k.sc() * max(abs(s), 1e-300))
            if kind == 'all' or f.startswith('fV_') and 'R' not in p and kind in ('tang', 'longi'):
                continue
            if f in ('doublet_line_u_num', 'doublet_line_polar_u_num'):
                continue
            # (half lines and doublets have no length of their own: their singular points are recognised by an absolute distance)
            for s in (.3, 40., 3.7, 3e4) + ((1e-5,) if 'R' in p else ()):
                kk = k.times(sl=s)
                kk.emit(c, P * s, chk=['krel'], rel=[dict(k='sim', a=a, s=num(s), p=POW[kind])], tol=1e-8 if kind != 'dline' else 1e-6, sc=k.sc() * s ** POW[kind])
    # small models and large rotors
    M = 60 if rec.thorough else 16
    for i in range(M):
        c = rec.chunk('turbine')
        s, v = gen.rand_frame(rng)
        ang, yaw = float(rng.uniform(-1, 1)), float(rng.uniform(-2, 2))
        hub = rng.uniform(-2, 2, 3) + 3 * v
        w = gen.horiz_wind(rng, s, v, yaw + (ang if rng.random() < .5 else 0.), 1.)
        ground = bool(rng.random() < .4)
        ncyl = int(rng.choice([1, 1, 3]))
        Ct = np.array(rng.uniform(.2, .9, 5))
        lam = float(rng.choice([6., 9., 25., np.inf]))
        skew = abs(gen.wrap(yaw - np.arctan2(np.dot(np.cross(s, w), v), np.dot(s, w)))) > 1e-6
        models = ['VC'] if (ncyl > 1 or skew) else ['VC', 'VCFF', 'SS', 'VD']
        cases = [(1., 1.), (.3, 2.), (63., 10.), (120., .5), (float(10 ** rng.uniform(-3, 3)), float(10 ** rng.uniform(-2, 3)))]
        ev = {}
        for t, (sl, su) in enumerate(cases):
            c.new(t, R=sl, shaft=s, vert=v, hub=hub * sl, wind=w * su, ground=ground, lam=lam)
            c.yaw(t, yaw)
            c.load(t, 'Ct', Ct, r=np.linspace(.1, .95, 5) * sl, ncyl=ncyl)
            if t == 0:
                P = gen.points(rng, c.sh[0], 10, dmin=.3, root=True, above=ground)
                # (sharp boundaries of the self-similar model, the cut and the mask: rounding decides the side)
                def off(q):
                    x, y, z = q
                    r = np.hypot(x, y)
                    return abs(z) < 12 and min(abs(z), abs(z + .6), abs(r - 1.001), abs(np.hypot(r, z) - 6)) > 1e-6
                side = [c.sh[0].to_local(P)] + ([c.sh[0].to_local(c.sh[0].mirror(P))] if ground else [])
                P = np.array([q for j, q in enumerate(P) if all(off(L[j]) for L in side)])
            for m in models:
                for o in (dict(), dict(longi=True, root=True), dict(only_ind=True, no_wake=True)):
                    if m != 'VC' and 'longi' in o:
                        continue
                    o = dict(o, Model=m)
                    key = (m, str(o))
                    if t == 0:
                        ev[key] = c.query(t, P, chk=['outcome'], **o)
                    else:
                        c.query(t, P * sl, chk=['outcome', 'rel'], rel=[dict(k='scale', a=ev[key], sl=num(sl), su=num(su))], tol=2e-4 if lam < 20 else 1e-7, sc=su, **o)


def models(rec):
    return mc.run(rec, 'tubes', 'lines')
