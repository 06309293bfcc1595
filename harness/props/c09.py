"""C09: the selected components and wake model are exactly what is evaluated"""
import models as mc
import itertools
import numpy as np
import gen, scen
LEVEL = 'model_checking'
RULE = 'all sets of components x models x numbers of cylinders x skew x ground, own setting and per-query option: outcome and velocity compared to the specification'
COMP = [dict(tang=a, longi=b, root=d) for a in (True, False) for b in (False, True) for d in (False, True)]


def build(rec):
    rng = rec.rng
    big = rec.thorough
    # the whole decision table, sampled over everything else
    grid = list(itertools.product(scen.MODELS + ['XX'], (1, 2, 3), (0., .7, -.4), ('Ct', 'Gamma', 'fun')))
    for rep in range(4 if big else 1):
        for (model, n, sk, kind) in grid:
            if not big and n == 3 and rng.random() < .5:
                continue
            c = rec.chunk('table')
            own = model if rng.random() < .5 else str(rng.choice(scen.MODELS))
            sh = scen.turbine(c, 0, rng, ncyl=n, kinds=(kind,), skew=0., model=own)
            if sk:
                c.wind(0, gen.horiz_wind(rng, sh.shaft0, sh.vert, sh.yaw + sk, scen.speed(sh)))
            P = scen.pts(rng, sh, 2 if sk or n > 1 else 3)
            for k, comp in enumerate(COMP):
                o = dict(comp)
                if own != model: o['Model'] = model
                if rng.random() < .3: o['ground'] = bool(rng.random() < .5)
                if rng.random() < .3: o['only_ind'] = True
                if rng.random() < .3: o['R_far_field'] = float(rng.uniform(.5, 8))
                if any(abs(np.linalg.norm(sh.to_local([q])[0]) / sh.R - o.get('R_far_field', 6)) < 1e-4 or
                       abs(np.linalg.norm(sh.to_local(sh.mirror([q]))[0]) / sh.R - o.get('R_far_field', 6)) < 1e-4 for q in P):
                    o.pop('R_far_field', None)
                c.query(0, P, chk=['outcome', 'abs'], tol=2e-6, sc=scen.speed(sh), omit=bool(rng.random() < .5), **o)
    # signs and sizes of the swirl
    for i in range(240 if big else 60):
        c = rec.chunk('swirl')
        sh = scen.turbine(c, 0, rng, load=False, model='VC' if rng.random() < .8 else 'VCFF')
        n = int(rng.choice([1, 1, 2, 4]))
        L = float(rng.choice([1.5, 3., 8., 19.]))
        r = np.linspace(.1, .95, 5) * sh.R
        v = np.pi * scen.speed(sh) * sh.R / L * rng.uniform(.02, .7) * (1 - .5 * rng.random(5) * (r / sh.R))
        c.load(0, 'Gamma', v * float(rng.choice([-1, -1, 1])), r=r, ncyl=n, lam=L)
        P = scen.pts(rng, sh, 3)
        for comp in COMP[:-1]:
            c.query(0, P, chk=['outcome', 'abs'], tol=2e-6, sc=scen.speed(sh), only_ind=bool(rng.random() < .5), **comp)
    # light loads: nothing is neglected because it is small
    for i in range(120 if big else 30):
        c = rec.chunk('light')
        sh = scen.turbine(c, 0, rng, load=False, model=['VC', 'VC', 'VCFF', 'VD', 'SS'][i % 5], skew=None)
        ct = float(10 ** rng.uniform(-8, -2))
        c.load(0, 'Ct', ct * rng.uniform(.5, 1., 4), r=np.linspace(.2, .9, 4) * sh.R, ncyl=int(rng.choice([1, 3])) if i % 5 < 2 else 1, lam=np.inf if i % 2 else float(10 ** rng.uniform(3, 5)))
        P = scen.pts(rng, sh, 3)
        for comp in COMP[:-1]:
            c.query(0, P, chk=['outcome', 'abs'], tol=2e-5, sc=scen.speed(sh) * ct, only_ind=True, **comp)
    # small skew angles: far downstream the wake is off the axis
    for i in range(80 if big else 24):
        c = rec.chunk('small skew')
        sh = scen.turbine(c, 0, rng, skew=0., model='VC', ncyl=int(rng.choice([1, 1, 2])))
        sk = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-5, -1.2))
        c.wind(0, gen.horiz_wind(rng, sh.shaft0, sh.vert, sh.yaw + sk, scen.speed(sh)))
        m = sh.m()
        z = float(rng.uniform(1.3, 2.2)) / abs(m)
        L = sh.R * np.array([[m * z, .3, z], [m * z - .5, .2, z], [0., -.3, z], [m * z + 1.5, 0., z], [2 * m * z, .1, z], [.4, -.3, .7]])
        L = [q for q in L if gen.clear(q, sh.R, m, sh.radii, .2, True)]
        P = sh.to_global(L)
        for comp in COMP[:-1]:
            c.query(0, P, chk=['outcome', 'abs'], tol=1e-4, sc=scen.speed(sh), only_ind=bool(rng.random() < .5), ground=False, **comp)
    # zero loads, loads where parts vanish, circulation given as is at stations (ncyl 0)
    for i in range(120 if big else 40):
        c = rec.chunk('special loads')
        model = scen.MODELS[i % 4]
        sh = scen.turbine(c, 0, rng, skew=0. if model != 'VC' else None, model=model, load=False)
        P = scen.pts(rng, sh, 3)
        for comp in rng.permutation(len(COMP))[:3]:
            c.query(0, P, chk=['outcome'], **COMP[comp])          # nothing loaded: an error
        kind = ['zero', 'inf', 'stations', 'const', 'one station', 'law zero'][i % 6]
        if kind == 'zero': c.load(0, 'Ct', np.zeros(4), r=np.linspace(.2, .9, 4) * sh.R, ncyl=int(rng.choice([1, 3])))
        elif kind == 'inf': c.load(0, 'Ct', rng.uniform(.2, .8), lam=np.inf)
        elif kind == 'stations': c.load(0, 'Ct', rng.uniform(.2, .8, 4), r=np.array([.2, .5, .7, .95]) * sh.R, ncyl=0, lam=30.)
        elif kind == 'const': c.load(0, 'Ct', np.full(3, .6), r=np.array([.1, .5, .9]) * sh.R, ncyl=2, lam=40.)
        elif kind == 'one station': c.load(0, 'Ct', np.array([.5]), r=np.array([.8 * sh.R]), ncyl=0, lam=30.)
        else: c.load(0, 'fun', np.array(.5), law=(0., 0.))
        if kind in ('stations', 'const', 'zero'):
            P = scen.pts(rng, sh, 3)
        for comp in COMP:
            c.query(0, P, chk=['outcome', 'abs'], tol=2e-6, sc=scen.speed(sh), **comp)
    # per-query options equal own settings, and hold for that query only
    for i in range(200 if big else 50):
        c = rec.chunk('override')
        sh = scen.turbine(c, 0, rng, model='VC', skew=0. if rng.random() < .7 else None, ncyl=1 if rng.random() < .7 else 2)
        P = scen.pts(rng, sh, 3)
        o = dict(COMP[rng.integers(len(COMP))])
        if rng.random() < .4: o['only_ind'] = True
        if rng.random() < .4: o['no_wake'] = True
        base = c.query(0, P, chk=['outcome'], **o)
        for m in rng.permutation(scen.MODELS):
            g = bool(rng.random() < .5)
            a = c.query(0, P, chk=['outcome'], Model=str(m), ground=g, **o)
            c.query(0, P, chk=['outcome', 'memo'], tol=1e-12, sc=scen.speed(sh), **o)     # unchanged afterwards
            t2 = int(rng.integers(1, 3))
            c.rebuild(0, t2)
            c.model(t2, str(m)); c.ground(t2, g)
            c.query(t2, P, chk=['outcome', 'rel'] if c.ev[a - 1]['out'] == 'ok' else ['outcome'], rel=[dict(k='override', a=a)], tol=1e-10, sc=2 * scen.speed(sh), **o)
            # and the other way around
            if rng.random() < .5:
                c.query(t2, P, chk=['outcome', 'rel'] if c.ev[base - 1]['out'] == 'ok' else ['outcome'], rel=[dict(k='override', a=base)], tol=1e-10, sc=2 * scen.speed(sh),
                        Model=sh.model, ground=sh.ground, **o)
    # components add up, also masked, mirrored and with several cylinders
    for i in range(200 if big else 50):
        c = rec.chunk('sum')
        sh = scen.turbine(c, 0, rng, model='VC', ncyl=int(rng.choice([1, 2, 4])), kinds=('Ct', 'Gamma'))
        P = scen.pts(rng, sh, 6)
        o = dict(only_ind=True)
        if rng.random() < .4: o['no_wake'] = True
        if rng.random() < .4: o['ground'] = bool(rng.random() < .5)
        ids = {}
        for k in ('tang', 'longi', 'root'):
            ids[k] = c.query(0, P, chk=['outcome'], **dict(o, tang=k == 'tang', longi=k == 'longi', root=k == 'root'))
        for comp in COMP:
            sel = [ids[k] for k in ('tang', 'longi', 'root') if comp[k]]
            if sel:
                c.query(0, P, chk=['outcome', 'rel'], rel=[dict(k='sum', a=sel)], tol=1e-11, sc=4 * scen.speed(sh), **o, **comp)
            else:
                c.query(0, P, chk=['outcome', 'rel'], rel=[dict(k='zero')], tol=1e-14, sc=scen.speed(sh), **o, **comp)
    # unknown model names are refused when something is requested from them
    for i in range(8):
        c = rec.chunk('unknown model')
        sh = scen.turbine(c, 0, rng, model='VC', skew=0. if i % 2 else .3, ncyl=1 + i % 3)
        P = scen.pts(rng, sh, 2)
        for m in ('', 'vc', 'VCD', 'Vortex'):
            if m:
                c.query(0, P, chk=['outcome'], Model=m)
                c.model(0, m)
                c.query(0, P, chk=['outcome'])
                c.query(0, P, chk=['outcome', 'abs'], tol=2e-6, sc=scen.speed(sh), Model='VC')
                c.model(0, 'VC')

    # the switch of the far-field model, just inside and outside of it
    for i in range(24 if big else 8):
        c = rec.chunk('switch')
        sh = scen.turbine(c, 0, rng, skew=0., model='VCFF' if i % 2 else 'VC', kinds=('Ct',), ncyl=1, ground=False)
        cut = int(rng.integers(2, 8)) + float(rng.uniform(.3, .95))
        rho = np.array([np.floor(cut) + .05, .5 * (np.floor(cut) + cut), cut - .02, cut + .02, np.ceil(cut) - .01 if np.ceil(cut) - cut > .04 else cut + .2, np.ceil(cut) + .3])
        el, az = rng.uniform(-1.4, .2, 6), rng.uniform(0, 6.28, 6)
        P = sh.to_global(sh.R * (rho * np.array([np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)])).T)
        c.query(0, P, chk=['outcome', 'abs'], tol=2e-6, sc=scen.speed(sh), only_ind=bool(i % 3), R_far_field=cut, Model='VCFF')


def models(rec):
    return mc.run(rec, 'one', 'dispatch')
