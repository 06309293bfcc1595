"""C04: the farm field is the superposition of its turbines, plus the wind exactly once"""
import models as mc
import numpy as np
import gen, scen
LEVEL = 'model_checking'
RULE = 'farms grown turbine by turbine; every farm answer compared to the sum of the answers of its members alone with the same options'


def ask(c, f, members, P, U0=None, tol=1e-11, shape=None, order='C', **o):
    """members are asked one by one, then the farm"""
    ids = [c.query(t, P, chk=[], only_ind=True, shape=shape, order=order, **o) for t in members]
    ok = all(c.ev[i - 1]['out'] == 'ok' for i in ids)
    # (a refusal by a member is a refusal by the farm)
    return c.farmquery(f, P, ids, U0=U0, chk=['farm', 'shape'] if ok else ['farmout'], tol=tol, sc=20. * max(1, len(members)), shape=shape, order=order, **o)


def build(rec):
    rng = rec.rng
    N = 250 if rec.thorough else 50
    for i in range(N):
        c = rec.chunk('farm')
        nt = int(rng.integers(1, 6))
        f = gen.rand_frame(rng)
        same = rng.random() < .6
        R0 = float(rng.choice([1., 40.]))
        for t in range(nt):
            mod = 'VC' if rng.random() < .7 else str(rng.choice(scen.MODELS))
            scen.turbine(c, t, rng, R=R0 * rng.uniform(.5, 1.5), frame=f if same else None, model=mod, exact=False, low=1.6)
        start = [] if rng.random() < .6 else [0]
        c.farmnew('F', start)
        members = list(start)
        sh = c.sh[0]
        n = int(rng.choice([1, 4, 6]))
        P = P0 = np.vstack([scen.pts(rng, c.sh[t], 2, dmin=.1) for t in range(nt)])
        if rng.random() < .3:    # far from some turbines, in the wake of others
            w = [c.sh[t].to_global([[rng.uniform(-.7, .7) * c.sh[t].R + c.sh[t].m() * d, rng.uniform(-.5, .5) * c.sh[t].R, d]])[0] for t in range(nt) for d in c.sh[t].R * 10 ** rng.uniform(1, 3.5, 2)]
            w += [c.sh[t].hub + gen.unit(rng) * c.sh[t].R * 10 ** rng.uniform(1, 4.5) for t in range(nt)]
            P = np.array([q for q in w if all(gen.clear(sh.to_local([q])[0], sh.R, sh.m(), sh.radii, .1, True) and gen.clear(sh.to_local(sh.mirror([q]))[0], sh.R, sh.m(), sh.radii, .1, True) for sh in (c.sh[t] for t in range(nt)))])
            if len(P) < n: P = np.vstack([P, P0])
        P = P[rng.permutation(len(P))[:n]]
        n = len(P)
        shape = None if n % 2 else (2, n // 2)
        order = ['C', 'F', 'strided'][rng.integers(3)]
        c.count('F')
        for k in range(int(rng.integers(2, 6))):
            for o in (dict(), dict(scen.options(rng)), dict(scen.options(rng), Model=str(rng.choice(scen.MODELS)), R_far_field=float(rng.uniform(1, 8)))):
                o.pop('only_ind', None)
                U0 = None if rng.random() < .4 else (np.zeros(3) if rng.random() < .2 else rng.uniform(-9, 9, 3))
                ask(c, 'F', members, P, U0, shape=shape, order=order, **o)
            t = int(rng.integers(nt))
            if rng.random() < .75:
                c.append('F', t)       # a turbine listed twice counts twice
                members.append(t)
            else:                      # or one of the members is re-configured
                w = rng.integers(4)
                sh = c.sh[t]
                if w == 0: c.pos(t, sh.hub + sh.R * rng.uniform(-1, 1) * np.cross(sh.vert, sh.shaft0))
                elif w == 1: c.wind(t, sh.wind * 1.4)
                elif w == 2: c.ground(t, not sh.ground)
                else: c.load(t, **gen.rand_load(rng, sh, ncyl=1))
        c.count('F')
        c.layout('F')
    # many turbines
    for i in range(8 if rec.thorough else 3):
        c = rec.chunk('many')
        nt = int(rng.integers(11, 60))
        f = gen.rand_frame(rng)
        for t in range(nt):
            scen.turbine(c, t, rng, R=1., frame=f, hub=rng.uniform(-40, 40, 3) + 60. * f[1], exact=False, ncyl=1)
        c.farmnew('F', list(range(nt)))
        P = rng.uniform(-50, 50, (4, 3))
        P[3] *= 300.
        ask(c, 'F', range(nt), P, rng.uniform(-9, 9, 3), tol=1e-10)
        ask(c, 'F', range(nt), P, None, tol=1e-10, no_wake=True, longi=True)
        c.count('F')
        c.layout('F')
    # an empty farm
    for i in range(4):
        c = rec.chunk('empty')
        c.farmnew('F', [])
        P = rng.uniform(-3, 3, (6, 3))
        for U0 in (None, rng.uniform(-9, 9, 3)):
            c.farmquery('F', P, [], U0=U0, chk=['farm', 'shape'], shape=[None, (2, 3), (3, 2, 1), (6, 1)][i])
    # a member not loaded yet: an error, not a partial sum
    for i in range(6):
        c = rec.chunk('unloaded')
        scen.turbine(c, 0, rng)
        scen.turbine(c, 1, rng, load=False)
        c.farmnew('F', [0, 1] if i % 2 else [1, 0])
        P = scen.pts(rng, c.sh[0], 3)
        ask(c, 'F', [0, 1] if i % 2 else [1, 0], P)
    # permuting the members, splitting the farm
    for i in range(N // 2):
        c = rec.chunk('order')
        f = gen.rand_frame(rng)
        for t in range(4):
            scen.turbine(c, t, rng, R=1., frame=f, low=1.6)
        for name, ts in (('A', [0, 1, 2, 3]), ('B', [3, 1, 0, 2]), ('C', [0, 1]), ('D', [2, 3])):
            c.farmnew(name, ts)
        P = np.vstack([scen.pts(rng, c.sh[t], 2, dmin=.1) for t in range(4)])
        o = scen.options(rng)
        o.pop('only_ind', None)
        a = c.farmquery('A', P, None, chk=['ok'], **o)
        c.farmquery('B', P, None, chk=['rel'], rel=[dict(k='equal', a=a)], tol=1e-11, sc=60., **o)
        q = [c.farmquery(n, P, None, chk=['ok'], **o) for n in 'CD']
        c.farmquery('A', P, None, chk=['rel'], rel=[dict(k='total', a=q)], tol=1e-11, sc=60., **o)


def models(rec):
    return mc.run(rec, 'farm', 'geometry')
