"""C10: wake masking and free stream affect exactly what they should"""
import models as mc
import numpy as np
import gen, scen
LEVEL = 'model_checking'
RULE = 'points on both sides of every face of the masked region, before and after moving, turning and re-winding; masked = unmasked outside, wind exactly once'


def around(sh, rng, n):
    """points just inside and outside the masked region, near its faces and corner, and elsewhere"""
    R = sh.R
    out = []
    while len(out) < n:
        th = rng.uniform(0, 2 * np.pi)
        e = float(rng.choice([-1, 1])) * 10. ** rng.uniform(-6, -1)
        k = rng.integers(10)
        if k == 0: r, z = 1.001 + e, rng.uniform(-.5, 9)
        elif k == 7: r, z = rng.uniform(0, .95), 10 ** rng.uniform(1, 3)
        elif k == 8: r, z = 10 ** rng.uniform(0.1, 2.5), float(rng.choice([-1, 1])) * 10 ** rng.uniform(0, 3)
        elif k == 9: r, z = rng.uniform(0, .95), -10 ** rng.uniform(0, 3)
        elif k == 1: r, z = rng.uniform(0, .95), -.6 + e
        elif k == 2: r, z = 1.001 + e, -.6 + e * rng.choice([-1, 1])
        elif k == 3: r, z = rng.uniform(0, .99), rng.uniform(-.59, 30)
        elif k == 4: r, z = rng.uniform(1.01, 5), rng.uniform(-5, 30)
        elif k == 5: r, z = rng.uniform(0, 2), rng.uniform(-8, -.61)
        else: r, z = rng.uniform(0, .9), rng.uniform(-.3, .3)
        if abs(r - 1.001) < 5e-7 or abs(z + .6) < 5e-7 or abs(z) < 1e-6 or abs(np.hypot(r, z) - 6) < 1e-6 or abs(r - 1) < 1e-6:
            continue
        # (off the sheets)
        p = R * np.array([r * np.cos(th), r * np.sin(th), z])
        if any(gen.tube_dist(p, q, sh.m()) < 1e-4 * R for q in sh.radii):
            continue
        out.append(p)
    return sh.to_global(np.array(out))


def build(rec):
    rng = rec.rng
    big = rec.thorough
    for i in range(500 if big else 110):
        c = rec.chunk('mask')
        model = 'VC' if rng.random() < .6 else scen.MODELS[rng.integers(4)]
        sh = scen.turbine(c, 0, rng, R=float(rng.choice([1., 1., .5, 8., 63., 300.])), model=model, vertical=float(rng.choice([0., 2.])), low=1.2)
        for k in range(4 if big else 3):
            P = around(sh, rng, 12)
            o = dict(scen.COMPS[rng.integers(len(scen.COMPS))]) if model == 'VC' else {}
            if rng.random() < .4: o['ground'] = bool(rng.random() < .5)
            if model == 'VC' and abs(sh.skew()) < 1e-9 and len(sh.radii) == 1 and not o.get('longi') and rng.random() < .3:
                o['Model'] = str(rng.choice(scen.MODELS))
            shape = [None, (3, 4), (2, 3, 2)][rng.integers(3)]
            q = lambda **kw: c.query(0, P, shape=shape, **dict(dict(chk=['outcome']), **o, **kw))
            free = q(only_ind=True)
            q(only_ind=True, no_wake=True, chk=['outcome', 'rel'], rel=[dict(k='mask', a=free)], tol=1e-13, sc=2 * scen.speed(sh))
            full = q(chk=['outcome', 'rel'], rel=[dict(k='wind', a=free)], tol=1e-13, sc=4 * scen.speed(sh))
            m = q(no_wake=True, chk=['outcome', 'rel'], rel=[dict(k='mask', a=full)], tol=1e-13, sc=4 * scen.speed(sh))
            # the same for requests that lie entirely in the masked region, or entirely outside of it, and for a single point
            L = sh.to_local(P)
            ins = (np.hypot(L[:, 0], L[:, 1]) < sh.R) & (L[:, 2] > -.5 * sh.R)
            for sel in (ins, ~ins, np.arange(12) == rng.integers(12)):
                if sel.any():
                    part = lambda **kw: c.query(0, P[sel], **dict(dict(chk=['outcome']), **o, **kw))
                    a = part(only_ind=True)
                    part(only_ind=True, no_wake=True, chk=['outcome', 'rel'], rel=[dict(k='mask', a=a)], tol=1e-13, sc=2 * scen.speed(sh))
                    a = part(chk=['outcome', 'rel'], rel=[dict(k='wind', a=a)], tol=1e-13, sc=4 * scen.speed(sh))
                    part(no_wake=True, chk=['outcome', 'rel'], rel=[dict(k='mask', a=a)], tol=1e-13, sc=4 * scen.speed(sh))
            if rng.random() < .4:
                D = scen.pts(rng, sh, 5)
                c.query(0, D, chk=['outcome', 'abs'], no_wake=True, tol=2e-6, sc=scen.speed(sh), only_ind=bool(rng.random() < .5), **o)
            # move on: the mask and the wind follow
            w = rng.integers(5)
            if w == 0: c.pos(0, sh.hub + rng.uniform(-2, 2) * sh.R * np.cross(sh.vert, sh.shaft0))
            elif w == 1: c.yaw(0, sh.yaw + (.3 if model == 'VC' else 2 * np.pi))
            elif w == 2: c.wind(0, sh.wind * rng.uniform(.3, 2) + (0 if model != 'VC' else 1) * rng.uniform(-1, 1) * sh.vert)
            elif w == 3: c.ground(0, not sh.ground)
            else: c.load(0, **gen.exact_load(rng, sh, ncyl=1))
    # a rotor without load, or with no component requested: exactly the wind
    for i in range(12):
        c = rec.chunk('still')
        sh = scen.turbine(c, 0, rng, model='VC', load=False)
        c.load(0, 'Ct', 0.)
        P = around(sh, rng, 6)
        for kw in (dict(), dict(no_wake=True), dict(tang=False), dict(ground=True)):
            c.query(0, P, chk=['outcome', 'abs'], tol=1e-14, sc=scen.speed(sh), **kw)
            c.query(0, P, chk=['outcome', 'rel'], rel=[dict(k='zero')], tol=1e-14, sc=1., only_ind=True, **kw)
    # a point exactly in the plane of the rotor, in its centre, on the axis
    for i in range(20):
        c = rec.chunk('special points')
        sh = scen.turbine(c, 0, rng, model='VC', skew=0., ncyl=1, ground=False)
        P = np.vstack([sh.hub, sh.hub + 3 * sh.R * sh.shaft(), sh.hub - 3 * sh.R * sh.shaft(), sh.hub + .5 * sh.R * sh.vert, sh.hub + 1.5 * sh.R * sh.vert, sh.hub - .3 * sh.R * sh.shaft()])
        a = c.query(0, P, chk=['outcome'], only_ind=True)
        c.query(0, P, chk=['outcome', 'rel'], only_ind=True, no_wake=True, rel=[dict(k='mask', a=a)], tol=1e-13, sc=2 * scen.speed(sh))
        c.query(0, P, chk=['outcome', 'rel'], rel=[dict(k='wind', a=a)], tol=1e-13, sc=4 * scen.speed(sh))
    # several turbines in a farm: each masks its own wake only, with the turbines' winds left out
    for i in range(30 if big else 10):
        c = rec.chunk('farm')
        f = gen.rand_frame(rng)
        for t in range(3):
            scen.turbine(c, t, rng, R=1., frame=f, low=1.5)
        c.farmnew('F', [0, 1, 2])
        P = np.vstack([around(c.sh[t], rng, 2) for t in range(3)])
        for o in (dict(no_wake=True), dict(no_wake=False)):
            ids = [c.query(t, P, chk=['outcome'], only_ind=True, **o) for t in range(3)]
            c.farmquery('F', P, ids, U0=rng.uniform(-9, 9, 3), chk=['farm'], tol=1e-11, sc=60., **o)


def models(rec):
    return mc.run(rec, 'one')
