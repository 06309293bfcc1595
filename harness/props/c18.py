"""C18: far-field model of the vortex tube"""
import models as mc
import numpy as np
import kern, gen
from kern import K
LEVEL = 'exploration'
RULE = 'calls of the far-field function and of turbines with the VCFF model, compared point by point to the tube inside the cut and to the doublet line outside'


def build(rec):
    rng = rec.rng
    N, npt = (80, 40) if rec.thorough else (14, 24)
    for i in range(N):
        p = kern.rand(rng, 'vc_tang_u_doublet')
        if i == 0: p.pop('cut', None)
        c = rec.chunk('cut')
        cut = p.get('cut', 6)
        for fo in ('cart', 'pol2'):
            k = K('vc_tang_u_doublet', p, fo)
            P = k.points(rng, npt, dmin=.06)
            # straddling the cut in every direction, very close to it
            t, ph = rng.uniform(.3, 2.8, 8), rng.uniform(-np.pi, np.pi, 8)
            d = np.array([np.sin(t) * np.cos(ph), np.sin(t) * np.sin(ph), np.cos(t)]).T
            Q = np.vstack([d * cut * s * p['R'] for s in (1 - 1e-6, 1 + 1e-6, .8, 1.3)])
            Q = np.array([q for q in Q if k.singular(q) > .06]).reshape(-1, 3)
            k.emit(c, np.vstack([P, Q]))
            if len(Q): k.emit(c, Q[rng.permutation(len(Q))])
            for o in ('crowdfar', 'crowdnear'):
                k.emit(c, np.vstack([P[:6], Q]), order=o)
            k.emit(c, P[np.linalg.norm(P, axis=1) > cut * p['R']] if np.any(np.linalg.norm(P, axis=1) > cut * p['R']) else P)
            # axis on both sides of the cut
            k.emit(c, p['R'] * np.array([[0, 0, s * cut * f] for s in (-1, 1) for f in (.5, .9, 1.1, 3)] + [[0, 0, 0]]))
            # the two descriptions approach each other as (R/distance)^2
            big = cut if cut > 5 else 6.
            D = np.array([[np.sin(a), 0, np.cos(a)] for a in (.7, 1.2, 1.9, 2.6, 3.1)])
            for far in (10, 30., 100.):
                a = K('vc_tang_u_doublet', dict(p, cut=1e9), fo).emit(c, D * far * p['R'], chk=[])
                K('vc_tang_u_doublet', dict(p, cut=2.), fo).emit(c, D * far * p['R'], chk=['kabs', 'krel'], rel=[dict(k='tends', a=a, by='%g' % (6. / far ** 4))])
    # turbines
    for i in range(N):
        c = rec.chunk('turbine')
        s, v = gen.rand_frame(rng)
        R = float(rng.choice([1., 40., 63.]))
        yaw = float(rng.uniform(-2, 2))
        wind = gen.rotm(v, yaw).dot(s) * rng.uniform(4, 14)
        default = rng.random() < .5
        c.new(0, R=R, shaft=s, vert=v, hub=rng.uniform(-2, 2, 3) * R * (1 if rng.random() < .6 else 60.), wind=wind, model='VCFF' if default else 'VC')
        c.yaw(0, yaw)
        c.load(0, **gen.exact_load(rng, c.sh[0], ncyl=1))
        for rff in (6, 2., 4.5, 12.):
            P = gen.points(rng, c.sh[0], npt, dmin=.1, root=True)
            t, ph = rng.uniform(.3, 2.8, 6), rng.uniform(-np.pi, np.pi, 6)
            d = np.array([np.sin(t) * np.cos(ph), np.sin(t) * np.sin(ph), np.cos(t)]).T
            Q = np.array([q for q in np.vstack([d * rff * f * R for f in (1 - 1e-6, 1 + 1e-6)]) if gen.clear(q, R, 0., [R], .06, True)])
            P = np.vstack([P, c.sh[0].to_global(Q)]) if len(Q) else P
            o = dict(R_far_field=rff) if rff != 6 or rng.random() < .5 else {}
            c.query(0, P, order=str(rng.choice(['C', 'crowdfar', 'crowdnear'])), chk=['outcome', 'abs'], only_ind=bool(rng.random() < .5), tol=2e-7, **dict(o, **({} if default else dict(Model='VCFF'))))


        # over the ground: the image has its own near and far region
        sh = c.sh[0]
        h = float(rng.choice([1.2, 2., 3.5])) * R
        c.pos(0, sh.hub - sh.vert * sh.hub.dot(sh.vert) + sh.vert * h)
        for rff in (6, float(rng.uniform(1.5, 9))):
            P = gen.points(rng, sh, npt // 2, dmin=.1, root=True, ground=True)
            d = np.array([gen.unit(rng) for _ in range(40)]) * rff * R * rng.choice([.3, .6, .8, .95, 1 - 1e-6, 1 + 1e-6, 1.3, 2.], (40, 1))
            G = np.vstack([sh.to_global(d[:20]), sh.mirror(sh.to_global(d[20:]))])
            ok = [gen.clear(a, R, 0., [R], .1, True) and gen.clear(b, R, 0., [R], .1, True) for a, b in zip(sh.to_local(G), sh.to_local(sh.mirror(G)))]
            c.query(0, np.vstack([P, G[ok]]), chk=['outcome', 'abs'], only_ind=True, tol=2e-7, Model='VCFF', ground=True, R_far_field=rff)


def models(rec):
    return mc.run(rec, 'doublets', 'tubes')
