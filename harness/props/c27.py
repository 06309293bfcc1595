"""C27: finite tube of tangential vorticity"""
import models as mc
import numpy as np
import kern, gen
from kern import K
LEVEL = 'exploration'
RULE = 'calls of cylinder_tang_u compared point by point to the Biot-Savart integral between the two ends, and to sums of adjoining tubes'


def cond(P, R, *zs):
    """the radial velocity is the difference of terms of order sqrt(R/r) (w/R) sqrt(R/r), w the distance to the planes of the ends"""
    r = np.hypot(P[:, 0], P[:, 1])
    w = np.max([np.abs(P[:, 2] - z) for z in zs], axis=0)
    ok = r > .9e-7 * R
    return max(1e-8, 2e-15 * float(np.max((w + R)[ok] / r[ok], initial=0.)))


def build(rec):
    rng = rec.rng
    N = 120 if rec.thorough else 24
    for i in range(N):
        c = rec.chunk('finite')
        p = kern.rand(rng, 'cylinder_tang_u')
        p["z1"], p["z2"] = sorted((p["z1"], p["z2"]))
        R, z1, z2 = p["R"], p["z1"], p["z2"]
        for fo in ('cart', 'pol2'):
            k = K('cylinder_tang_u', p, fo)
            P = k.points(rng, 16, dmin=.06)
            ax = np.array([[0, 0, z] for z in (z1 - 3 * R, z1 - .2 * R, z1, .5 * (z1 + z2), z2, z2 + .3 * R, z2 + 9 * R)])
            rim = np.array([[R, 0, z1 - .4 * R], [0, R, z2 + .5 * R], [-R, 0, z2 + 4 * R]])
            pl = np.array([[.4 * R, 0, z1], [0, 2 * R, z1], [.5 * R, .3 * R, z2], [1.6 * R, 0, z2]])
            P = np.vstack([P, ax, rim, pl])
            t = cond(P, R, z1, z2)
            a = k.emit(c, P, tol=t)
            # ends swapped
            k.but(z1=z2, z2=z1).emit(c, P, chk=['kabs'], tol=t)
            # adjoining tubes
            zs = np.sort(rng.uniform(z1, z2, int(rng.integers(1, 4))))
            if rng.random() < .3:
                zs = np.append(zs, z2 + R)     # overshoot and come back
            zz = np.concatenate(([z1], zs, [z2]))
            Q = np.array([q for q in P if min(np.hypot(np.hypot(q[0], q[1]) - R, q[2] - b) for b in zz) > .05 * R and not (abs(np.hypot(q[0], q[1]) - R) < 1e-3 * R and min(zz) - .05 * R < q[2] < max(zz) + .05 * R)])
            parts = [k.but(z1=b, z2=d).emit(c, Q, chk=[]) for b, d in zip(zz[:-1], zz[1:])]
            k.emit(c, Q, chk=['krel'], rel=[dict(k='sum', u='fin', a=parts)], tol=2 * t)
            # towards the semi-infinite tube
            q = {k_: v for k_, v in p.items() if k_ in ('g', 'R')}
            big = K('vc_tang_u', q, fo)
            Pn = np.array([x for x in big.points(rng, 8, dmin=.1) if x[2] < 8 * R])
            if len(Pn):
                b = big.emit(c, Pn, chk=[])
                for far in (50., 400.):
                    K('cylinder_tang_u', dict(p, z1=0., z2=far * R), fo).emit(c, Pn, tol=cond(Pn, R, 0., far * R), chk=['kabs', 'krel'], rel=[dict(k='tends', a=b, by='%g' % (1. / (far - 9) ** 2))])
        # next to the sheet and to both rims: conditioned as eps (R/|r-R|)^2
        for d, Q in kern.near_sheet(rng, R, 5, ends=(z1, z2), inside=(z2 - z1) / R):
            K('cylinder_tang_u', p, ('cart', 'pol2')[i % 2]).emit(c, Q, tol=max(1e-8, 2e-14 / d ** 2))
        # very short tubes: like a ring of the circulation g L
        for L in 10. ** rng.uniform(-5, -2, 2):
            a, s = R * rng.uniform(-2, 2), kern.sgn(rng)
            k = K('cylinder_tang_u', dict(p, z1=a, z2=a + s * L * R), ('cart', 'pol2')[i % 2])
            Q = k.points(rng, 8, dmin=.2, near=0.)
            Q = Q[np.linalg.norm(Q, axis=1) < 20 * R]
            if len(Q): k.emit(c, Q, sc=abs(p['g']) * L, tol=max(1e-7, 3e-14 / L))
        if i % 4 == 0:    # default ends
            k = K('cylinder_tang_u', dict(g=p['g'], R=1., z1=-2., z2=2.), 'cart')
            k.emit(c, k.points(rng, 10, dmin=.06))


def models(rec):
    return mc.run(rec, 'tubes')
