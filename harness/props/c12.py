"""C12: straight tube of tangential vorticity"""
import models as mc
import numpy as np
import kern
from kern import K
LEVEL = 'exploration'
RULE = 'calls of vc_tang_u / raw / svc_tang_u(m=0) at point clouds whose results are compared point by point to the Biot-Savart integral of the specification'


def special(R):
    """axis, rotor plane, far wake, upstream, r=R off the sheet, next to the axis threshold"""
    z = np.array([-50, -3, -1, -.1, 0, .1, 1, 3, 50.])
    P = [[0, 0, a] for a in z]
    P += [[1e-8, 0, .7], [0, 3e-8, -.4], [2e-7, 0, .7], [0, -5e-7, .2], [1e-5, 0, 1.], [1e-3, 1e-3, -1]]
    P += [[a * np.cos(t), a * np.sin(t), 0.] for a in (.01, .3, .7, .95, 1.05, 1.4, 3., 30.) for t in (0., 2.4, 4.)]
    P += [[1., 0, -b] for b in (.01, .1, 1., 10.)] + [[0, -1., -.5], [.6, .8, -.3], [-.6, .8, -2.]]
    P += [[.9, 0, 60.], [0, .2, 300.], [1.2, 0, 60.], [.5, .5, 1e4], [2., 3., -1e3]]
    return R * np.array(P)


def build(rec):
    rng = rec.rng
    N, npt = (60, 40) if rec.thorough else (10, 16)
    for f in ('vc_tang_u', 'cylinder_tang_semi_inf_u_raw', 'svc_tang_u', 'svc_tang_u_polar', 'vc_tang_u_doublet'):
        if not kern.available(f):
            continue
        forms = kern.FORMS[f]
        for i in range(N):
            p = kern.rand(rng, f, skew=0.)
            if f == 'vc_tang_u_doublet':
                p['cut'] = 1e9
            c = rec.chunk('tube')
            for fo in forms:
                k = K(f, p, fo)
                raw = f.endswith('raw')
                P = k.points(rng, npt, dmin=0.05 if f == 'vc_tang_u' or raw else 0.2, offaxis=0.01 if raw else 0)
                a = k.emit(c, P)
                if fo == forms[-1] and fo != forms[0]:
                    k.as_(form=forms[0]).emit(c, P, chk=['krel'], rel=[dict(k='agree', a=a)], tol=1e-12)
    # special sets
    for R in (1., 0.02, 7.5, 150.) if rec.thorough else (1., 75.):
        for g in (-1.3, 2.):
            c = rec.chunk('special')
            P = special(R)
            for fo in ('cart', 'pol2'):
                K('vc_tang_u', dict(g=g, R=R), fo).emit(c, P)
                # rim: a quarter of the strength
                T = R * np.array([[1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0]], float)
                K('vc_tang_u', dict(g=g, R=R), fo).emit(c, T, chk=['kaxial'])
            K('vc_tang_u', dict(g=g, R=R), 'cart').emit(c, R * np.array([[1, 0, .5], [1, 0, .05], [1, 0, 20.], [1, 0, 3.]]), chk=['kaxial'])
    # continuity of the branches: points either side of each threshold
    for R in (1., 40.):
        c = rec.chunk('branches')
        k = K('vc_tang_u', dict(g=1.7, R=R), 'cart')
        z = np.array([-2., -.3, .2, 1.5, 6.])
        for d0, d1 in ((0.9e-7, 1.1e-7), (0., 1e-6)):
            a = k.emit(c, np.array([[d0 * R, 0, b * R] for b in z]), chk=[])
            k.emit(c, np.array([[d1 * R, 0, b * R] for b in z]), chk=['krel'], rel=[dict(k='tends', a=a, by='1e-5')])
        # conditioning of the closed form near r=R: error ~ eps (R/|r-R|)^2
        a = k.emit(c, np.array([[R * (1 - 1e-4), 0, -b * R] for b in (.05, .5, 3.)]), chk=['kabs'], tol=1e-6)
        b = k.emit(c, np.array([[R, 0, -b * R] for b in (.05, .5, 3.)]), chk=['kabs', 'krel'], rel=[dict(k='tends', a=a, by='2e-3')])
        k.emit(c, np.array([[R * (1 + 1e-4), 0, -b * R] for b in (.05, .5, 3.)]), chk=['kabs', 'krel'], rel=[dict(k='tends', a=b, by='2e-3')], tol=1e-6)
    # next to the sheet and to the rim: conditioned as eps (R/|r-R|)^2
    for i in range(N):
        c = rec.chunk('sheet')
        p = kern.rand(rng, 'vc_tang_u')
        for d, P in kern.near_sheet(rng, p['R'], 6):
            K('vc_tang_u', p, kern.FORMS['vc_tang_u'][i % 2]).emit(c, P, tol=max(1e-8, 2e-14 / d ** 2))
            if i % 2 and kern.available('cylinder_tang_semi_inf_u_raw'):
                K('cylinder_tang_semi_inf_u_raw', dict(g=p['g'], R=p['R']), kern.FORMS['cylinder_tang_semi_inf_u_raw'][0]).emit(c, P, tol=max(1e-8, 2e-14 / d ** 2))
    # regularisation
    for i in range(N):
        p = kern.rand(rng, 'vc_tang_u')
        c = rec.chunk('regularised')
        for e in (1e-2, 1e-3, 1e-4, 0.1):
            k = K('vc_tang_u', dict(p, eps=e * p['R']), kern.FORMS['vc_tang_u'][i % 2])
            k.emit(c, k.points(rng, 10, dmin=0.15), chk=['reg'])
            # less than a core upstream, and on the sides of the rotor plane
            r, z = p['R'] * rng.choice([.3, .8, 1.2, 2.], 6), e * p['R'] * rng.uniform(-1, 0, 6)
            z[0], z[1], z[2] = -1e-9 * p['R'], 0., e * p['R'] * .5
            k.emit(c, np.array([r, 0 * r, z]).T, chk=['reg'])


def models(rec):
    return mc.run(rec, 'tubes')
