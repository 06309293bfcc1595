"""C14: longitudinal vorticity tube"""
import models as mc
import numpy as np
import kern
from kern import K
LEVEL = 'exploration'
RULE = 'calls of the longitudinal-tube functions compared point by point to the Biot-Savart integral, straight to skewed at zero skew, and mirror images'


def build(rec):
    rng = rec.rng
    N, npt = (80, 30) if rec.thorough else (10, 14)
    angles = [0, 1e-6, .1, 5, 20, 45, 60, 75, 79]
    for i in range(N):
        chi = angles[i % len(angles)] if i < 2 * len(angles) else rng.uniform(0, 79)
        m = float(np.tan(np.radians(chi))) * (-1 if rng.random() < .5 else 1)
        p = kern.quadrature(rng, kern.rand(rng, 'svc_longi_u', skew=m))
        c = rec.chunk('skewed tube')
        k = K('svc_longi_u', p)
        P = k.points(rng, npt, dmin=0.2)
        a = k.emit(c, P)
        k.as_(form='pol3').emit(c, P, chk=['kabs', 'krel'], rel=[dict(k='agree', a=a)], tol=1e-9)
        for fo in ('cart', 'pol3'):
            K('svc_longi_u_polar', p, fo).emit(c, P, chk=['kabs', 'krel'], rel=[dict(k='agree', a=a)], tol=1e-9)
        k.but(m=-m).emit(c, P * np.array([-1, 1, 1]), chk=['kabs', 'krel'], rel=[dict(k='mirrorskew', a=a)], tol=1e-9)
        S = p['R'] * np.array([[0, 0, 0], [0, 0, -1], [.5, 0, 0], [-.5, 0, 0], [0, .7, 0], [0, -1.5, 0], [1.6, 0, 0], [m * 2, 0, 2], [m * 30, .1, 30], [m * 300, -.4, 300]])
        S = np.array([s for s in S if k.singular(s) > .15])
        K('svc_longi_u', p, ('cart', 'pol3')[i % 2]).emit(c, S)
        # very far inside and next to the wake
        F = [[m * z + p['R'] * a * np.cos(t), p['R'] * a * np.sin(t), z] for z, a, t in ((1.1e3 * p['R'], .5, 1.), (1.5e3 * p['R'], 1.6, 4.), (3e3 * p['R'], 1.5, .3))]
        K('svc_longi_u', p, ('cart', 'pol3')[i % 2]).emit(c, np.array(F), tol=1e-5)
        kk = K('fV_Trailed', kern.quadrature(rng, dict(g=p['g'], m=m)), nout=int(rng.integers(2, 8)))
        kk.emit(c, kk.points(rng, 8))
    for i in range(N):
        p = kern.rand(rng, 'vc_longi_u')
        c = rec.chunk('straight tube')
        for f in ('vc_longi_u', 'vc_longi_u_polar'):
            for fo in ('cart', 'pol3'):
                k = K(f, p, fo)
                k.emit(c, k.points(rng, npt, dmin=0.05))
        R = p['R']
        k = K('vc_longi_u', p, 'cart')
        P = k.points(rng, npt, dmin=0.2)
        a = k.emit(c, P)
        for f, fo in (('svc_longi_u', 'cart'), ('svc_longi_u', 'pol3'), ('svc_longi_u_polar', 'cart')):
            K(f, dict(p, m=0.), fo).emit(c, P, chk=['krel'], rel=[dict(k='agree', a=a)], tol=1e-9)
        # next to the sheet and to the rim: conditioned as eps (R/|r-R|)^2
        for d, Q in kern.near_sheet(rng, R, 6):
            K(('vc_longi_u', 'vc_longi_u_polar')[i % 2], p, ('cart', 'pol3')[i // 2 % 2]).emit(c, Q, tol=max(1e-8, 2e-14 / d ** 2))
        # axis, next to it, rotor plane; on the sheet and on the rim: the mean of both sides
        S = R * np.array([[0, 0, 0], [0, 0, 1], [0, 0, -3], [1e-9, 0, 1], [0, 1e-5, 2.], [.3, .1, 0], [3, .1, 0], [.9, 0, 1e3], [5., 0, -1e3]])
        T = R * np.array([[1, 0, .5], [1, 0, 2], [1, 0, -.7], [1, 0, 20.], [1, 0, 0]])
        for fo in ('cart', 'pol3'):
            K('vc_longi_u', p, fo).emit(c, S)
            K('vc_longi_u', p, fo).emit(c, T, tol=1e-6, chk=['kabs', 'finite'])


def models(rec):
    return mc.run(rec, 'lines')
