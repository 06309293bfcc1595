"""C13: skewed tube of tangential vorticity"""
import models as mc
import numpy as np
import kern
from kern import K
LEVEL = 'exploration'
RULE = 'calls of the skewed tangential functions whose results are compared point by point to the Biot-Savart integral, to the straight tube at zero skew, and to their mirror image'


def build(rec):
    rng = rec.rng
    N, npt = (80, 30) if rec.thorough else (10, 14)
    angles = [0, 1e-6, 1e-3, .1, 5, 20, 45, 60, 75, 79]
    for i in range(N):
        chi = angles[i % len(angles)] if i < 2 * len(angles) else rng.uniform(0, 79)
        m = float(np.tan(np.radians(chi))) * (-1 if rng.random() < .5 else 1)
        p = kern.quadrature(rng, kern.rand(rng, 'svc_tang_u', skew=m))
        c = rec.chunk('skewed tube')
        k = K('svc_tang_u', p)
        P = k.points(rng, npt, dmin=0.2)
        # shapes of the request do not matter; Cartesian and polar components
        a = k.emit(c, P)
        k.as_(form='pol3').emit(c, P, chk=['kabs', 'krel'], rel=[dict(k='agree', a=a)], tol=1e-9)
        for fo in ('cart', 'pol3'):
            K('svc_tang_u_polar', p, fo).emit(c, P, chk=['kabs', 'krel'], rel=[dict(k='agree', a=a)], tol=1e-9)
        Q = P * np.array([-1, 1, 1])
        k.but(m=-m).emit(c, Q, chk=['kabs', 'krel'], rel=[dict(k='mirrorskew', a=a)], tol=1e-9)
        # special points: axis of the rotor, wake axis, rotor plane
        S = p['R'] * np.array([[0, 0, 0], [0, 0, -1], [0, 0, -1e-3], [.5, 0, 0], [-.5, 0, 0], [0, .7, 0], [0, -1.5, 0], [1.6, 0, 0], [m * 2, 0, 2], [m * 30, .1, 30], [m * 300, -.4, 300], [m * 5 + 1.9 * np.hypot(1, m), .2, 5]])
        S = np.array([s for s in S if k.singular(s) > .15])
        K('svc_tang_u', p, ('cart', 'pol3')[i % 2]).emit(c, S)
        q = kern.quadrature(rng, dict(g=p['g'], m=m))
        kk = K('fV_Tangential', q, nout=int(rng.integers(2, 8)))
        kk.emit(c, kk.points(rng, 8))
    for i in range(max(4, N // 4)):
        p = kern.rand(rng, 'svc_tang_u', skew=0.)
        c = rec.chunk('zero skew')
        s = K('vc_tang_u', dict(g=p['g'], R=p['R']), 'cart')
        P = s.points(rng, npt, dmin=0.2)
        a = s.emit(c, P)
        for f, fo in (('svc_tang_u', 'cart'), ('svc_tang_u', 'pol3'), ('svc_tang_u_polar', 'cart')):
            K(f, p, fo).emit(c, P, chk=['krel'], rel=[dict(k='agree', a=a)], tol=1e-9)


def models(rec):
    return mc.run(rec, 'tubes', 'plane')
