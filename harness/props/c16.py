"""C16: vortex rings"""
import models as mc
import numpy as np
import kern
from kern import K
LEVEL = 'exploration'
RULE = 'calls of the ring functions compared point by point to the Biot-Savart integral of the ring(s), or to the core value inside the regularised core'


def build(rec):
    rng = rec.rng
    N, npt = (100, 40) if rec.thorough else (12, 20)
    for i in range(N):
        c = rec.chunk('rings')
        for f in ('ring_u', 'ring_u_polar', 'ring_u_polar_singular', 'ring_u_polar_singularb', 'rings_u'):
            if not kern.available(f):
                continue
            p = kern.rand(rng, f)
            for fo in kern.FORMS[f]:
                k = K(f, p, fo)
                k.emit(c, k.points(rng, npt, dmin=.02, offaxis=.05 if f in kern.HIDDEN else 0), tol=1e-8 if f not in kern.HIDDEN else 1e-7)
        p = kern.rand(rng, 'ring_u')
        R = p['R']
        S = R * np.array([[0, 0, z] for z in (-30, -1, -.1, 0, .3, 2., 50.)] + [[1e-9, 0, .3], [0, 1e-8, -.3], [3e-7, 0, 1.], [1e-4, 0, -1.], [1, 0, .3], [0, -1, -1.], [.6, .8, 2.], [.5, 0, 0], [0, 1.7, 0], [-.95, 0, 0], [1.05, 0, 0]])
        T = R * np.array([[1, 0, 0], [0, 1, 0], [-1, 0, 0]])
        for fo in ('cart', 'pol2'):
            K('ring_u', p, fo).emit(c, S)
            K('ring_u', p, fo).emit(c, T)
        # next to the filament
        for e in (1e-2, 1e-3, 1e-4, 1e-5):
            for fo in ('cart', 'pol2'):
                t, ph = rng.uniform(-np.pi, np.pi, 5), rng.uniform(-np.pi, np.pi, 5)
                t[0], ph[0], ph[1] = 0., 0., np.pi / 2
                d = max(e * R, 2e-6) * rng.uniform(.5, 1.5, 5)
                r, z = R + d * np.cos(t), d * np.sin(t)
                K('ring_u', p, fo).emit(c, np.array([r * np.cos(ph), r * np.sin(ph), z]).T, tol=1e-7 + 2e-14 / e ** 2, sc=abs(p['g']) / d.min())
                K('ring_u_polar', dict(p, z0=0.)).emit(c, np.array([r, 0 * r, z]).T, tol=1e-7 + 2e-14 / e ** 2, sc=abs(p['g']) / d.min())
        z0 = float(rng.choice([0, 1.7])) * R
        K('ring_u_polar', dict(p, z0=z0)).emit(c, S + np.array([0, 0, z0]), tol=1e-7)
        K('ring_u_polar', dict(p, z0=z0)).emit(c, T + np.array([0, 0, z0]))
        # sets with points on the axis of, and on, one of the rings; coaxial sets in polar output
        q = kern.rand(rng, 'rings_u')
        Q = np.array([[q['xc'][0], q['yc'][0], q['zc'][0] + d] for d in (0., .4)] + [[q['xc'][0] + q['R'][0], q['yc'][0], q['zc'][0]]])
        k = K('rings_u', q)
        single = K('rings_u', {a: b[:1] for a, b in q.items()})
        single.emit(c, Q)
        far = [P for P in Q[:2] if k.singular(P) > .05]
        if far:
            k.emit(c, np.array(far))
        co = dict(q, xc=0 * q['xc'], yc=0 * q['yc'])
        k = K('rings_u', co, 'pol2')
        k.emit(c, k.points(rng, npt, dmin=.03))
        # all-zero strengths
        K('rings_u', dict(q, g=0 * q['g'])).emit(c, Q, sc=1.)
    # regularised cores
    for i in range(N):
        c = rec.chunk('core')
        p = kern.rand(rng, 'ring_u')
        R = p['R']
        # cores wider than the ring, over the axis
        for e in (1.5, 2.6, 5.):
            q = dict(p, eps=e * R, z0=float(rng.choice([0, -.8, .6])) * R)
            t, d = rng.uniform(-np.pi, np.pi, 16), e * R * np.append(rng.uniform(.05, .48, 8), rng.uniform(.52, 1.5, 8))
            r, z = R + d * np.cos(t), d * np.sin(t)
            ok = r > .02 * R
            if ok.any(): K('ring_u_polar', q).emit(c, np.array([r, 0 * r, q['z0'] + z]).T[ok], chk=['core'], tol=1e-7, sc=abs(p['g']) / R)
        for e in (.3, .1, .01):
            for f in ('ring_u', 'ring_u_polar'):
                for fo in kern.FORMS[f]:
                    q = dict(p, eps=e * R)
                    if f == 'ring_u_polar':
                        q['z0'] = float(rng.choice([0, -.8])) * R
                    k = K(f, q, fo)
                    P = k.points(rng, 10, dmin=.6 * e)
                    t, d = rng.uniform(-np.pi, np.pi, 4), e * R * np.array([0, .2, .4, .49])
                    I = np.array([R + d * np.cos(t), 0 * d, q.get('z0', 0.) + d * np.sin(t)]).T if f == 'ring_u_polar' else R * np.array([[1, 0, 0], [0, 1, 0], [-1, 0, 0]])
                    t, d = np.arange(8) * np.pi / 4 + rng.uniform(-.1, .1, 8), e * R * rng.uniform(.505, .62, 8)
                    r, ph = R + d * np.cos(t), rng.uniform(-np.pi, np.pi, 8) * (f == 'ring_u')
                    O = np.array([r * np.cos(ph), r * np.sin(ph), q.get('z0', 0.) * (f == 'ring_u_polar') + d * np.sin(t)]).T
                    if f == 'ring_u_polar':     # the other regularisation: the same outside of the core
                        K(f, dict(q, reg='linear')).emit(c, np.vstack([P, O]), chk=['core'], tol=1e-7, sc=abs(p['g']) / R * max(1, .1 / e))
                    k.emit(c, np.vstack([P, I, O]), chk=['core'], tol=1e-7, sc=abs(p['g']) / R * max(1, .1 / e))


def models(rec):
    return mc.run(rec, 'rings')
