"""C15: root vortex and line filaments, core models"""
import models as mc
import numpy as np
import gen, kern
from kern import K
LEVEL = 'exploration'
RULE = 'calls of the filament functions compared point by point to the filament integral (times the core factor of the model)'


def build(rec):
    rng = rec.rng
    N, npt = (120, 40) if rec.thorough else (12, 20)
    LINES = ('vc_root_u', 'vl_semiinf_straight_u', 'vl_semiinf_straight_u_polar', 'svc_root_u', 'svc_root_u_polar', 'vl_semiinf_u')
    for i in range(N):
        c = rec.chunk('filament')
        for f in LINES:
            p = kern.rand(rng, f)
            for fo in kern.FORMS[f]:
                k = K(f, p, fo)
                a = k.emit(c, k.points(rng, npt, dmin=0.02))
                # rotor plane only (analytical branch) and mixed with out-of-plane points
                if f != 'vl_semiinf_u':
                    t, r = rng.uniform(-np.pi, np.pi, 8), rng.uniform(.05, 3, 8)
                    Q = np.array([r * np.cos(t), r * np.sin(t), 0 * r]).T
                    k.emit(c, Q)
                    k.emit(c, np.vstack([Q, [[.3, .2, 1.]]]))
                    # at all distances at once
                    r = np.sort(10 ** rng.uniform(-5, 4, 6))[::-1]
                    T = np.array([r * np.cos(t[:6]), r * np.sin(t[:6]), 0 * r]).T
                    k.emit(c, T, tol=1e-10)
                    k.emit(c, T[-1:], tol=1e-10, sc=abs(p['g']) / r[-1])
                    # all next to the rotor plane
                    k.emit(c, Q + np.array([0, 0, 1.]) * (kern.sgn(rng) * 10 ** rng.uniform(-7, -2)), tol=1e-10)
                    S = np.array([[0, 0, 0], [0, 0, -2.], [0, 0, -.01]])
                    if p.get('m', 0.) == 0:
                        S = np.vstack([S, [[0, 0, 2.]]])
                    k.emit(c, S)
                    # ahead of the filament, very close to its prolongation
                    for r in 10 ** rng.uniform(-5, -2, 4):
                        z, t = -float(10 ** rng.uniform(-.5, 1.5)), rng.uniform(-np.pi, np.pi)
                        m = p.get('m', 0.)
                        if m == 0:
                            k.emit(c, np.array([[-r * z * np.cos(t), -r * z * np.sin(t), z]]), sc=abs(p['g']) / (4 * np.pi * -r * z), tol=1e-13)
                    k.emit(c, np.array([[0, 0, 0], [0.5, 0., 0]]))
    for f in ('svc_root_u', 'svc_root_u_polar'):
        for chi in (0., 1e-6, 1e-3, 10, 45, 79):
            m = float(np.tan(np.radians(chi)))
            c = rec.chunk('zero and mirrored skew')
            k = K(f, dict(g=-1.7, m=m), 'cart')
            P = k.points(rng, 12, dmin=.05)
            a = k.emit(c, P)
            k.but(m=-m).emit(c, P * np.array([-1, 1, 1]), chk=['krel'], rel=[dict(k='mirrorskew', a=a)], tol=1e-9)
            K(f, dict(g=-1.7, m=m), 'pol3').emit(c, P, chk=['krel'], rel=[dict(k='agree', a=a)], tol=1e-9)
            if m == 0:
                for g in ('vc_root_u', 'vl_semiinf_straight_u', 'vl_semiinf_straight_u_polar'):
                    K(g, dict(g=-1.7), 'cart').emit(c, P, chk=['krel'], rel=[dict(k='agree', a=a)], tol=1e-9)
            else:
                e = np.array([m, 0, 1.]) / np.hypot(1, m)
                K('vl_semiinf_u', dict(g=-1.7, e=e)).emit(c, P, tol=1e-8)
            # on the skewed filament itself: zero
            if m:
                k.emit(c, np.array([[m * z, 0, z] for z in (0., .5, 1., 4.)]), tol=1e-7)
    # core models, any direction; inside, at and outside the core; behind the start point
    for i in range(N * 3):
        e = gen.unit(rng) if rng.random() < .7 else np.array([[0, 0, 1.], [1, 0, 0], [0, -1, 0]][rng.integers(3)])
        c = rec.chunk('core')
        g, t = kern.sgn(rng) * rng.uniform(.2, 3), float(rng.choice([.05, .3, 1., 2.]))
        n = gen.unit(rng); n = np.cross(e, n); n /= np.linalg.norm(n)
        h = np.concatenate([t * np.array([.1, .5, .9, .999, 1.001, 1.3, 3.]), rng.uniform(.02, 3, 5)])
        s = rng.uniform(-3, 5, len(h))
        P = s[:, None] * e + h[:, None] * n
        for visc in (0, 1, 2, 3, 5):
            K('vl_semiinf_u', dict(g=g, e=e, visc=visc, t=t)).emit(c, P, chk=['core'], tol=1e-9, sc=abs(g) / .02)
        # deep in the core
        h = t * 10 ** rng.uniform(-3, -1, 3)
        P = rng.uniform(-3, 3, 3)[:, None] * e + h[:, None] * n
        for visc in (1, 2, 3):
            for q in P: K('vl_semiinf_u', dict(g=g, e=e, visc=visc, t=t)).emit(c, q[None, :], chk=['core'], tol=1e-4, sc=abs(g) * np.min(h) / t ** 2 / 6)
        # far along the filament, in and out of the core; far behind its start; far aside
        h = t * np.array([.1, .4, .6, .9, 1.2, 20., 1., 3e3])
        s = t * np.array([1., 1., 1., 1., 1., 1., -1., 1.]) * 10 ** rng.uniform(1.5, 3.7, 8)
        for q, hq in zip(s[:, None] * e + h[:, None] * n, h):
            for visc in (0, 1, 2, 3): K('vl_semiinf_u', dict(g=g, e=e, visc=visc, t=t)).emit(c, q[None, :], chk=['core'], tol=1e-4, sc=abs(g) * min(hq / t ** 2, 1 / hq) / 6)


def models(rec):
    return mc.run(rec, 'lines')
