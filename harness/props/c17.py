"""C17: doublets and doublet lines"""
import models as mc
import numpy as np
import kern
from kern import K
from rec import num
LEVEL = 'exploration'
RULE = 'calls of the doublet functions compared point by point to the dipole field or to its integral along the line; closed-form integrals compared to quadrature'


def build(rec):
    rng = rec.rng
    N, npt = (100, 30) if rec.thorough else (12, 14)
    for i in range(N):
        c = rec.chunk('doublets')
        for f in ('doublet_u', 'doublet_u_polar'):
            k = K(f, kern.rand(rng, f))
            k.emit(c, k.points(rng, npt, dmin=.05), tol=1e-7)
            x0 = np.asarray(k.p.get('x0', [0, 0, k.p.get('z0', 0.)]), float)
            k.emit(c, np.array([x0, x0 + np.array([0, 0, .7])]), sc=1e2)
        for q in range(8):      # intensities along the axes and in their planes, whatever the position
            p = kern.rand(rng, 'doublet_u')
            p['mm'] = [float(x) * (q >> j & 1) for j, x in enumerate(rng.uniform(.3, 3, 3) * rng.choice([-1., 1.], 3))]
            p['x0'] = [float(x) for x in rng.uniform(.4, 2, 3) * rng.choice([-1., 1.], 3) * (rng.random(3) < .7 if i else 1)]
            k = K('doublet_u', p)
            k.emit(c, k.points(rng, 5, dmin=.05), tol=1e-7)
        k = K('doublet_line_polar_u', kern.rand(rng, 'doublet_line_polar_u'))
        k.emit(c, k.points(rng, npt, dmin=.1), tol=1e-7)
        L = k.Lref()
        # axis upstream, origin, the line itself, rotor plane
        k.emit(c, L * np.array([[0, 0, -1], [0, 0, -30.], [.3, 0, 0], [2., 0, 0], [0, 0, 2.], [0, 0, 0], [0, .2, 0], [.5, 0, 40.]]), tol=1e-7)
        for q in range(6):      # close to the line, or to its prolongation upstream, one by one
            z, h, th = 10 ** rng.uniform(-.5, 3.5), 10 ** rng.uniform(-7.5, -2), rng.uniform(0, 6.28)
            k.emit(c, np.array([[h * np.cos(th), h * np.sin(th), z if q % 3 else -z]]), tol=1e-7, sc=abs(k.p['g']) / (4 * np.pi * z ** 2))
        for m0 in (0., None):
            p = kern.rand(rng, 'doublet_line_u', skew=m0)
            for LL in (np.inf, p['lref'] * float(rng.uniform(.5, 12)), p['lref'] * 500):
                k = K('doublet_line_u', dict(p, L=LL))
                k.emit(c, k.points(rng, npt, dmin=.3), tol=2e-7)
                m = k.v('m')
                for q in range(4):      # close to the line, or to its prolongation, one by one
                    h, z, th = k.Lref() * 10 ** rng.uniform(-6, -1), k.Lref() * float(rng.choice([-1., 1.])) * 10 ** rng.uniform(-1, 2), rng.uniform(0, 6.28)
                    d = abs(z) if z < 0 else abs(z - LL) if z > LL else h
                    if z > LL and (h > .1 * d or d < .1 * LL): continue
                    s1 = abs(p['g']) / (4 * np.pi) * ((1 / z ** 2 - (0 if LL == np.inf else 1 / (z - LL) ** 2)) if z < 0 or z > LL else 1 / z ** 2 + m / h ** 2)
                    k.emit(c, np.array([[m * z + h * np.cos(th), h * np.sin(th), z]]), tol=1e-4, sc=abs(s1))
                S = k.Lref() * np.array([[m * a, 0, a] for a in (0., .3, 2.)])
                if LL == np.inf or LL > 2.1 * k.Lref():
                    k.emit(c, S)
                if LL != np.inf:        # the prolongation of the line, beyond its end
                    for b in (1.05, 1.5, 4.):
                        k.emit(c, LL * b * np.array([[m, 0, 1.]]), tol=1e-6, sc=abs(p['g']) / LL ** 2 * (1 / (b - 1) ** 2 - 1 / b ** 2))
                k.emit(c, k.Lref() * np.array([[-m * a * 0, 0, -a] for a in (.5, 2.)] if LL == np.inf else [[.4, .3, -a] for a in (.5, 2.)]), tol=1e-7)
            for q in range(3):      # short lines
                r = k.Lref()
                LL = r * float(10 ** rng.uniform(-4, -.5))
                d = rng.normal(size=3)
                d *= r * rng.uniform(.5, 3) / np.linalg.norm(d)
                K('doublet_line_u', dict(p, L=LL)).emit(c, d[None, :], tol=1e-5, sc=abs(p['g']) * LL / (4 * np.pi * np.linalg.norm(d) ** 3))
        # agreement of the straight versions
        g = kern.sgn(rng) * rng.uniform(.2, 3)
        a = K('doublet_line_polar_u', dict(g=g), 'pol2')
        P = np.array([q for q in a.points(rng, npt, dmin=.3) if q[2] < 12])
        P = np.array([np.hypot(P[:, 0], P[:, 1]), 0 * P[:, 0], P[:, 2]]).T
        ia = a.emit(c, P, tol=1e-7)
        K('doublet_line_u', dict(g=g, m=0.)).emit(c, P, chk=['krel'], rel=[dict(k='agree', a=ia)], tol=1e-7)
        # quadrature versions
        for f in ('doublet_line_u_num', 'doublet_line_polar_u_num'):
            k = K(f, kern.rand(rng, f))
            P = k.points(rng, 6, dmin=.6)
            k.emit(c, P, chk=['num'], tol=1e-4 if not rec.thorough else 1e-4)
    # closed-form integrals
    import wiz.VortexDoublet as VD
    for name in ('I30', 'tI50', 'tI51', 'tI52'):
        F = getattr(VD, name, None)
        if F is None:
            continue
        for m in (0., .3, -1., 3.):
            c = rec.chunk('integrals')
            P = np.array([q for q in K('doublet_line_u', dict(g=1., m=m)).points(rng, 25, dmin=.2) if q[2] < 8])
            c.kernel(name, lambda X, Y, Z, F=F, m=m: [F(np.sqrt(X**2 + Y**2 + Z**2), m * X + Z, np.sqrt(1 + m**2))], P, dict(m=num(m)), chk=['integral'], tol=1e-7)
    for name in ('I30_num', 'I50_num', 'I51_num', 'I52_num'):
        F = getattr(VD, name, None)
        if F is None:
            continue
        c = rec.chunk('integrals')
        m = float(rng.uniform(-.8, .8))
        P = np.array([[.8, .3, .4], [1.2, -.7, -1.], [.5, .9, 2.5]])
        c.kernel(name, lambda X, Y, Z: [np.array([F(x, y, z, m, nQuad=400000, zmax=2000) for x, y, z in zip(X, Y, Z)])], P, dict(m=num(m)), chk=['integral'], tol=3e-4)


def models(rec):
    return mc.run(rec, 'doublets')
