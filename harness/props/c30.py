"""C30: rotor-plane expansions, components, legacy wrappers"""
import models as mc
import numpy as np
import kern
from kern import K
import wiz.VortexCylinderSkewed as V
from rec import num, nums
LEVEL = 'exploration'
RULE = 'expansion functions compared to their defining integrals, in-plane velocities, component rotations and wrappers compared value by value'


def build(rec):
    rng = rec.rng
    N = 100 if rec.thorough else 24
    for i in range(N):
        c = rec.chunk('expansions')
        m = float(rng.choice([0., .01, .3, 1., 3.])) if rng.random() < .4 else float(np.tan(rng.uniform(.02, 1.35)))
        if i % 4 == 1: m = 0.
        if rng.random() < .4: m = -m
        n = int(rng.integers(1, 8))
        r = rng.uniform(.02, .93, n)
        if rng.random() < .4: r = np.append(r, [0., .5])
        r = r[rng.permutation(len(r))]
        tol = 2e-5
        kx = lambda x: list(V.fKxit(x, m))
        kx2 = lambda x: kx(x)[:2]
        # the closed forms cancel like 1/m^2 (expressions (b1+j2)Pi1+(b2-j2)Pi2 near m=0)
        cond = max(1., 1e-9 / (m * m + 1e-30) / tol) if m else 1.
        if m == 0 or abs(m) >= .01:
            c.func('fKxit', kx, r, dict(m=num(m)), ['kfun'], tol=tol * cond, nout=3)
        if m != 0:
            for nout in (1, 2, 3, 4, 6):
                def kz(x, nout=nout):
                    o = V.fKzt(x, m, nout=nout)
                    return [o] if isinstance(o, np.ndarray) else list(o)
                cnt = nout
                c.func('fKzt', kz, r, dict(m=num(m)), ['kfun'], tol=tol, nout=cnt)
        # next to the axis, where they vanish with the radius
        r = 10 ** rng.uniform(-6.5, -1.5, 4)
        for x in (r[:1], np.sort(r[1:])):
            x = x if len(x) == 1 else x.max() * np.array([1., .8, .5])
            tol = float(1e-4 * x.max())
            if m == 0 or abs(m) >= .01:
                c.func('fKxit', kx2, x, dict(m=num(m)), ['kfun'], tol=tol * max(1., 1e-9 / (m * m + 1e-30) / 1e-4) if m else max(tol, 1e-9), nout=2)
            if m != 0:
                c.func('fKzt', lambda x: list(V.fKzt(x, m, nout=2)), x, dict(m=num(m)), ['kfun'], tol=tol, nout=2)
    for i in range(N):
        c = rec.chunk('rotor plane')
        m = float(np.tan(rng.uniform(.05, 1.3))) * kern.sgn(rng)
        g = kern.sgn(rng) * float(rng.uniform(.3, 3))
        x = rng.uniform(.03, .78, 8)   # the wrapper uses 180 azimuths, inaccurate close to the rim
        psi = rng.uniform(-np.pi, np.pi, 8)
        psi[:3] = 0.
        P = np.array([x * np.cos(psi), x * np.sin(psi), 0 * x]).T
        P[:3, 1] = 0.
        if True:
            k = K('fV_Tangential', dict(g=g, m=m), 'leg', 7)
            c.kernel('fV_Tangential', k.fn, P_polar(x, psi), k.args(), inp='rpz', form='leg', chk=['rotor', 'kabs'], tol=2e-6, sc=abs(g), extra=dict(nout=7))
        for f in ('fV_Tangential', 'fV_Trailed', 'fV_Root'):
            base = {'fV_Tangential': 'svc_tang_u_polar', 'fV_Trailed': 'svc_longi_u_polar', 'fV_Root': 'svc_root_u_polar'}[f]
            p = dict(g=g, m=m)
            k = K(f, p, 'leg', 7)
            Q = k.points(rng, 8, dmin=.2)
            b = K(base, dict(p, R=1.) if f != 'fV_Root' else p, 'cart').emit(c, Q, chk=[])
            k.emit(c, Q, chk=['krel', 'kabs'], rel=[dict(k='agree', a=b)], tol=1e-7)
            for no in range(1, 7):
                kk = K(f, p, 'leg', no)
                kk.emit(c, Q, chk=['kabs'], tol=1e-7)
        # all three vorticities together
        q = dict(kern.rand(rng, 'svc_u_polar'), m=m, R=1.)
        for z in ('gt', 'gl', 'gr'):
            if rng.random() < .2: q[z] = 0.
        Q = K('svc_u_polar', q).points(rng, 8, dmin=.2)
        tot = sum(abs(q[z]) for z in ('gt', 'gl', 'gr')) or 1.
        parts = [K(f, dict(g=q[z], R=1., m=m) if f != 'svc_root_u_polar' else dict(g=q[z], m=m), 'cart').emit(c, Q, chk=[]) for f, z in (('svc_tang_u_polar', 'gt'), ('svc_longi_u_polar', 'gl'), ('svc_root_u_polar', 'gr'))]
        K('svc_u_polar', q, 'cart').emit(c, Q, chk=['kabs', 'krel'], rel=[dict(k='sum', u='', a=parts)], tol=1e-7, sc=tot, shape=[None, (1, len(Q)), (len(Q), 1)][rng.integers(3)])
        K('svc_u_polar', q, 'pol3').emit(c, Q, chk=['kabs'], tol=1e-7, sc=tot, shape=[None, (1, len(Q)), (len(Q), 1)][rng.integers(3)])
        # components
        n = int(rng.integers(1, 9))
        ux, uy, uz, ps = rng.normal(size=n), rng.normal(size=n), rng.normal(size=n), rng.uniform(-7, 7, n)
        sh = (n,) if i % 3 == 0 else (1, n) if i % 3 == 1 else (n, 1)
        if i % 5 == 0:
            ux = m * uz * (1 + rng.choice([0., 1e-9, 1e-6], n))    # along the wake
        c.kernel('skew_components', lambda X, Y, Z: [np.reshape(q, n) for q in V.skew_components(X.reshape(sh), Z.reshape(sh), m)], np.array([ux, uy, uz]).T, dict(m=num(m)), chk=['comp'], form='none', tol=1e-12)
        mt = float(kern.sgn(rng) * 10 ** rng.uniform(-10, -6))      # hardly skewed: the small component counts
        ux, uz = rng.normal(size=n), rng.normal(size=n) * 1e-3 / abs(mt)
        for vx, vz, s in ((ux, uz, 1e-3 / abs(mt)), (uz, ux, 1e-3 / abs(mt)), (ux * 1e-3, uz * abs(mt) / 1e-3 , 1.)):
            c.kernel('skew_components', lambda X, Y, Z: [np.reshape(q, n) for q in V.skew_components(X, Z, mt)], np.array([vx, uy, vz]).T, dict(m=num(mt)), chk=['comp'], form='none', tol=1e-15, sc=4 * s)
        c.kernel('polar_components', lambda X, Y, Z: [np.reshape(q, n) for q in V.polar_components(X.reshape(sh), Y.reshape(sh), ps.reshape(sh))], np.array([ux, uy, uz]).T, dict(psi=nums(ps)), chk=['comp'], form='none', tol=1e-12, watch=[ps])


def P_polar(x, psi):
    return np.array([x, psi, 0 * x]).T


def models(rec):
    return mc.run(rec, 'plane')
