"""C21: 2D vortex points"""
import models as mc
import numpy as np
from rec import num, nums
LEVEL = 'exploration'
RULE = 'calls of vp_u and vps_u compared point by point to the sum of the (damped) point velocities'


def build(rec):
    import wiz.VortexPoint as VP
    rng = rec.rng
    N = 150 if rec.thorough else 25
    combos = [(0, 2), (0, 0)] + [(1, o) for o in (2, 4, 6, 8)] + [(2, o) for o in (2, 4, 6, 8, 10)]
    for i in range(N):
        c = rec.chunk('points')
        for model, order in combos:
            nd = int(rng.choice([2, 3]))
            nv, nc = int(rng.integers(1, 7)), int(rng.integers(1, 12))
            if rng.random() < .08: nv, nc = (int(rng.integers(60, 400)), nc) if rng.random() < .6 else (nv, int(rng.integers(60, 400)))
            L = float(rng.choice([1., 1., .01, 50.]))
            XV, CP = rng.normal(size=(nv, nd)) * L, rng.normal(size=(nc, nd)) * L
            if rng.random() < .5:       # control points on vortices
                for q in range(min(nc, nv)):
                    if rng.random() < .6: CP[q] = XV[q]
            near = 0.
            if rng.random() < .3:       # and very close to them
                near = float(10 ** rng.uniform(-5, -2))
                for q in range(min(nc, nv)):
                    if rng.random() < .5:
                        w = rng.uniform(0, 7)
                        CP[q] = XV[q]; CP[q, :2] += near * np.array([np.cos(w), np.sin(w)])
            if rng.random() < .25:      # far from the origin
                far = rng.normal(size=nd) * 10 ** rng.uniform(2, 5) * L
                XV, CP = XV + far, CP + far
            if nd == 3:
                XV[:, 2] *= rng.integers(2); CP[:, 2] *= rng.integers(2)
            G = rng.normal(size=nv) * 2
            if rng.random() < .3: G = G * 10 ** rng.uniform(-6, 3, nv)
            if rng.random() < .2: G[rng.integers(nv)] = 0.
            sp = L * rng.choice([.05, .3, 1., 3.], nv)
            def fn(CP):
                kw = dict(SmoothModel=model, KernelOrder=order, SmoothParam=sp) if model else (dict(SmoothModel=0) if rng.random() < .5 else {})
                return VP.vps_u(CP, XV, G, **kw)
            c.func('vps_u', lambda X: fn(CP), CP[:, 0], dict(vx=nums(XV[:, 0]), vy=nums(XV[:, 1]), g=nums(G), sp=nums(sp), model=model, order=order), ['points'], Y=None,
                   watch=[CP, XV, G, sp], results=lambda U: [U[:, k] for k in range(U.shape[1])], tol=1e-10, sc=float(np.sum(np.abs(G)) / min([.02 * L] + [d for d in np.hypot(*(CP[:, None, :2] - XV[None, :, :2]).T).ravel() if d > 1e-8])), ndim=nd)
            c.ev[-1]['Y'] = nums(CP[:, 1])
        # kernels that do not exist are refused
        model, order = [(1, 10), (1, 3), (2, 12), (2, 5), (3, 2), (7, 4), (-1, 2), (1, 12)][rng.integers(8)]
        c.func('vps_u', lambda X: VP.vps_u(CP, XV, G, SmoothModel=model, KernelOrder=order, SmoothParam=sp), CP[:, 0], {}, ['refused'], results=lambda U: [U[:, 0]])
        for visc in (False, True):
            v, x = rng.normal(size=2) * 2, rng.normal(size=2)
            g, rc = rng.normal() * 2, float(rng.uniform(.1, 2))
            c.func('vp_u', lambda X: VP.vp_u(X, v, g, rc, visc) if visc else VP.vp_u(X, v, g), x, dict(x=num(x[0]), y=num(x[1]), vx=num(v[0]), vy=num(v[1]), g=num(g), rc=num(rc), viscous='1' if visc else '0'),
                   ['points'], watch=[v], results=lambda u: [np.atleast_1d(u[0]), np.atleast_1d(u[1])], tol=1e-10, sc=abs(g) * 5)


def models(rec):
    return mc.run(rec, 'points')
