"""C26: grid layouts and constant-thrust grid farms"""
import models as mc
import numpy as np
import kern, gen
from wiz.WindFarm import gridLayout, windfarm_gridlayout_CTconst
from rec import num
LEVEL = 'exploration'
RULE = 'grid layouts compared position by position, grid-farm velocities compared point by point to the sum of tubes of the specification'


def build(rec):
    rng = rec.rng
    sizes = [(nx, nz) for nx in range(1, 8) for nz in range(1, 6)] + [(1, 12), (20, 1), (13, 7), (2, 25), (30, 2), (1, 40), (1, 110), (110, 1)]
    for nx, nz in sizes:
        for mirror in (False, True):
            c = rec.chunk('layout')
            xs, zs, hh = float(rng.uniform(.5, 8)), float(rng.uniform(.5, 8)), float(rng.uniform(-1, 4)) * (rng.random() < .8)
            if rng.random() < .35: xs = int(rng.integers(1, 9))      # whole numbers are numbers too
            if rng.random() < .2: zs = int(rng.integers(1, 9))
            if rng.random() < .15: xs = -xs       # the other way
            if rng.random() < .1: zs = -zs
            for z in (zs, None) + ((0.,) if rng.random() < .3 else ()):
                a = dict(nx=int(nx), nz=int(nz), xs=num(xs), zs='' if z is None else num(z), hh=num(hh), mirror='1' if mirror else '0')
                kw = {}
                if z is not None: kw['zSpacing'] = z
                if hh != 0 or rng.random() < .5: kw['hub_height'] = hh
                if mirror or rng.random() < .5: kw['mirror'] = mirror
                c.func('gridLayout', lambda X: gridLayout(nx, xs, nz, **kw), [0.], a, ['grid'], tol=1e-12)
                if rng.random() < .3 and z is not None:   # positional
                    c.func('gridLayout', lambda X: gridLayout(nx, xs, nz, z, hh, mirror), [0.], a, ['grid'], tol=1e-12)
    N = 60 if rec.thorough else 14
    for i in range(N):
        c = rec.chunk('farm')
        nx, nz = int(rng.integers(1, 5)), int(rng.integers(1, 4))
        R = float(rng.choice([1., 40., .5]))
        xs, zs = R * rng.uniform(2.5, 6), R * rng.uniform(3, 8)
        hh = R * float(rng.choice([0., 1.2, 2.5]))
        mirror = bool(rng.random() < .6)
        CT, U0 = float(rng.uniform(.05, .99) if i % 3 else [-.4, -2., 1., 1e-6, 1 - 1e-6, 0.][i // 3 % 6]), float(rng.choice([1., 10., -7.]))
        if hh == 0: mirror = False
        z = zs if rng.random() < .8 else None
        zz = zs if z is not None else xs
        a = dict(nx=nx, nz=nz, xs=num(xs), zs='' if z is None else num(z), hh=num(hh), mirror='1' if mirror else '0', R=num(R), U0=num(U0), CT=num(CT))
        C = [((k % nx - nx // 2) * xs, s * hh, k // nx * zz) for k in range(nx * nz) for s in ((1, -1) if mirror else (1,))]
        P = []
        while len(P) < 18:
            q = np.array(C[rng.integers(len(C))]) + R * np.array(gen.raw_points(rng, 1, 1., 0.)[0])
            if min(gen.tube_dist(q - np.array(cc), R, 0.) for cc in C) > .1 * R:
                P.append(q)
        P = np.vstack([P, C])     # the rotor centres too
        P = np.array([q for q in P if min(gen.tube_dist(q - np.array(cc), R, 0.) for cc in C) > .05 * R])
        c.kernel('windfarm_gridlayout_CTconst', lambda X, Y, Z: windfarm_gridlayout_CTconst(X, Y, Z, R, CT, U0, nx, xs, nz, z, hub_height=hh, mirror=mirror), P, a, chk=['kabs'], tol=1e-8, sc=abs(U0))
        c.kernel('windfarm_gridlayout_CTconst', lambda X, Y, Z: windfarm_gridlayout_CTconst(X, Y, Z, R, CT, U0, nx, xs, nz, z, hh, mirror), P[::2][:len(P) // 2 // 2 * 2], a, chk=['kabs'], tol=1e-8, sc=abs(U0), shape=(2, -1))


def models(rec):
    return mc.run(rec, 'tubes')
