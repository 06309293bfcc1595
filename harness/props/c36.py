"""C36: profiles and error measures taken from stored planes"""
import numpy as np
from rec import num, nums, call, digest
from props.c31 import modules
LEVEL = 'exploration'
RULE = 'planes of random sizes and spacings, horizontal and vertical; profiles, centre values, interpolants and error measures judged by the interpolation of the specification'


def plane(rng, B, cubic=False):
    nx, nz = int(rng.integers(4 if cubic else 1, 9)), int(rng.integers(4 if cubic else 1, 9))
    def ax(n):
        a = np.cumsum(rng.uniform(.3, 1., n))
        a = a - a[rng.integers(n)] + (0. if rng.random() < .5 else float(rng.uniform(-.4, .4)))
        return a
    x, z = ax(nx), ax(nz)
    ad = B.OutputAD()
    ad.Horizontal = bool(rng.random() < .5)
    ad.Vertical = not ad.Horizontal
    U, V, W = [rng.normal(size=(nz, nx)) * 10 ** rng.uniform(-2, 2) for _ in range(3)]
    if ad.Horizontal:
        ad.x, ad.z, ad.y = x, z, 0
        ad.X, ad.Z = np.meshgrid(x, z); ad.Y = ad.X * 0
    else:
        ad.y, ad.z, ad.x = x, z, 0
        ad.Y, ad.Z = np.meshgrid(x, z); ad.X = ad.Y * 0
    ad.U, ad.V, ad.W = U, V, W
    ad.HH = float(rng.choice([1.5, 9999.]))
    return ad, x, z, (U, V, W)


def build(rec):
    _, B = modules()
    rng = rec.rng
    for i in range(800 if rec.thorough else 200):
        c = rec.chunk('plane')
        ad, x, z, F = plane(rng, B)
        watch = [x, z] + list(F)
        args = dict(x=nums(x), z=nums(z), U=nums(F[0]), V=nums(F[1]), W=nums(F[2]), z0='0', zero=0)
        sc = max(1e-30, max(float(np.abs(f).max()) for f in F))
        q = ends(rng, z, int(rng.integers(1, 6)))
        c.func('fAxial', lambda X: ad.fAxial(X), q, args, ['ok', 'profile'], tol=1e-12, sc=sc, watch=watch)
        z0 = 0. if rng.random() < .4 else float(z[rng.integers(len(z))]) if rng.random() < .5 else float(rng.uniform(z[0] - .5, z[-1] + .5))
        while len(z) > 1 and np.min(np.abs(np.diff(np.sort(np.abs(z - z0))))) < 1e-9: z0 += .01
        q = ends(rng, x, int(rng.integers(1, 6)))
        c.func('fRadial', (lambda X: ad.fRadial(X)) if z0 == 0 and rng.random() < .5 else (lambda X: ad.fRadial(X, z0=z0)), q, dict(args, z0=num(z0)), ['ok', 'profile'], tol=1e-12, sc=sc, watch=watch)
        c.func('fCenter', lambda X: [np.asarray(ad.fCenter())], 0., args, ['ok', 'profile'], sc=sc, watch=watch)
        v = float(rng.uniform(x[0] - 1, x[-1] + 1))
        def near(X):
            a, k = B.find_nearest(x if rng.random() < .5 else x.tolist(), v)
            return [np.asarray(a), np.asarray(k)]
        c.func('find_nearest', near, v, args, ['ok', 'profile'], watch=watch)
        # interpolants: the stored values at the nodes
        if i % 2:
            ad, x, z, F = plane(rng, B, cubic=True)
            args = dict(x=nums(x), z=nums(z), U=nums(F[0]), V=nums(F[1]), W=nums(F[2]), z0='0')
            sc = max(float(np.abs(f).max()) for f in F)
            call(ad.setupInterpolants)
            n = int(rng.integers(1, 7))
            ix, iz = rng.integers(len(x), size=n), rng.integers(len(z), size=n)
            X, Z = x[ix], z[iz]
            junk = rng.normal(size=n)
            if n == 6 and rng.random() < .7: X, Z, junk = X.reshape(2, 3), Z.reshape(2, 3), junk.reshape(2, 3)
            for f in ('fU', 'fW'):
                fn = getattr(ad, f)
                c.func(f, lambda a, b: fn(a, junk, b) if ad.Horizontal else fn(junk, a, b), X, dict(args, zero=2 if ad.Horizontal else 1), ['ok', 'profile'], Y=Z, tol=1e-9, sc=sc, watch=[junk] + list(F))
        # error measures
        n = int(rng.integers(2, 9))
        X = np.sort(rng.uniform(-6, 2, n))
        X = X + np.arange(n) * 1e-3
        u1, u2 = rng.uniform(.3, 2, n), rng.uniform(.3, 2, n)
        lo, hi = (-4.99, -1.) if rng.random() < .4 else (float(rng.uniform(-6, -3)), float(rng.uniform(-2.5, 1)))
        a = dict(x=nums(X), u1=nums(u1), u2=nums(u2), lo=num(lo), hi=num(hi), p='', ct='0')
        kw = {} if lo == -4.99 and rng.random() < .7 else dict(x1=lo, x2=hi)
        for f in ('relerrinduction', 'relerrinduction_mid', 'relerrinduction_25'):
            g = getattr(B, f)
            c.func(f, lambda Y: [np.asarray(g(Y, u1, u2, **(kw if f == 'relerrinduction' else {})))], X, a, ['ok', 'error'], tol=1e-11, sc=100., watch=[u1, u2])
        p = rng.normal(size=4)
        ct = rng.uniform(0, 1.2) if rng.random() < .5 else 0.
        c.func('gamma_CT_fun', lambda Y: [np.asarray(B.gamma_CT_fun(float(Y), *p))], ct, dict(a, p=nums(p), ct=num(ct)), ['ok', 'error'], tol=1e-12, sc=10.)


def ends(rng, a, n):
    q = rng.uniform(a[0] - 1, a[-1] + 1, n)
    for k in range(n):
        if rng.random() < .3: q[k] = a[rng.integers(len(a))]
    return q
