"""C20: complete elliptic integral of the third kind"""
import models as mc
import numpy as np
LEVEL = 'exploration'
RULE = 'values of ellipticPiCarlson(n,m) compared one by one to the integral of the specification'


def build(rec):
    import wiz.elliptic as el
    rng = rec.rng
    f = el.ellipticPiCarlson
    def one(n, m, tol=1e-9):
        n, m = np.asarray(n, float), np.asarray(m, float)
        def fn(a, b):
            if rng.random() < .15:      # other forms: lists, numbers
                if len(a) == 1 and rng.random() < .5: return [np.atleast_1d(f(float(a[0]), float(b[0])))]
                return [np.atleast_1d(f(a.tolist(), b.tolist()))]
            if rng.random() > .35:
                return [np.atleast_1d(f(a, b))]
            # among others: any values, also of no meaning
            N = len(a) + int(rng.choice([1, 2, 5, 3000]))
            sel = np.sort(rng.permutation(N)[:len(a)])
            A, B = rng.uniform(-3, .99, N), rng.uniform(-3, .99, N)
            for q in rng.integers(0, N, 3):
                (A if rng.random() < .5 else B)[q] = rng.choice([np.nan, np.inf, -np.inf, 1., 1.5, 1e30, -1e30])
            A[sel], B[sel] = a, b
            return [np.atleast_1d(f(A, B))[sel]]
        c.func('ellipticPiCarlson', fn, n, {}, ['elliptic'], Y=m, tol=tol)
    N = 400 if rec.thorough else 60
    grid = np.array([-300, -30, -3, -1, -.3, -1e-3, -1e-9, 0, 1e-9, 1e-3, .1, .3, .5, .7, .9, .99, .999, 1 - 1e-6, 1 - 1e-9])
    c = rec.chunk('grid')
    for n in grid:
        one(np.full(len(grid), n), grid)
        one(grid, np.full(len(grid), n))
    for n in grid[::3]:
        for m in grid[::4]:
            one([n], [m])
    nn, mm = np.meshgrid(grid, grid)
    one(nn.ravel(), mm.ravel())
    p = rng.permutation(nn.size)
    one(nn.ravel()[p], mm.ravel()[p])
    for i in range(N):
        c = rec.chunk('mixed')
        k = int(rng.integers(1, 40))
        def draw(k):
            u = rng.random(k)
            return np.where(u < .3, rng.uniform(-1, .999, k), np.where(u < .5, -10 ** rng.uniform(-6, 2.5, k), np.where(u < .8, 1 - 10 ** rng.uniform(-9, 0, k), 10 ** rng.uniform(-9, -.01, k))))
        n, m = draw(k), draw(k)
        if rng.random() < .3:
            n[rng.integers(k)] = 1.
        if rng.random() < .2:
            m[rng.integers(k)] = 0.
        one(n, m)
        j = rng.integers(k)
        one(n[j:j + 1], m[j:j + 1])
    # very negative characteristics and parameters, and both next to one
    c = rec.chunk('far')
    for i in range(8):
        big = -10 ** rng.uniform(2.5, 8, 12)
        one(big, rng.uniform(-3, .99, 12), tol=1e-8)
        one(rng.uniform(-3, .99, 12), big, tol=1e-8)
        one(1 - 10 ** rng.uniform(-12, -6, 12), rng.uniform(-3, .99, 12), tol=1e-5)
        one(1 - 2 ** -53. * rng.integers(1, 2 ** int(rng.integers(1, 14)), 6), rng.uniform(-3, .99, 6), tol=1e-5)
    c = rec.chunk('infinite')
    one([1., 1., 1.], [0., .5, -3.])
    one([1., .3, 1., -2.], [.9, .5, -3., .2])
    c.func('ellipticPiCarlson', lambda a: [np.atleast_1d(f(float(a[0]), float(a[1])))], [.3, .4], {}, [], tol=1e-9)


def models(rec):
    return mc.run(rec, 'elliptic')
