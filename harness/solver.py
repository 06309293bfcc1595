"""Calls of the loading functions (wiz/Solver.py)"""
import numpy as np
import wiz.Solver as S
from rec import num, nums
import gen


def pack(res):
    gt, gl, gr, misc = res
    one = lambda x: None if x is None else np.atleast_1d(np.asarray(x, float))
    return [one(gt), one(gl), one(gr), one(misc['a']), one(misc['a_prime']), one(misc['h'])]


def radii(rng, n, R):
    k = rng.integers(4)
    if n == 1:
        return np.array([.995 * R]) if k else np.array([rng.uniform(.6, 1) * R])
    if k == 0:
        return gen.stations(R, n)
    if k == 1:
        return np.linspace(rng.uniform(.05, .3), rng.uniform(.8, .99), n) * R
    r = np.sort(rng.uniform(.05, .98, n))
    r += np.arange(n) * 1e-3
    return r * R


def profile(rng, x, top=None):
    """a smooth or rough distribution over x in (0,1)"""
    k = rng.integers(5)
    c = rng.uniform(.1, .85) if top is None else top
    if k == 0:
        return np.full(len(x), c)
    if k == 1:
        return c * np.minimum(1, x / rng.uniform(.1, .5))
    if k == 2:
        return c * (1 - x ** 2) + .02
    if k == 3:
        return c * rng.uniform(.6, 1, len(x))
    return c * np.sqrt(np.maximum(0, np.sin(np.pi * np.clip(x, 0, 1)))) + .05


def vorticity(rec, c, f, n, chk=None, lam=None):
    rng = rec.rng
    R = float(rng.choice([1., 8., 63., .1]))
    U0 = float(rng.choice([1., 4., 10., 22.]))
    r = radii(rng, n, R)
    L = float(rng.choice([3., 5., 7.5, 10., 15., 19.9, 20., 25., 80.])) if lam is None else lam
    if f != 'WakeVorticityFromCirculation_Discr' and rng.random() < .15:
        L = np.inf
    if f == 'WakeVorticityFromCt' and L < 20 and r[0] < .1 * R:
        # the circulation is found by a minimisation (xatol 1e-5); its error is amplified by 1/lambda_r^2
        r = np.linspace(.1, .995, n) * R if n > 1 else r
    Le = 1e4 if L == np.inf else L
    Om = L * U0 / R
    Ct = profile(rng, r / R, None if rng.random() < .8 else 1.05)
    if chk is None:
        chk = ['discr', 'discrfound', 'balance'] if n > 1 else ['discrfound', 'balance']
    a = dict(R=num(R), U0=num(U0), Om=num(Om))
    # k from Ct
    lr = Le * r / R
    sw = Le < 20
    k = 2 * lr ** 2 * (np.sqrt(1 + np.maximum(Ct, 0) / lr ** 2) - 1) if sw else Ct
    if f == 'WakeVorticityFromCt':
        watch = [Ct]
        a.update(Ct=nums(Ct))
        fn = lambda x: S.WakeVorticityFromCt(x, Ct, R, U0, Om)
        tol = 2e-4 if sw else 1e-9
    elif f == 'WakeVorticityFromGamma':
        G = k * np.pi * U0 ** 2 / (Le * U0 / R)
        watch = [G]
        a.update(G=nums(G))
        fn = lambda x: S.WakeVorticityFromGamma(x, G, R, U0, Om)
        tol = 1e-9
    else:
        nB = int(rng.choice([1, 2, 3]))
        swirl, tan, high = [bool(rng.random() < p) for p in (.6, .8, .7)]
        if not high:
            k = k * min(1, .75 / np.max(np.abs(k)))
        G = k * np.pi * U0 ** 2 / Om / nB
        rc = None
        if rng.random() < .3:
            rc = r + (np.append(np.diff(r), r[-1] - r[-2]) * rng.uniform(.1, .9) if n > 1 else .005 * R)
        watch = [G] + ([rc] if rc is not None else [])
        a.update(G=nums(G), nB=num(nB), rcyl='' if rc is None else nums(rc), swirl='1' if swirl else '0', tan='1' if tan else '0', high='1' if high else '0')
        kw = {}
        if rng.random() < .7 or not tan: kw['bTanInd_k'] = tan
        if rng.random() < .7 or not high: kw['bHighThrustCorr'] = high
        if rc is not None: kw['r_cyl'] = rc
        fn = lambda x: S.WakeVorticityFromCirculation_Discr(x, G, R, U0, Om, nB, swirl, **kw)
        tol = 1e-9
    return c.func(f, fn, r, a, chk, tol=tol, watch=watch, results=pack)
