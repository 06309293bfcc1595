"""C22: one-cylinder loading"""
import models as mc
import numpy as np
import gen, solver
from rec import num
LEVEL = 'model_checking'
RULE = 'loadings of one-cylinder turbines whose velocities (centre, axis, wake, components) and vorticities are compared to the momentum relation of the specification'


def build(rec):
    rng = rec.rng
    N = 250 if rec.thorough else 45
    for i in range(N):
        c = rec.chunk('turbine')
        s, v = gen.rand_frame(rng)
        R = float(rng.choice([1., 0.05, 8., 63., 120.]))
        speed = float(rng.choice([1., 3., 10., 17.5]))
        yaw = float(rng.choice([0., .6, -1.1]))
        ang = yaw if rng.random() < .6 else yaw + float(rng.uniform(-1, 1))
        c.new(0, R=R, shaft=s, vert=v, hub=rng.uniform(-3, 3, 3) * R, wind=gen.horiz_wind(rng, s, v, ang, speed), lam=None if rng.random() < .6 else float(rng.choice([4., 7., 30.])))
        c.yaw(0, yaw)
        P0 = c.sh[0].to_global(R * np.array([[.3, -.2, -.1], [1.5, .7, -1]]))
        sh = c.sh[0]
        for j in range(6):
            lam = [None, 3., 6.5, 9., 19.9, 20.1, 25., 60., np.inf, float(rng.choice([.4, .8, 1.5]))][rng.integers(10)]
            L = sh.lam if lam is None else lam
            swirl = L < 20
            C = float(rng.choice([0., 1e-3, .1, .4, .7, .85, .8976 * (1 - 1e-9), .8976 * (1 + 1e-9), .95, 1.1, 1.3])) if rng.random() < .5 else float(rng.uniform(0, 1.2))
            kind = ['Ct', 'Ct', 'Gamma', 'fun'][rng.integers(4)]
            law = (float(rng.uniform(-1, 0)), float(rng.uniform(-6, -1))) if kind == 'fun' else None
            nr = int(rng.integers(1, 9)) if rng.random() < .85 else int(rng.choice([60, 150, 300, 1200]))
            r = np.sort(rng.uniform(0, 1, nr)) * R
            w = rng.uniform(-1, 1, nr)
            w = w - w.mean()
            u0 = np.linalg.norm(sh.wind)
            x = C if kind != 'Gamma' else C * np.pi * u0 * R / (1e4 if L == np.inf else L)
            shapes = [(None, np.array(x)), (r, np.full(nr, x)), (r, x * (1 + .5 * w))]
            P = sh.to_global(R * np.array([[0, 0, 0.], [.3, -.2, 0], [0, 0, -1.], [0.1, 0.2, -.4], [1.5, .7, -1], [0, 2., .8]]))
            if j and rng.random() < .3:      # refused: the vorticity stays what it was
                a = c.query(0, P0, chk=['outcome'], only_ind=True, longi=True, root=True)
                c.somebad(0)
                c.query(0, P0, chk=['outcome', 'rel'], rel=[dict(k='equal', a=a)], only_ind=True, longi=True, root=True, tol=1e-13, sc=speed)
            prev = None
            tol = 6e-5 if (kind == 'Ct' and swirl) else 1e-6
            for rr, vv in shapes:
                c.load(0, kind, vv, r=rr, lam=lam, law=law)
                q = c.query(0, P, chk=['outcome', 'abs'] + (['rel'] if prev else []), rel=[dict(k='equal', a=prev)] if prev else None, only_ind=True, tol=max(tol, 1e-9), sc=speed)
                prev = q
            c.query(0, P[:1], chk=['rel'], rel=[dict(k='axis')], only_ind=True, tol=tol, sc=speed)
            if kind != 'fun':
                c.query(0, P[1:], chk=['outcome', 'abs'], only_ind=True, longi=True, root=True, tang=False, tol=max(tol * 3, 1e-6), sc=speed)
            if C == 0. and kind != 'fun':
                c.query(0, P, chk=['rel'], rel=[dict(k='zero')], only_ind=True, longi=True, root=True, tol=1e-12, sc=speed)
            # the wind of the loading, then of the query
            if rng.random() < .3:
                c.wind(0, sh.wind * rng.uniform(.5, 1.5))
                c.query(0, P, chk=['outcome', 'abs'], tol=tol, sc=speed)
                speed = float(np.linalg.norm(sh.wind))
        # far wake: twice the induction at the rotor
        c.load(0, 'Ct', np.array(.6), lam=np.inf)
        m = sh.m()
        c.query(0, sh.to_global(R * np.array([[200. * m, 0, 200.], [200 * m + .3, .2, 200.]])), chk=['outcome', 'abs'], only_ind=True, tol=1e-6, sc=speed)
    # the functions themselves
    for i in range(4 * N):
        c = rec.chunk('solver')
        solver.vorticity(rec, c, 'WakeVorticityFromCt', 1)
        solver.vorticity(rec, c, 'WakeVorticityFromGamma', 1)
        solver.vorticity(rec, c, 'WakeVorticityFromCirculation_Discr', 1)


def models(rec):
    return mc.run(rec, 'loading')
