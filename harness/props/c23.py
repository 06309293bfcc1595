"""C23: loading with several cylinders"""
import models as mc
import numpy as np
import gen, solver
LEVEL = 'model_checking'
RULE = 'vorticity distributions compared station by station to the cylinder-by-cylinder momentum balance of the specification; turbines with several cylinders compared to the field of the specified vorticity'


def build(rec):
    rng = rec.rng
    N = 400 if rec.thorough else 80
    for i in range(N):
        c = rec.chunk('solver')
        for f in ('WakeVorticityFromCt', 'WakeVorticityFromGamma', 'WakeVorticityFromCirculation_Discr', 'WakeVorticityFromCirculation_Discr'):
            solver.vorticity(rec, c, f, int(rng.choice([2, 2, 3, 4, 5, 8, 12, 20, 50])))
    for i in range(N // 4):
        c = rec.chunk('turbine')
        s, v = gen.rand_frame(rng)
        R = float(rng.choice([1., 8., 63.]))
        c.new(0, R=R, shaft=s, vert=v, hub=rng.uniform(-3, 3, 3) * R, wind=gen.horiz_wind(rng, s, v, 0.))
        sh = c.sh[0]
        for j in range(3):
            n = int(rng.choice([0, 2, 3, 4, 7, 10])) if (i, j) not in ((0, 1), (3, 0), (5, 2)) else int(rng.choice([55, 70, 110]))
            d = gen.exact_load(rng, sh, ncyl=n)
            c.load(0, **d)
            P = gen.points(rng, sh, 8, dmin=.05, root=True)
            C = sh.to_global(R * np.array([[0, 0, 0], [0, 0, -1.]] + [[0, .5 * (a + b), 0] for a, b in zip(sh.radii[:-1], sh.radii[1:])][:6]) * np.array([1, 1. / R, 1]))
            lim = dict(tol=1e-6, sc=float(np.linalg.norm(sh.wind)))
            c.query(0, P, chk=['outcome', 'abs'], only_ind=True, **lim)
            c.query(0, C, chk=['outcome', 'abs'], only_ind=True, **lim)
            c.query(0, P, chk=['outcome', 'abs'], only_ind=True, longi=True, root=True, tang=False, **lim)
            if d['kind'] == 'fun':
                c.query(0, P, chk=['rel'], rel=[dict(k='zero')], only_ind=True, longi=True, root=True, tang=False, tol=1e-12)


def models(rec):
    return mc.run(rec, 'loading')
