"""C19: self-similar model"""
import models as mc
import numpy as np
import kern, gen
from kern import K
LEVEL = 'exploration'
RULE = 'calls of ss_u (and of turbines with the SS model) compared point by point to the published formula, zero downstream'


def build(rec):
    rng = rec.rng
    N, npt = (150, 60) if rec.thorough else (25, 30)
    for i in range(N):
        p = kern.rand(rng, 'ss_u')
        c = rec.chunk('self-similar')
        k = K('ss_u', p)
        R = p['R']
        P = k.points(rng, npt, dmin=.1)
        S = R * np.array([[0, 0, -z] for z in (0., 1e-6, .01, .5, 1, 10, 300)] + [[a, b, 0.] for a, b in ((.5, 0), (0, 1), (-2, 3.))] + [[.3, 0, 1e-6], [0, 0, 1e-9], [0, 2, 1e-3], [0, 0, 5.], [8., 3, -2], [30, 0, -1.]])
        k.emit(c, np.vstack([P, S]), tol=1e-9)
        a = k.emit(c, S, tol=1e-9)
        # symmetric of revolution
        t = rng.uniform(-3, 3)
        Q = S.copy(); Q[:, 0], Q[:, 1] = S[:, 0] * np.cos(t) - S[:, 1] * np.sin(t), S[:, 0] * np.sin(t) + S[:, 1] * np.cos(t)
        k.emit(c, Q, tol=1e-9)
    for i in range(max(4, N // 4)):
        c = rec.chunk('turbine')
        s, v = gen.rand_frame(rng)
        R = float(rng.choice([1., 40., 63.]))
        yaw = float(rng.uniform(-2, 2))
        wind = gen.rotm(v, yaw).dot(s) * rng.uniform(4, 14)
        default = rng.random() < .5
        c.new(0, R=R, shaft=s, vert=v, hub=rng.uniform(-2, 2, 3) * R, wind=wind, model='SS' if default else 'VC')
        c.yaw(0, yaw)
        c.load(0, **gen.exact_load(rng, c.sh[0], ncyl=1))
        P = gen.points(rng, c.sh[0], npt, dmin=.05, root=True)
        P = P[np.abs(c.sh[0].to_local(P)[:, 2]) > 1e-6]
        c.query(0, P, chk=['outcome', 'abs'], only_ind=bool(rng.random() < .5), tol=1e-7, **({} if default else dict(Model='SS')))


def models(rec):
    return mc.run(rec, 'tubes')
