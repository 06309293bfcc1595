"""C02: queries, solvers and kernels have no side effects"""
import models as mc
import numpy as np
import gen, scen, kern, solver
from kern import K
LEVEL = 'model_checking'
RULE = 'every array handed to a query, kernel or solver compared bit by bit before and after; queries repeated after other queries and compared'


def build(rec):
    rng = rec.rng
    N = 300 if rec.thorough else 60
    # turbines and farms: every query between two equal questions
    for i in range(N):
        c = rec.chunk('turbine')
        f = gen.rand_frame(rng)
        ground = bool(i % 2)
        for t in range(2):
            h = scen.place(rng, 1., f[1], ground)
            if not ground and rng.random() < .5:
                h = h * (rng.random(3) < .5)
            scen.turbine(c, t, rng, frame=f, ground=ground, hub=h, yaw=0. if rng.random() < .4 else None, model=['VC', 'VC', 'VCFF', 'SS', 'VD'][i % 5], R=1.)
        c.farmnew('F', [0, 1])
        P = scen.pts(rng, c.sh[0], 6)
        shape = [None, (2, 3), (3, 2), (6, 1), (1, 2, 3)][i % 5]
        order = ['C', 'F', 'strided', 'rev'][i % 4]
        kw = dict(tol=1e-11, sc=20., shape=shape, order=order)
        own = dict(kw, chk=['outcome', 'memo', 'shape'])

        def same():
            for t in (0, 1):
                c.query(t, P, **own)
                c.query(t, P, **dict(own, longi=True, root=True, no_wake=True) if c.sh[t].model == 'VC' else own)
        c.angles(0); c.layout('F')
        same()
        todo = [lambda: c.angles(0), lambda: c.disk(0, 17), lambda: c.repr(0), lambda: c.farmrepr('F'), lambda: c.layout('F', keep=True), lambda: c.count('F'),
                lambda: c.farmquery('F', P, None, chk=[], **kw), lambda: c.farmquery('F', P, None, U0=[1., 2, 3], chk=[], no_wake=True, ground=True, **kw),
                lambda: c.query(0, P, **dict(own, ground=not ground)), lambda: c.query(0, P, **dict(own, only_ind=True)),
                lambda: c.query(0, P, **dict(own, Model='VCFF', R_far_field=2)), lambda: c.query(0, P, **dict(own, Model='SS')), lambda: c.query(0, P, **dict(own, Model='VD')),
                lambda: c.query(0, P, **dict(own, tang=False, longi=True)), lambda: c.query(0, P, **dict(own, tang=False, root=True)),
                lambda: c.query(0, P + 1., **own), lambda: c.query(0, P, **dict(own, no_wake=True))]
        for k in rng.permutation(len(todo))[:10 if not rec.thorough else len(todo)]:
            todo[k]()
            if rng.random() < .5:
                same()
        same()
        c.angles(0); c.layout('F')
    # kernels
    for f, form in kern.every():
        for i in range(6 if rec.thorough else 2):
            c = rec.chunk(f)
            k = K(f, kern.rand(rng, f), form)
            hid = f in kern.HIDDEN
            P = k.points(rng, 6, dmin=.2, offaxis=.02 if hid else 0)
            if not hid:
                P[0, :2] = 0.         # on the axis
                P[1, 2] = 0.          # in the rotor plane
            for shape, order in ((None, 'C'), ((2, 3), 'C'), ((3, 2), 'F'), (None, 'strided'), (None, 'rev')):
                a = k.emit(c, P, chk=[], shape=shape, order=order)
            k.but().emit(c, P, chk=['krel'], rel=[dict(k='subset', a=a, map=list(range(1, 7)))], tol=1e-12)
    solvers(rec, rng)


def solvers(rec, rng):
    import wiz.Solver as S
    for i in range(200 if rec.thorough else 40):
        c = rec.chunk('solver')
        for f in ('WakeVorticityFromCt', 'WakeVorticityFromGamma', 'WakeVorticityFromCirculation_Discr'):
            # (what is computed belongs to C23; here: twice the same, nothing modified)
            st = rng.bit_generator.state
            n = int(rng.choice([1, 2, 5, 10]))
            a = solver.vorticity(rec, c, f, n, chk=[])
            rng.bit_generator.state = st
            n = int(rng.choice([1, 2, 5, 10]))
            solver.vorticity(rec, c, f, n, chk=['krel'])
            c.ev[-1]['rel'] = [dict(k='vec', a=a)]
            c.ev[-1]['tol'] = '1e-13'
        n = int(rng.choice([3, 5, 30]))
        x = np.linspace(0, 1, n)        # the first station is on the axis
        R = 1. if i % 2 else 40.
        r = x * R
        U0, lam = 8., 7.
        Om = U0 * lam / R
        k = rng.uniform(.1, .8, n)
        G = k * np.pi * U0 ** 2 / Om
        lr = lam * x
        Ct, Cq = rng.uniform(.1, .8, n), rng.uniform(.01, .05, n)

        def flat(res):
            out = []
            for y in res if isinstance(res, (tuple, list)) else [res]:
                if isinstance(y, dict):
                    out += flat([y[q] for q in sorted(y) if isinstance(y[q], np.ndarray)])
                elif y is not None:
                    out.append(np.atleast_1d(np.array(y, dtype=float)))
            return out
        for sw in (True, False):
            for hi in (True, False):
                kw = dict(bHighThrustCorr=hi)
                calls = [('WakeVorticityFromCirculation_Cont', lambda q: S.WakeVorticityFromCirculation_Cont(q, G, R, U0, Om, sw, **kw), r, [G]),
                         ('InductionsFromCirculation_VC_Cont', lambda q: S.InductionsFromCirculation_VC_Cont(q, lr, k, sw, **kw), x, [lr, k]),
                         ('InductionsFromCirculation_VC_Cont', lambda q: S.InductionsFromCirculation_VC_Cont(q, lr, k, sw, Cq=Cq, **kw), x, [lr, k, Cq]),
                         ('InductionsFromPrescribedCtCq_ST', lambda q: S.InductionsFromPrescribedCtCq_ST(q, Ct, Cq, lam, sw), x, [Ct, Cq]),
                         ('CirculationFromPrescribedCt', lambda q: S.CirculationFromPrescribedCt(q, Ct, lam, sw), x, [Ct]),
                         ('Ct_const_cutoff', lambda q: S.Ct_const_cutoff(.8, .2, q, .9), x, [])]
                for name, fn, q, w in calls:
                    a = c.func(name, fn, q, {}, ['ok'], watch=w, results=flat)
                    c.func(name, fn, q, {}, ['ok', 'krel'], watch=w, results=flat, rel=[dict(k='vec', a=a)], tol=1e-13)


def models(rec):
    return mc.run(rec, 'one')
