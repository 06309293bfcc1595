"""C24: circulation for a thrust, continuous and stream-tube inductions, cut-off distribution"""
import models as mc
import numpy as np
import solver
import wiz.Solver as S
from rec import num, nums
LEVEL = 'exploration'
RULE = 'calls of the solver functions, each result checked station by station against its defining equations'


def b01(x):
    return '1' if x else '0'


def build(rec):
    rng = rec.rng
    N = 600 if rec.thorough else 120
    for i in range(N):
        c = rec.chunk('solver')
        n = int(rng.choice([1, 2, 3, 8, 30, 100]))
        x = np.sort(rng.uniform(.02, 1, n)) + 1e-4 * np.arange(n)
        lam = float(rng.choice([2., 5., 8., 15., 40.]))
        sw = bool(rng.random() < .7)
        # circulation for a thrust
        Ct = solver.profile(rng, x)
        xx = x.copy()
        if rng.random() < .4:
            Ct[rng.integers(n)] = rng.choice([0., -.1])
        if rng.random() < .3:      # and nearly none
            Ct[rng.integers(n)] = 10 ** rng.uniform(-5, -2.5)
        if rng.random() < .3:
            xx[0] = 0.
        c.func('CirculationFromPrescribedCt', lambda r: [np.array(S.CirculationFromPrescribedCt(r, Ct, lam, sw))], xx, dict(Ct=nums(Ct), lam=num(lam), swirl=b01(sw)), ['circ'], tol=3e-5, watch=[Ct])
        # continuous formulation
        if n > 1:
            hi = bool(rng.random() < .6)
            k = solver.profile(rng, x)
            if not hi:
                k = k * .7
            elif rng.random() < .4:
                k = k * 1.25 / k.max()
            lr = lam * x
            if sw:   # keep the effective thrust below 1 without correction
                k = np.minimum(k, 2 * lr ** 2 * (np.sqrt(1 + (1.2 if hi else .8) / lr ** 2) - 1))
            lr0 = lr.copy()
            if rng.random() < .15 and n > 2:
                lr0[0] = 0.
                k[0] = min(k[0], 1e-6)
            Cq = None if rng.random() < .6 else rng.uniform(0, .1, n)
            def run(r):
                kw = dict(Cq=Cq) if Cq is not None else {}
                if not hi or n % 2: kw['bHighThrustCorr'] = hi
                a, ap, m = S.InductionsFromCirculation_VC_Cont(r, lr0, k, sw, **kw)
                return [a, ap, m['Ct_KJ'], m['Ct_eff'], m['Ct_rot']]
            c.func('InductionsFromCirculation_VC_Cont', run, x, dict(k=nums(k), lr=nums(lr0), swirl=b01(sw), high=b01(hi), Cq='' if Cq is None else nums(Cq)), ['cont'], watch=[lr0, k] + ([Cq] if Cq is not None else []))
            # continuous wake vorticity
            R, U0 = float(rng.choice([1., 8., 63.])), float(rng.choice([1., 7., 12.]))
            Om = lam * U0 / R
            G = k * np.pi * U0 ** 2 / Om
            r0 = x * R
            if lr0[0] == 0: r0[0] = 0.
            aref = ''
            if r0[0] != 0:
                # the inductions are those of the continuous formulation at the same stations
                xr, lw, kw_ = r0 / R, Om * r0 / U0, Om * G / (np.pi * U0 ** 2)
                def runw(r):
                    a, ap, m = S.InductionsFromCirculation_VC_Cont(r, lw, kw_, sw)
                    return [a, ap, m['Ct_KJ'], m['Ct_eff'], m['Ct_rot']]
                j = c.func('InductionsFromCirculation_VC_Cont', runw, xr, dict(k=nums(kw_), lr=nums(lw), swirl=b01(sw), high='1', Cq=''), ['cont'], watch=[lw, kw_])
                e = c.ev[-1]
                if e['out'] == 'ok': aref = e['o'][0]
            if r0[0] != 0:
                c.func('WakeVorticityFromCirculation_Cont', lambda r: solver.pack(S.WakeVorticityFromCirculation_Cont(r, G, R, U0, Om, sw)), r0,
                       dict(G=nums(G), R=num(R), U0=num(U0), Om=num(Om), swirl=b01(sw), aref=aref), ['wakecont'], tol=1e-9, sc=U0, watch=[G])
            elif r0[1] > 0:
                G0 = G.copy(); G0[0] = 0.
                c.func('WakeVorticityFromCirculation_Cont', lambda r: solver.pack(S.WakeVorticityFromCirculation_Cont(r, G0, R, U0, Om, sw)), r0,
                       dict(G=nums(G0), R=num(R), U0=num(U0), Om=num(Om), swirl=b01(sw)), ['wakecont'], tol=1e-9, sc=U0, watch=[G0])
        # stream tube
        Ct = solver.profile(rng, x, rng.uniform(.1, .99))
        Ct = np.minimum(Ct, .999)
        Cq = rng.uniform(0, .1, n)
        def st(r):
            a, ap = S.InductionsFromPrescribedCtCq_ST(r, Ct, Cq, lam, sw)
            return [a, np.atleast_1d(ap)]
        c.func('InductionsFromPrescribedCtCq_ST', st, x, dict(Ct=nums(Ct), Cq=nums(Cq), lam=num(lam), swirl=b01(sw)), ['tube'], watch=[Ct, Cq])
        # cut-off
        cut = float(rng.uniform(.02, .5))
        tip = None if rng.random() < .4 else float(rng.uniform(.55, .99))
        y = np.concatenate((x, [0., cut, 1.], [tip] if tip else []))
        y = y[rng.permutation(len(y))]
        C0 = float(rng.uniform(-.2, 1.2))
        if i % 5 == 0 and len(y) % 2 == 0:
            y = y
        c.func('Ct_const_cutoff', lambda r: [S.Ct_const_cutoff(C0, cut, r, tip) if tip else S.Ct_const_cutoff(C0, cut, r)], y, dict(CT0=num(C0), cut=num(cut), tip='' if tip is None else num(tip)), ['cutoff'], tol=1e-12)


def models(rec):
    return mc.run(rec, 'loading')
