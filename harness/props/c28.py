"""C28: sets of cylinders"""
import models as mc
import numpy as np
import kern, gen
from kern import K
LEVEL = 'exploration'
RULE = 'calls of the four set functions compared point by point to the sum over tubes of the Biot-Savart integral, and to the sum of single-tube calls'
SETS = ('vcs_tang_u', 'vcs_longi_u', 'svcs_tang_u', 'svcs_longi_u')


def build(rec):
    rng = rec.rng
    N = 60 if rec.thorough else 10
    for f in SETS:
        for i in range(N):
            c = rec.chunk(f)
            kc = [(1, 1), (1, 3), (2, 1), (3, 2), (2, 3)][i % 5]
            p = kern.rand(rng, f, kc=kc, ground=['0', '1'][(i // 5 + i) % 2], skew=0. if (f.startswith('svcs') and i % 4 == 0) else None)
            if kc[0] > 1 and i % 2:      # two at the same place, of the same radii
                for q in ('xc', 'yc', 'zc'): p[q] = np.array(p[q]); p[q][-1] = p[q][-2]
                p['R'] = np.array(p['R']); p['R'][-kc[1]:] = p['R'][-2 * kc[1]:-kc[1]]
            if p['ground'] == '1' and i % 3 != 1:       # centred on the ground
                p['yc'] = np.array(p['yc'], float); p['yc'][rng.integers(len(p['yc']))] = 0.
            k = K(f, p)
            P = k.points(rng, 7 if f.startswith('s') else 14, dmin=.2 if f.startswith('s') else .06)
            k.emit(c, P)
            # one call per tube
            ids = range(len(p['g']))
            parts = []
            for j in ids:
                y = j // p['nr']
                q = dict(g=np.array([p['g'][j]]), R=np.array([p['R'][j]]), xc=p['xc'][y:y + 1], yc=p['yc'][y:y + 1], zc=p['zc'][y:y + 1], nr=1, ground='0')
                if 'm' in p: q['m'] = np.array([p['m'][j]])
                parts.append(K(f, q).emit(c, P, chk=[]))
            k.but(ground='0').emit(c, P, chk=['krel'], rel=[dict(k='sum', u='', a=parts)], tol=1e-10)
            if i == 0:          # many of them
                for kc in ((1, 30), (13, 1), (3, 11)):
                    k2 = K(f, kern.rand(rng, f, kc=kc, skew=0. if f.startswith('svcs') and kc[1] > 20 else None))
                    k2.emit(c, k2.points(rng, 3, dmin=.2 if kc[1] == 1 else .02 if not f.startswith('svcs') else .2))
            # nothing but zeros
            k.times(sg=0.).emit(c, P, tol=1e-12, sc=1.)
            # points on the axes of the cylinders and in their planes
            cen = np.array([[x, y, z] for x, y, z in zip(p['xc'], p['yc'], p['zc'])])
            Q = np.vstack([cen, cen - np.array([0, 0, 1.]) * np.max(p['R'])])
            Q = np.array([q for q in Q if k.singular(q) > .2])
            if len(Q) and f == 'vcs_tang_u':
                k.emit(c, Q)


def models(rec):
    return mc.run(rec, 'tubes', 'lines')
