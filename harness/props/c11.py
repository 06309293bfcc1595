"""C11: a velocity depends on its own point only, not on the shape of the request"""
import models as mc
import numpy as np
import gen, scen, kern
from kern import K
LEVEL = 'model_checking'
RULE = 'one request with ordinary and special points mixed, and the same points asked for in other shapes, memory layouts, orders, subsets and one by one; polar and Cartesian versions of the same call'


VAST = ('vc_tang_u', 'vc_longi_u', 'vc_longi_u_polar', 'vc_tang_u_doublet', 'cylinder_tang_u', 'vl_semiinf_straight_u', 'ring_u', 'ring_u_polar', 'doublet_u', 'doublet_u_polar', 'doublet_line_polar_u',
        'doublet_line_u', 'ss_u')


def special(k, rng, n):
    """points (Cartesian) of the special sets of the kernel"""
    R, m = k.scale(), float(np.mean(k.v('m', 0.)))
    out = []
    for _ in range(n):
        w = rng.integers(8)
        z, th = rng.uniform(-4, 6), float(rng.choice([0., np.pi / 2, np.pi, rng.uniform(0, 6.28)]))
        if w == 0: P = [0, 0, z]
        elif w == 1: P = [.6 * np.cos(th), .6 * np.sin(th), 0.]
        elif w == 2: P = [1.7 * np.cos(th), 1.7 * np.sin(th), 0.]
        elif w == 3: P = [0, 0, 0.]
        elif w == 4: P = [m * abs(z), 0, abs(z)]          # on the wake axis
        elif w == 5: P = [1., 0, -abs(z) - .3]            # upstream at r=R
        elif w == 6: P = [30. * np.cos(th), 30 * np.sin(th), 40 * z]
        else: P = [0, 0, -abs(z)]
        if w == 7 and m == 0 and rng.random() < .7:
            P = [1., 0., 0.]     # rim
        out.append(R * np.array(P))
    return np.array(out)


def usable(k, P):
    """special points at which the kernel is well conditioned or exactly singular"""
    return k.singular(P) > .15 or k.singular(P) < 1e-14


def cart(k, q):
    if k.inp == 'cart': return np.asarray(q)
    if k.inp == 'rz': return np.array([q[0], 0., q[2]])
    return np.array([q[0] * np.cos(q[1]), q[0] * np.sin(q[1]), q[2]])


def shapes(n):
    s = [None, (n, 1), (1, n)]
    for a in (2, 3, 4):
        if n % a == 0:
            s += [(a, n // a), (n // a, a)]
    if n % 6 == 0:
        s += [(2, 3, n // 6), (n // 6, 1, 6)]
    return s


def variants(rng, n, big):
    """(indices of the points, shape, order)"""
    full = list(range(n))
    yield full, None, 'C'
    sh = shapes(n)
    for k in (rng.permutation(len(sh)) if big else rng.permutation(len(sh))[:3]):
        yield full, sh[k], ['C', 'F'][rng.integers(2)]
    yield full, None, 'strided'
    yield full, None, 'rev'
    yield list(rng.permutation(n)), None, 'C'
    yield full[::-1], None, 'C'
    for _ in range(3 if big else 1):
        k = int(rng.integers(1, n))
        yield list(rng.permutation(n)[:k]), None, ['C', 'strided'][rng.integers(2)]
    rep = list(rng.integers(0, n, 2 * n))
    yield rep, [None, (2, n)][rng.integers(2)], 'C'
    for j in (full if big else rng.permutation(n)[:4]):
        yield [int(j)], None, 'C'
    j = int(rng.integers(n))
    yield [j] * 5, None, 'C'
    yield [j], (1, 1), 'C'
    yield full, (2, n // 2), 'mixed'
    yield full, None, 'ro'
    yield full, None, 'large'
    yield full, None, ['crowdfar', 'crowdnear'][rng.integers(2)]
    for o in ('nan', 'inf', 'huge'):
        yield full, None, o
    for e in ((0,), (0, 3), (2, 0)):
        yield [], e, 'C'


def single(f):
    return f not in ('ss_u',)        # indexes its result: needs arrays


def build(rec):
    rng = rec.rng
    big = rec.thorough
    for f, form in kern.every():
        hid = f in kern.HIDDEN
        for i in range(8 if big else 2):
            c = rec.chunk(f)
            k = K(f, kern.rand(rng, f, skew=0. if i == 1 and 'm' in kern.FUN[f][2].split() else None), form)
            P = k.points(rng, 7, dmin=.2, offaxis=.02 if hid else 0)
            if not hid:
                S = special(k, rng, 12)
                S = np.array([p for p in S if usable(k, p)][:5]).reshape(-1, 3)
                P = np.vstack([P, S])
            P = P[rng.permutation(len(P))]
            n = len(P) - len(P) % 2
            P = k.to_inp(P[:n])
            a = k.emit(c, P, chk=['ok', 'shape'], raw=True)
            for idx, sh, order in variants(rng, n, big):
                k.emit(c, P[np.array(idx, int)], raw=True, chk=['ok', 'shape', 'krel'], rel=[dict(k='subset', a=a, map=[int(j) + 1 for j in idx])], tol=1e-10, shape=sh, order=order)
            if not hid:         # among many others, close to the vorticity
                A = k.points(rng, 6, dmin=.02)
                A = k.to_inp(A[rng.permutation(6)])
                i0 = k.emit(c, A, chk=['ok', 'shape'], raw=True)
                for o in ('large', 'crowdfar', 'crowdnear') + (('vast',) if i == 0 and f in VAST else ()):
                    k.emit(c, A, raw=True, chk=['ok', 'shape', 'krel'], rel=[dict(k='subset', a=i0, map=list(range(1, 7)))], tol=1e-10, order=o)
            if single(f):       # a point given by numbers
                j = int(rng.integers(n))
                k.emit(c, P[[j]], raw=True, chk=['ok', 'shape', 'krel'], rel=[dict(k='subset', a=a, map=[j + 1])], tol=1e-10, shape=())
            if f not in ('fV_Tangential', 'fV_Trailed', 'fV_Root'):       # coordinates that are whole numbers, given as integers
                q = k.times(sl=float(rng.integers(3, 9)) / k.scale())
                A = np.round(q.points(rng, 6, dmin=.3)) + 0.
                A = np.array([x for x in A if usable(q, x) and (not hid or (np.hypot(x[0], x[1]) > .3 and x[2] != 0))])
                if len(A) > 1:
                    B = q.to_inp(A)
                    if k.inp != 'cart':
                        B = np.round(B) + 0.
                        B = np.array([b for b in B if usable(q, cart(q, b)) and (not hid or (b[0] > 0 and b[2] != 0))])
                    if len(B):
                        i0 = q.emit(c, B, raw=True, chk=['ok', 'shape'])
                        q.emit(c, B, raw=True, chk=['ok', 'shape', 'krel'], rel=[dict(k='subset', a=i0, map=list(range(1, len(B) + 1)))], tol=1e-10, order='int')
            # parameters that are whole numbers, given as integers
            q, z = k.whole(rng)
            A = q.points(rng, 4, dmin=.3, offaxis=.02 if hid else 0)
            if not hid: A = np.vstack([A, [[0, 0, -2. * q.scale()]]])
            A = np.array([x for x in A if usable(q, x)])
            i0 = q.emit(c, A, chk=['ok', 'shape'])
            z.emit(c, A, chk=['ok', 'shape', 'krel'], rel=[dict(k='subset', a=i0, map=list(range(1, len(A) + 1)))], tol=1e-10)
            # mostly in the rotor plane, with a few points out of it (above or below) and the reverse
            for w in range(2 if big else 1):
                A = P.copy()
                zi = 2
                keep = rng.permutation(n)[:int(rng.integers(1, 3))]
                for j in range(n):
                    if j not in keep:
                        A[j, zi] = 0.
                A = np.array([q for q in A if usable(k, cart(k, q))])
                if len(A) < 3: continue
                for B in (A, A[A[:, zi] == 0], A[A[:, zi] != 0]):
                    if len(B) == 0: continue
                    i0 = k.emit(c, B, raw=True, chk=['ok', 'shape'])
                    for j in rng.permutation(len(B))[:4]:
                        k.emit(c, B[[j]], raw=True, chk=['ok', 'shape', 'krel'], rel=[dict(k='subset', a=i0, map=[int(j) + 1])], tol=1e-10)
            # other components, other conventions: the same vectors
            for fo in kern.FORMS[f]:
                if fo != form:
                    k.as_(form=fo).emit(c, P, raw=True, chk=['ok', 'shape', 'krel'], rel=[dict(k='agree', a=a)], tol=1e-10)
    # pairs of functions describing the same system in different coordinates
    pairs = [('svc_tang_u', 'svc_tang_u_polar'), ('svc_longi_u', 'svc_longi_u_polar'), ('vc_longi_u', 'vc_longi_u_polar'), ('svc_root_u', 'svc_root_u_polar'),
             ('vl_semiinf_straight_u', 'vl_semiinf_straight_u_polar'), ('vc_root_u', 'vl_semiinf_straight_u'), ('ring_u', 'ring_u_polar'), ('doublet_line_u', 'doublet_line_polar_u'),
             ('svc_tang_u', 'fV_Tangential'), ('svc_longi_u', 'fV_Trailed'), ('svc_root_u', 'fV_Root')]
    for f, g in pairs:
        for i in range(8 if big else 3):
            c = rec.chunk('%s = %s' % (f, g))
            p = kern.rand(rng, f, R=1. if g.startswith('fV') else None)
            p.pop('eps', None)
            if g == 'doublet_line_polar_u': p.update(m=0., L=np.inf)
            k = K(f, p, kern.FORMS[f][i % len(kern.FORMS[f])])
            P = k.points(rng, 8, dmin=.2)
            P = P[np.hypot(P[:, 0], P[:, 1]) > 1e-3 * k.scale()]
            if not len(P): continue
            if g in kern.RZ_IN:
                P = np.array([[np.hypot(x, y), 0., z] for x, y, z in P])
            a = k.emit(c, P, chk=['ok', 'shape'])
            for fo in kern.FORMS[g]:
                K(g, p, fo).emit(c, P, chk=['ok', 'shape', 'krel'], rel=[dict(k='agree', a=a)], tol=1e-9, shape=[None, (len(P), 1)][i % 2])
    # turbines and farms
    for i in range(150 if big else 40):
        c = rec.chunk('turbine')
        model = 'VC' if rng.random() < .6 else scen.MODELS[rng.integers(4)]
        sh = scen.turbine(c, 0, rng, model=model)
        o = scen.options(rng, model)
        P = scen.pts(rng, sh, 9)
        Q = [sh.hub, sh.hub + 2 * sh.R * sh.shaft(), sh.hub - sh.R * sh.shaft(), sh.hub + .5 * sh.R * np.cross(sh.vert, sh.shaft()),
             sh.hub + 2 * sh.R * np.cross(sh.vert, sh.shaft()), sh.hub + 2. * sh.R * sh.vert, sh.hub + .3 * sh.R * sh.vert]
        if not sh.ground and not o.get('ground') and not o.get('no_wake'):
            P = np.vstack([P, [q for q in Q if gen.clear(sh.to_local([q])[0], sh.R, sh.m(), sh.radii, .2, True)]])
        P = P[rng.permutation(len(P))]
        n = len(P) - len(P) % 2
        P = P[:n]
        a = c.query(0, P, chk=['outcome', 'shape'], **o)
        for idx, s, order in variants(rng, n, big):
            c.query(0, P[np.array(idx, int)], chk=['outcome', 'shape', 'rel'], rel=[dict(k='subset', a=a, map=[int(j) + 1 for j in idx])], tol=1e-10, sc=2 * scen.speed(sh), shape=s, order=order, **o)
    for i in range(12 if big else 6):       # a whole volume at once
        c = rec.chunk('volume')
        sh = scen.turbine(c, 0, rng, model=scen.MODELS[i % 4], skew=0., ncyl=1 if i % 4 else [1, 3][i // 4 % 2])
        P = scen.pts(rng, sh, 5)
        for k in range(2):
            o = scen.options(rng, sh.model)
            if sh.model == 'VCFF' or rng.random() < .3: o['R_far_field'] = float(rng.uniform(1.5, 5))
            a = c.query(0, P, chk=['outcome', 'shape'], **o)
            c.query(0, P, chk=['outcome', 'shape', 'rel'], rel=[dict(k='subset', a=a, map=[1, 2, 3, 4, 5])], tol=1e-10, sc=2 * scen.speed(sh), order='vast', **o)
    for i in range(20 if big else 6):
        c = rec.chunk('farm')
        f = gen.rand_frame(rng)
        for t in range(3):
            scen.turbine(c, t, rng, R=1., frame=f, low=1.5)
        c.farmnew('F', [0, 1, 2])
        P = np.vstack([scen.pts(rng, c.sh[t], 2, dmin=.1) for t in range(3)])
        o = scen.options(rng); o.pop('only_ind', None)
        U0 = rng.uniform(-9, 9, 3)
        for idx, s, order in variants(rng, 6, False):
            ids = [c.query(t, P[np.array(idx, int)], chk=['outcome', 'shape'], only_ind=True, shape=s, order=order, **o) for t in range(3)]
            c.farmquery('F', P[np.array(idx, int)], ids, U0=U0, chk=['farm', 'shape'], tol=1e-11, sc=60., shape=s, order=order, **o)
        # whole numbers, given as integers
        Q = c.sh[0].hub + rng.integers(-12, 13, (60, 3))
        Q = np.round(Q)
        Q = Q[[all(gen.clear(c.sh[t].to_local([q])[0], c.sh[t].R, c.sh[t].m(), c.sh[t].radii, .2, True) for t in range(3)) for q in Q]][:6]
        if len(Q) > 1 and not any(c.sh[t].ground for t in range(3)) and not o.get('ground'):
            for order in ('C', 'int'):
                ids = [c.query(t, Q, chk=['outcome', 'shape'], only_ind=True, order=order, **o) for t in range(3)]
                c.farmquery('F', Q, ids, U0=U0, chk=['farm', 'shape'], tol=1e-11, sc=60., order=order, **o)
            c.farmquery('F', Q, ids, U0=np.round(U0).astype(int).tolist(), chk=['farm', 'shape'], tol=1e-11, sc=60., order='int', **o)


def models(rec):
    return mc.run(rec, 'dispatch')
