"""C29: divergence-free, irrotational, circulations"""
import models as mc
import numpy as np
import kern, gen
from kern import K
from rec import num
LEVEL = 'exploration'
RULE = 'difference stencils around regular points: divergence and three curl components of the recorded velocities; closed loops: circulation'
SKIP = {'ss_u', 'windfarm_gridlayout_CTconst'}


def stencil(P, h):
    out = []
    for p in P:
        for ax in range(3):
            for s in (1, -1, 2, -2):
                q = np.array(p, float)
                q[ax] += s * h
                out.append(q)
    return np.array(out)


def build(rec):
    rng = rec.rng
    N = 12 if rec.thorough else 3
    for f, form in kern.every():
        if f in SKIP or kern.FUN[f][1] == 'ss' or form == 'pol2':
            continue
        kind = kern.FUN[f][1]
        for i in range(N):
            c = rec.chunk(f)
            k = K(f, kern.rand(rng, f), form)
            h = .03 * k.scale()
            P = k.points(rng, 5, dmin=.45, offaxis=.12)
            if kind in ('dline',):
                P = np.array([q for q in P if q[2] < 6 * k.Lref()])
            if kind == 'ff':
                P = np.array([q for q in P if abs(np.linalg.norm(q) - k.v('cut', 6) * k.Rref()) > 4 * h])
            if len(P) == 0: continue
            sc = k.sc() / k.scale()
            # error of the 4th-order stencil ~ h^4 u^(5)/30 ~ 4 (h/d)^4
            k.emit(c, stencil(P, h), chk=['krel'], rel=[dict(k='stencil', h=num(h))], tol=8e-4, sc=sc)
    # circulation around the root vortex and around the whole wake, far downstream
    M = 30 if rec.thorough else 8
    n = 720
    for i in range(M):
        c = rec.chunk('loops')
        m = float(np.tan(rng.uniform(-1, 1)))
        g = kern.sgn(rng) * float(rng.uniform(.3, 3))
        t = np.arange(n) * 2 * np.pi / n
        z = 2000.
        for f in ('svc_root_u', 'vc_root_u', 'vl_semiinf_straight_u'):
            mm = m if f == 'svc_root_u' else 0.
            L = np.array([mm * z + 2 * np.cos(t), 2 * np.sin(t), 0 * t + z]).T
            # in the rotor plane, the half line makes half the circulation; upstream of it, less and less
            K(f, dict(g=g, m=mm) if f == 'svc_root_u' else dict(g=g)).emit(c, np.array([1.3 * np.cos(t), 1.3 * np.sin(t), 0 * t]).T, chk=['krel'], rel=[dict(k='loop', val=num(.5 * g))], tol=3e-5, sc=abs(g))
            K(f, dict(g=g, m=mm) if f == 'svc_root_u' else dict(g=g)).emit(c, L, chk=['krel'], rel=[dict(k='loop', val=num(g))], tol=3e-5, sc=abs(g))
            # a loop that does not enclose it
            K(f, dict(g=g, m=mm) if f == 'svc_root_u' else dict(g=g)).emit(c, L + np.array([5., 0, 0]), chk=['krel'], rel=[dict(k='loop', val='0')], tol=3e-5, sc=abs(g))
        for f in ('vc_longi_u',):
            gl = g
            L = np.array([2 * np.cos(t), 2 * np.sin(t), 0 * t + z]).T
            k = K(f, dict(g=gl, R=1.))
            k.emit(c, L, chk=['krel'], rel=[dict(k='loop', val=num(gl * 2 * np.pi))], tol=3e-5, sc=abs(g) * 6)
            k.emit(c, L * np.array([.25, .25, 1]), chk=['krel'], rel=[dict(k='loop', val='0')], tol=3e-5, sc=abs(g) * 6)
    # turbines
    for i in range(3 * M):
        c = rec.chunk('turbine')
        s, v = gen.rand_frame(rng)
        R = float(rng.choice([1., 40.]))
        yaw = float(rng.uniform(-3, 3))
        ang = float(rng.uniform(-1, 1)) if rng.random() < .6 else 0.
        ground = bool(rng.random() < .4)
        c.new(0, R=R, shaft=s, vert=v, hub=rng.uniform(-2, 2, 3) * R + (0 if not ground else 3 * R * v), wind=gen.horiz_wind(rng, s, v, yaw + ang), ground=ground)
        c.yaw(0, yaw)
        sh = c.sh[0]
        d = gen.rand_load(rng, sh, ncyl=int(rng.choice([1, 1, 2, 3])), lam=float(rng.choice([6., 9.])))
        c.load(0, **d)
        u = float(np.linalg.norm(sh.wind))
        P = gen.points(rng, sh, 4, dmin=.5, root=True)
        h = .03 * min(sh.radii + [R])
        h = .03 * R
        for o in (dict(), dict(longi=True, root=True), dict(tang=False, longi=True), dict(tang=False, root=True)):
            if d['kind'] == 'fun' and 'tang' in o: continue
            c.query(0, stencil(P, h), chk=['outcome', 'rel'], rel=[dict(k='stencil', h=num(h))], tol=2e-3, sc=u / R, **o)
        if not ground:
            # all the axial vorticity together: no circulation around the wake
            t = np.arange(n) * 2 * np.pi / n
            z = 1500.
            L = sh.to_global(R * np.array([sh.m() * z + 2.5 * np.cos(t), 2.5 * np.sin(t), 0 * t + z]).T)
            c.query(0, L, chk=['outcome', 'rel'], rel=[dict(k='loop', val='0')], tol=3e-5, sc=u * R, longi=True, root=True)
    # farms
    for i in range(M):
        c = rec.chunk('farm')
        s, v = gen.rand_frame(rng)
        R = 1.
        ts = []
        for t in range(int(rng.integers(1, 4))):
            yaw = float(rng.uniform(-.5, .5))
            c.new(t, R=R, shaft=s, vert=v, hub=rng.uniform(-1, 1, 3) + 6 * t * np.cross(s, v) + 4 * v, wind=gen.horiz_wind(rng, s, v, 0., 8.), ground=bool(t % 2))
            c.yaw(t, yaw)
            c.load(t, **gen.rand_load(rng, c.sh[t], ncyl=1))
            ts.append(t)
        c.farmnew('F', ts)
        P = []
        while len(P) < 4:
            q = rng.uniform(-4, 10, 3)
            ok = True
            for t in ts:
                for G in (q, c.sh[t].mirror([q])[0]):
                    if not gen.clear(c.sh[t].to_local([G])[0], R, c.sh[t].m(), [R], .5, True): ok = False
            if ok: P.append(q)
        h = .03
        c.farmquery('F', stencil(P, h), None, chk=['rel'], rel=[dict(k='stencil', h=num(h))], tol=2e-3, sc=8.)


def models(rec):
    return mc.run(rec, 'tubes', 'lines', 'rings', 'doublets')
