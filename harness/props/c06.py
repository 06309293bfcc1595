"""C06: rigid motions of the whole setup rotate the velocities and nothing else"""
import models as mc
import numpy as np
import gen, scen
LEVEL = 'model_checking'
RULE = 'pairs of setups related by a rigid motion (verified on the recorded settings and points by the specification); velocities must be rotated'


def motion(rng, sh, ground, i):
    """axis, angle, shift; with ground the shift lies along the (moved) ground"""
    k = i % 6
    if k == 0: ax, an = gen.unit(rng), float(rng.uniform(-np.pi, np.pi))
    elif k == 1: ax, an = np.eye(3)[rng.integers(3)], float(rng.choice([np.pi / 2, -np.pi / 2, np.pi]))
    elif k == 2: ax, an = sh.vert, float(rng.uniform(-np.pi, np.pi))
    elif k == 3: ax, an = sh.shaft(), float(rng.uniform(-np.pi, np.pi))
    elif k == 4: ax, an = gen.unit(rng), 0.
    else: ax, an = sh.shaft0, float(rng.uniform(-np.pi, np.pi))
    if i % 5 == 4: an = gen.small(rng)
    ax = ax / np.linalg.norm(ax)
    M = gen.rotm(ax, an)
    shift = rng.uniform(-50, 50, 3) * sh.R if rng.random() < .8 else np.zeros(3)
    if i % 7 == 3: shift = rng.uniform(-1, 1, 3) * float(rng.choice([1e3, 1e4])) * sh.R      # map coordinates
    if ground:
        v = M.dot(sh.vert)
        shift = shift - shift.dot(v) * v
    return ax, an, M, shift


def clone(c, t, t2, M, shift):
    s = c.sh[t]
    kw, w0 = c.lastload[t]
    c.new(t2, R=s.R, shaft=M.dot(s.shaft0), vert=M.dot(s.vert), hub=M.dot(s.hub) + shift, wind=M.dot(w0), ground=s.ground, model=s.model, lam=s.lam)
    if s.yaw: c.yaw(t2, s.yaw)
    c.load(t2, **kw)
    if not np.array_equal(w0, s.wind): c.wind(t2, M.dot(s.wind))
    if s.chi is not None: c.chi(t2, s.chi)


def build(rec):
    rng = rec.rng
    N = 900 if rec.thorough else 130
    for i in range(N):
        c = rec.chunk('rigid')
        model = 'VC' if i % 2 else scen.MODELS[(i // 2) % 4]
        sh = scen.turbine(c, 0, rng, model=model, vertical=0. if rng.random() < .6 else float(rng.uniform(-3, 3)))
        if rng.random() < .2 and model == 'VC':
            c.chi(0, float(rng.uniform(-1, 1)))
        if rng.random() < .3:
            c.pos(0, sh.hub + .3 * sh.R * np.cross(sh.vert, sh.shaft0))
        ms = [motion(rng, sh, True, i)] + ([motion(rng, sh, False, i + 1)] if not sh.ground else [])
        for k, (ax, an, M, d) in enumerate(ms):
            t2 = 1 + k
            clone(c, 0, t2, M, d)
            for o in [dict(only_ind=True)] + [scen.options(rng, model) for _ in range(4 if rec.thorough else 2)]:
                if k == 1 and o.get('ground'):
                    continue
                P = scen.pts(rng, sh, int(rng.integers(1, 9)))
                a = c.query(0, P, chk=['outcome'], **o)
                c.query(t2, P.dot(M.T) + d, chk=['outcome', 'rel'], rel=[dict(k='rigid', a=a, axis=gen_nums(ax), angle=gen_num(an), shift=gen_nums(d))],
                        tol=2e-7 if model == 'VD' or np.linalg.norm(d) > 200 * sh.R else 1e-8, sc=2 * scen.speed(sh), **o)
    # pure turns of a turbine about the vertical through its hub by its own methods: yaw and wind turned together
    for i in range(N // 4):
        c = rec.chunk('turned in place')
        sh = scen.turbine(c, 0, rng, ground=bool(i % 2))
        an = float(rng.uniform(-7, 7)) if i % 3 else gen.small(rng)
        if i % 6 == 0: c.yaw(0, 0.)
        o = scen.options(rng)
        P = scen.pts(rng, sh, 6)
        a = c.query(0, P, chk=['outcome'], **o)
        M = gen.rotm(sh.vert, an)
        d = sh.hub - M.dot(sh.hub)
        w, y = sh.wind.copy(), sh.yaw
        c.wind(0, M.dot(w))
        c.yaw(0, y + an)
        # the zero-yaw frame is not turned: compare with a turbine whose frame is
        clone(c, 0, 1, np.eye(3), np.zeros(3))
        b = c.query(0, P.dot(M.T) + d, chk=['outcome', 'finite'], **o)
        c.query(1, P.dot(M.T) + d, chk=['outcome', 'rel'], rel=[dict(k='equal', a=b)], tol=1e-9, sc=2 * scen.speed(sh), **o)
        c.new(2, R=sh.R, shaft=M.dot(sh.shaft0), vert=sh.vert, hub=sh.hub, wind=M.dot(c.lastload[0][1]), ground=sh.ground, lam=sh.lam)
        if y: c.yaw(2, y)
        c.load(2, **c.lastload[0][0])
        c.wind(2, sh.wind)
        e = c.query(2, P.dot(M.T) + d, chk=['outcome', 'rel'], rel=[dict(k='rigid', a=a, axis=gen_nums(sh.vert), angle=gen_num(an), shift=gen_nums(d)),
            dict(k='equal', a=b)], tol=1e-8, sc=2 * scen.speed(sh), **o)
    # farms, moved rigidly: every turbine with the others
    for i in range(N // 4):
        c = rec.chunk('farm')
        n = int(rng.integers(1, 4))
        f = gen.rand_frame(rng)
        ground = bool(rng.random() < .4)
        R = float(rng.choice([1., 40.]))
        for t in range(n):
            scen.turbine(c, t, rng, R=R, frame=f if ground or rng.random() < .6 else None, ground=ground)
        ax, an, M, d = motion(rng, c.sh[0], ground, i)
        for t in range(n):
            clone(c, t, n + t, M, d)
        k = list(rng.permutation(n))
        c.farmnew('F', range(n)); c.farmnew('G', [n + int(t) for t in k])
        for j in range(3):
            o = dict(scen.options(rng), no_wake=False)
            o.pop('only_ind', None)
            if not ground: o.pop('ground', None)
            U = c.sh[0].wind if j else rng.uniform(-9, 9, 3)
            P = np.vstack([scen.pts(rng, c.sh[t], 3) for t in range(n)])
            if not clear(c, n, P): continue
            a = c.farmquery('F', P, None, U0=U, chk=['finite'], **o)
            c.farmquery('G', P.dot(M.T) + d, None, U0=M.dot(U), chk=['rel'], tol=1e-8, sc=2 * sum(scen.speed(c.sh[t]) for t in range(n)),
                        rel=[dict(k='rigidfarm', a=a, map=[int(q) + 1 for q in k], axis=gen_nums(ax), angle=gen_num(an), shift=gen_nums(d))], **o)


def clear(c, n, P):
    """away from the vorticity of all the turbines"""
    return all(gen.clear(sh.to_local([g])[0], sh.R, sh.m(), sh.radii, .1, True) for t in range(n) for sh in [c.sh[t]] for p in P for g in (p, sh.mirror([p])[0]))


from rec import num as gen_num, nums as gen_nums


def models(rec):
    return mc.run(rec, 'geometry')
