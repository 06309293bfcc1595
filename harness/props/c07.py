"""C07: yaw, wind and skew angles agree with the geometry for every heading; rotor outline"""
import models as mc
import numpy as np
import gen, scen
from rec import num, nums
LEVEL = 'model_checking'
RULE = 'random and special headings (aligned, opposite, beyond a full turn) in every frame convention: angles, outline and skewed fields compared to the specification; equivalent headings compared to each other'
SPECIAL = [0., np.pi, -np.pi, np.pi / 2, -np.pi / 2, 3 * np.pi / 2, 2 * np.pi, -2 * np.pi, 4 * np.pi, 3 * np.pi, 1e-3, -1e-3, np.pi - 1e-3, -np.pi + 1e-3, np.pi + .5, -np.pi - .5,
           1e-4, -1e-5, 1e-6, 5e-3]


def look(c, t, sh, rng, horizontal=True, field=True, tol=1e-6):
    c.angles(t, chk=('angles',) if horizontal else ('windangle',))
    c.disk(t, int(rng.choice([3, 4, 5, 7, 12, 50] if rng.random() < .9 else [2, 100, 361])))
    if field and sh.loaded and sane(sh):
        o = scen.options(rng)
        c.query(t, scen.pts(rng, sh, 3), chk=['outcome', 'abs'], tol=tol, sc=scen.speed(sh), **o)
        c.skew(t)
    elif sh.loaded and c.query(t, sh.hub + [[0.1, 7., 9.]], chk=[]) and c.ev[-1]['out'] == 'ok':
        c.skew(t)
    c.angles(t, chk=('angles',) if horizontal else ('windangle',))


def sane(sh):
    """skew resolvable by the azimuthal quadrature, and not in between aligned and skewed"""
    k = abs(sh.skew())
    return k < 1.25 and not 1e-9 < k < 1e-5


def build(rec):
    rng = rec.rng
    big = rec.thorough
    # every frame convention x headings
    for fi, f in enumerate([(np.array(a, float), np.array(b, float)) for a, b in gen.AXFRAMES] + [gen.rand_frame(rng, 0) for _ in range(40 if big else 8)]):
        c = rec.chunk('headings')
        s, v = f
        c.new(0, R=float(rng.choice([1., 50.])), shaft=s, vert=v, hub=rng.uniform(-9, 9, 3), wind=gen.horiz_wind(rng, s, v, 0.))
        c.load(0, 'Ct', .6)
        for y in list(rng.permutation(SPECIAL))[:16 if big else 8] + list(rng.uniform(-10, 10, 8 if big else 4)):
            c.yaw(0, float(y))
            sh = c.sh[0]
            near = [y + gen.small(rng, -4.7, -1)] if big or rng.random() < .4 else []
            for a in [y] + near + ([y + np.pi] if big else []) + [y + rng.uniform(-1.2, 1.2), rng.uniform(-np.pi, np.pi)]:
                # (a wind along the shaft axis is special: aligned or opposite)
                c.wind(0, gen.horiz_wind(rng, s, v, a))
                if abs(np.cos(.5 * gen.wrap(a - y))) < 1e-6:
                    c.angles(0); c.disk(0, 6)       # exactly opposite: no wake to compare
                else:
                    look(c, 0, sh, rng, field=rng.random() < .5)
            if rng.random() < .4:
                h = sh.wind
                c.wind(0, h + float(rng.uniform(-8, 8)) * sh.vert)
                look(c, 0, sh, rng, horizontal=False)
            if rng.random() < .2:
                s, v = gen.rand_frame(rng)
                c.frame(0, s, v)        # resets the yaw
                c.angles(0, chk=('windangle',))
                c.disk(0, 9)
                c.wind(0, gen.horiz_wind(rng, s, v, .3))
                look(c, 0, sh, rng)
            c.pos(0, rng.uniform(-9, 9, 3))
            c.disk(0, 8)
    # aligned winds built componentwise, opposite ones: no NaN
    for i in range(60 if big else 20):
        c = rec.chunk('aligned')
        s, v = gen.rand_frame(rng)
        c.new(0, R=1., shaft=s, vert=v, wind=s * float(rng.uniform(1, 20)))
        c.load(0, 'Ct', .5)
        sh = c.sh[0]
        look(c, 0, sh, rng)
        c.wind(0, -s * float(rng.uniform(1, 20)))
        c.angles(0)
        y = float(rng.uniform(-9, 9))
        c.yaw(0, y)
        c.wind(0, sh.shaft() * 7.3)
        look(c, 0, sh, rng)
        c.wind(0, -sh.shaft() * 7.3)
        c.angles(0)
        c.yaw(0, 0.)
        c.angles(0)
    # shafts along the diagonals, approached from all sides by yawing
    for i in range(600 if big else 120):
        c = rec.chunk('diagonal')
        d = rng.choice([-1., 1.], 3)
        if i % 5 == 4: d[rng.integers(3)] = 0.
        d = d / np.linalg.norm(d)
        v = np.cross(d, rng.normal(size=3))
        v = v / np.linalg.norm(v)
        y = float(rng.uniform(-3, 3))
        s = gen.rotm(v, -y).dot(d)
        c.new(0, R=1., shaft=s, vert=v, hub=rng.uniform(-2, 2, 3), wind=d * 8.)
        for k in range(30):
            c.yaw(0, y + float(rng.integers(-30, 31)) * 2.3e-16 * (1 + abs(y)) + (1e-3 if k == 0 else -1e-9 if k == 1 else 0.))
            c.disk(0, 3)
        c.angles(0)
    for s, v, y in (([-0.6657176257407424, 0.6457405239075925, 0.3739508237210579], [-0.6807591354613962, -0.7307963317334614, 0.05003719627206517], 2.9089968241837365),
                    ([-0.9241091098211187, -0.19458814067742966, 0.32887354507974853], [-0.0796910004090619, -0.743576278514214, -0.6638852781051521], 1.3373683347765448)):
        c = rec.chunk('diagonal, rounded below')
        c.new(0, R=1., shaft=s, vert=v)
        c.yaw(0, y)
        c.disk(0, 7)
    # full turns of the yaw; sign and size of the yaw; a heading reached in several ways
    for i in range(200 if big else 40):
        c = rec.chunk('turns')
        sh = scen.turbine(c, 0, rng)
        o = scen.options(rng)
        P = scen.pts(rng, sh, 5)
        y = sh.yaw
        ref = c.query(0, P, chk=['outcome'], **o)
        same = lambda: c.query(0, P, chk=['outcome', 'rel'], rel=[dict(k='rigid', a=ref, axis=nums(sh.vert), angle='0', shift='0 0 0')], tol=1e-8, sc=2 * scen.speed(sh), **o)
        c.yaw(0, y + 2 * np.pi); same(); c.angles(0)
        c.yaw(0, y - 4 * np.pi); same(); c.angles(0)
        c.yaw(0, y + 1.); c.yaw(0, y); same(); c.angles(0)
        # wind and zero-yaw frame left alone, turbine rebuilt already yawed: frame turned instead of yaw
        M = gen.rotm(sh.vert, y)
        c.new(1, R=sh.R, shaft=M.dot(sh.shaft0), vert=sh.vert, hub=sh.hub, wind=sh.wind, ground=sh.ground)
        kw, w = c.lastload[0]
        c.load(1, **kw)
        b = c.query(1, P, chk=['outcome', 'rel'], rel=[dict(k='rigid', a=ref, axis=nums(sh.vert), angle='0', shift='0 0 0')], tol=1e-8, sc=2 * scen.speed(sh), **o)
        c.angles(1)
        # a vertical wind component changes neither heading nor skew
        if not o.get('only_ind'):
            continue
        c.wind(0, sh.wind + 3. * sh.vert)
        c.query(0, P, chk=['outcome', 'abs'], tol=1e-6, sc=scen.speed(sh), **o)
        c.query(0, P, chk=['outcome', 'rel'], rel=[dict(k='equal', a=ref)], tol=1e-8, sc=2 * scen.speed(sh), **o)
    # farms of turbines with different headings do not mix frames
    for i in range(30 if big else 8):
        c = rec.chunk('several')
        for t in range(3):
            scen.turbine(c, t, rng)
        for t in list(rng.permutation(3)) * 2:
            look(c, int(t), c.sh[int(t)], rng)
            c.yaw(int(t), float(rng.uniform(-1, 1)) + c.sh[int(t)].wind_angle())


def models(rec):
    return mc.run(rec, 'geometry', 'one')
