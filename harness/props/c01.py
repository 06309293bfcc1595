"""C01: the field depends on the current settings, not on the history"""
import models as mc
import numpy as np
import gen, scen, behav
LEVEL = 'model_checking'
RULE = 'behaviours of the state machine generated by TLC, replayed into the code with queries in between; every answer is compared to all earlier answers of equal settings and to a newly built turbine'


def values(rng):
    s, v = gen.rand_frame(rng)
    R = float(rng.choice([1., 8., 63.]))
    ang = lambda: float(rng.uniform(.1, .45) * rng.choice([-1, 1]))
    y1, a1, f1 = ang(), ang(), .25
    if rng.random() < .3:
        a1 = y1        # aligned again after yawing
    lam = float(rng.choice([25., 40., np.inf]))
    r = np.linspace(.1, .95, 6) * R
    V = dict(shaft=s, vert=v, R=R, y0=0., y1=y1, y1t=y1 + 2 * np.pi * float(rng.choice([-1, 1, 2])), p0=scen.place(rng, R, v, True), p1=scen.place(rng, R, v, True),
             w0=gen.horiz_wind(rng, s, v, 0.), w1=gen.horiz_wind(rng, s, v, a1), c1=ang(), f1=gen.rotm(v, f1).dot(s))
    V['w2'] = V['w1'] * 1.7
    z = rng.random()
    if z < .25:         # another direction of exactly the same speed
        s, v = gen.AXFRAMES[rng.integers(len(gen.AXFRAMES))]
        s, v = np.array(s, float), np.array(v, float)
        V.update(shaft=s, vert=v, f1=gen.rotm(v, f1).dot(s), w0=8 * s + 6 * np.cross(v, s), w1=8 * s - 6 * np.cross(v, s))
        V['w2'] = 6 * s + 8 * np.cross(v, s) if rng.random() < .5 else V['w1'] * 1.7
        V['p0'], V['p1'] = scen.place(rng, R, v, True), scen.place(rng, R, v, True)
    elif z < .45:       # small changes of every setting
        e = float(rng.choice([1e-2, 1e-4, 1e-6]))
        V.update(y1=e, p1=V['p0'] + e * R * rng.uniform(-1, 1, 3), w1=gen.rotm(v, e).dot(V['w0']), c1=V['c1'] * e, f1=gen.rotm(v, -e).dot(s))
        V['w2'] = V['w1'] * (1 + e)
        V['y1t'] = V['y1'] + 2 * np.pi * float(rng.choice([-1, 1, 2]))
    if rng.random() < .2:
        V['c1'] = 0.        # no skew, prescribed
    V['l0'] = dict(kind='Ct', v=rng.uniform(.3, .8, 6), r=r, ncyl=1)
    V['l1'] = dict(kind='Ct', v=rng.uniform(.3, .8, 6), r=r, ncyl=3, lam=lam)
    V['l2'] = dict(kind='fun', v=rng.uniform(.3, .8), ncyl=1, law=(-.2, -3.) if rng.random() < .7 else (0., 0.)) if rng.random() < .5 else dict(kind='Gamma', v=rng.uniform(.5, 1., 6) * R * .01, r=r, ncyl=2, **(dict(lam=lam) if rng.random() < .5 else {}))
    return V


def step(c, V, a, ask):
    op = a['op']
    if op == 'Yaw': c.yaw(0, V[a['v']])
    elif op == 'Wind': c.wind(0, V[a['v']])
    elif op == 'Chi': c.chi(0, None if a['v'] == 'auto' else V['c1'])
    elif op == 'Load': c.load(0, **V[a['v']])
    elif op == 'Ground': c.ground(0, a['b'])
    elif op == 'Model': c.model(0, a['v'])
    elif op == 'Pos': c.pos(0, V[a['v']])
    elif op == 'Frame': c.frame(0, V['f1'], V['vert'])
    elif op == 'Angles': c.angles(0)
    elif op == 'Query': ask(0)


def run(rec, h, dense, label):
    rng = rec.rng
    V = values(rng)
    c = rec.chunk(label)
    c.new(0, R=V['R'], shaft=V['shaft'], vert=V['vert'], hub=V['p0'], wind=V['w0'])
    c.load(0, **V['l0'])
    P = V['p0'] + rng.uniform(-3, 3, (4, 3)) * V['R']
    # one point in the wake of the initial settings; asked also in other orders (same shape, same sums)
    P[0] = V['p0'] + V['R'] * (1.5 * V['shaft'] + .3 * V['vert'])
    n0 = [0]
    opts = [dict(longi=True, root=True), dict(no_wake=True, only_ind=True)]

    def ask(t, both=True):
        for o in (opts if both else opts[:1]):
            n0[0] += 1
            a = c.query(t, P, chk=['outcome', 'memo'], tol=1e-10, sc=20., **o)
            if n0[0] % 5 == 1 and c.ev[a - 1]['out'] == 'ok':
                idx = rng.permutation(4)
                c.query(t, P[idx], chk=['outcome', 'rel'], rel=[dict(k='subset', a=a, map=[int(j) + 1 for j in idx])], tol=1e-10, sc=20., **o)
        if both and rng.random() < .3:
            # another model for this query only leaves no trace
            c.query(t, P, chk=['outcome', 'memo'], tol=1e-10, sc=20., Model='VCFF', ground=bool(rng.random() < .5))
    if dense:
        ask(0)
    for a in h:
        step(c, V, a, ask)
        if rng.random() < .05:
            c.somebad(0)
            ask(0, False)
        if dense and a['op'] not in ('Query', 'Angles'):
            ask(0, False)
    ask(0)
    c.rebuild(0, 1)
    ask(1)
    ask(0, False)


def build(rec):
    rng = rec.rng
    two = behav.generate(rec, 'one', 2)
    three = behav.generate(rec, 'one', 3)
    long_ = behav.generate(rec, 'one', 24, simulate=400 if rec.thorough else 60)
    if not rec.thorough:
        three = [three[i] for i in rng.permutation(len(three))[:900]]
    for h in two:
        run(rec, h, True, 'exhaustive 2')
    for i, h in enumerate(three):
        run(rec, h, rec.thorough or i % 2 == 0, 'length 3')
    if rec.thorough:
        four = behav.generate(rec, 'one', 4)
        for i in rng.permutation(len(four))[:12000]:
            run(rec, four[i], True, 'length 4')
    for i, h in enumerate(long_):
        run(rec, h, i % 2 == 0, 'long')


def models(rec):
    return mc.run(rec, 'one')
