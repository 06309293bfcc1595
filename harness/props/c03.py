"""C03: turbines are isolated from each other and from the arrays they were given"""
import models as mc
import numpy as np
import gen, scen, behav
LEVEL = 'model_checking'
RULE = 'behaviours generated by TLC in which two turbines share arrays of the caller, which are edited in between (as are results and layouts); all turbines asked after every step and compared to the specification state'


def run(rec, h, label):
    rng = rec.rng
    c = rec.chunk(label)
    s, v = gen.rand_frame(rng)
    R = float(rng.choice([1., 40.]))
    A = dict(ha=scen.place(rng, R, v, False), wa=gen.horiz_wind(rng, s, v, .3), fa=gen.rotm(v, .2).dot(s), va=np.array(v, float))
    r = np.linspace(.1, .95, 5) * R
    A['la'] = (r, rng.uniform(.3, .7, 5))
    A['lf'] = (r.copy(), rng.uniform(.3, .7, 5))
    sh = dict(shaft=np.array(s, float), vert=np.array(v, float), hub=scen.place(rng, R, v, False), wind=gen.horiz_wind(rng, s, v, 0.))
    mode = rng.integers(3)
    ncyl = [0, 3, 1][rng.integers(3)]
    for t in range(2):
        if mode == 0:     # both built from the same arrays
            c.new(t, R=R, share=sh, **sh)
        elif mode == 1:   # from the defaults
            c.new(t, R=R, default=('shaft', 'vert', 'hub', 'wind', 'ground', 'model'))
        else:
            c.new(t, R=R, shaft=s, vert=v, hub=sh['hub'] + t * R, wind=sh['wind'])
        c.load(t, 'Ct', np.full(5, .5 + .1 * t), r=r.copy())
    if mode == 1:
        A['wa'], A['fa'], A['va'] = np.array([1., 0, 8]), gen.rotm((0, 1, 0), .2).dot([0, 0, 1.]), np.array([0., 1, 0])
    if rng.random() < .5:
        A['wa'], A['ha'] = A['wa'].reshape(3, 1), A['ha'].reshape(1, 3)       # other shapes are accepted
    c.farmnew('F', [0, 1])
    P = np.array(A['ha']).ravel() + rng.uniform(-3, 3, (4, 3)) * R
    Lay = np.array([scen.place(rng, R, v, False) for t in range(2)])

    def ask():
        for t in (0, 1):
            c.query(t, P, chk=['outcome', 'memo'], tol=1e-10, sc=20.)
            c.loading(t)
            if outline: c.disk(t, 4)
    outline = bool(rng.random() < .4)
    ask()
    c.layout('F', keep=bool(rng.random() < .5))
    if mode == 0:
        for n in ('shaft', 'vert', 'hub', 'wind'):
            c.held[n] = sh[n]
            if rng.random() < .5: c.mutate([n])
        ask()
    for a in h:
        op, t, w = a['op'], a.get('t'), a.get('v')
        if op == 'Pos': c.pos(t, None, arr=A['ha'])
        elif op == 'Wind': c.wind(t, None, arr=A['wa'])
        elif op == 'Load':
            if w == 'la': c.load(t, 'Ct', None, arrs=A['la'], ncyl=ncyl, lam=float(rng.choice([25., np.inf])))
            else: c.load(t, 'fun', None, arrs=A['lf'], ncyl=0, law=(-.3, -2.), keeplaw=True)
        elif op == 'Frame': c.frame(t, None, None, arrs=(A['fa'], A['va'])) if not A.get('fdirty') else c.frame(t, gen.rotm(c.sh[t].vert, -.1).dot(c.sh[t].shaft0), c.sh[t].vert)
        elif op == 'Yaw': c.yaw(t, .4)
        elif op == 'Query': c.query(t, P, chk=['outcome', 'memo'], tol=1e-10, sc=20., keep=True)
        elif op == 'LayoutGet': c.layout('F', keep=True)
        elif op == 'SetLayout': c.setlayout('F', None, arr=Lay)
        elif op == 'Mutate':
            if w == 'ha': c.held['hub'] = A['ha']; c.mutate(['hub'])
            elif w == 'wa': c.held['wind'] = A['wa']; c.mutate(['wind'])
            elif w == 'la': c.held['v'] = A['la']; c.mutate(['v'])
            elif w == 'fa': c.held['shaft'] = (A['fa'], A['va']); c.mutate(['shaft']); A['fdirty'] = True
            elif w == 'law': c.mutate([k for k in c.held if isinstance(k, tuple) and k[1] == 'law'])
            elif w == 'got': c.mutate([('F', 'got')])
            elif w == 'lay': c.held['hub'] = Lay; c.mutate(['hub'])
            elif w == 'res': c.mutate([k for k in c.held if isinstance(k, tuple) and k[0] == 'q'])
        ask()
        c.layout('F', keep=True)
    # what the settings say: rebuilt turbines (from fresh arrays) agree
    for t in (0, 1):
        c.rebuild(t, t + 2)
        c.query(t + 2, P, chk=['outcome', 'memo'], tol=1e-10, sc=20.)
    ask()
    c.angles(0)
    c.angles(1)


def build(rec):
    rng = rec.rng
    two = behav.generate(rec, 'alias', 2)
    three = behav.generate(rec, 'alias', 3)
    long_ = behav.generate(rec, 'alias', 14, simulate=1500 if rec.thorough else 150)
    if not rec.thorough:
        three = [three[i] for i in rng.permutation(len(three))[:700]]
    else:
        four = behav.generate(rec, 'alias', 4)
        three = three + [four[i] for i in rng.permutation(len(four))[:8000]]
    for h in two: run(rec, h, 'exhaustive 2')
    for h in three: run(rec, h, 'length 3')
    for h in long_: run(rec, h, 'long')


def models(rec):
    return mc.run(rec, 'alias')
