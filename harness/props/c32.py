"""C32: settings given when a turbine is made act like settings made later"""
import models as mc
import numpy as np
import gen, scen
LEVEL = 'model_checking'
RULE = 'pairs of turbines with the same settings, one made with all of them at once, the other made with few and given the rest later in any order: the same answers, which are those of the specification'
ALL = ('shaft', 'vert', 'hub', 'wind', 'ground', 'model')


def later(c, t, rng, todo, V):
    """give turbine t the settings of V in todo, in any order that the meaning allows (the loading is made with the wind and the tip-speed ratio)"""
    todo = list(todo)
    while todo:
        ready = [k for k in todo if k != 'load' or ('wind' not in todo and 'lam' not in todo)]
        k = ready[rng.integers(len(ready))]
        todo.remove(k)
        if k == 'frame': c.frame(t, V['shaft'], V['vert'])
        elif k == 'hub': c.pos(t, V['hub'])
        elif k == 'wind': c.wind(t, V['wind'])
        elif k == 'ground': c.ground(t, V['ground'])
        elif k == 'model': c.model(t, V['model'])
        elif k == 'load': c.load(t, 'Ct', V['ct'], lam=V['lam'] if V['givelam'] else None)
        if rng.random() < .15 and abs(np.dot(c.sh[t].wind, c.sh[t].vert)) < 1e-9:
            c.angles(t)
        if rng.random() < .1 and k != 'load' and c.sh[t].loaded is not True:
            c.query(t, V['P'][:1], chk=['outcome'])       # not loaded yet: an error


def values(rng, i):
    s, v = gen.rand_frame(rng)
    if rng.random() < .25: s, v = np.array([0., 0, 1]), np.array([0., 1, 0])
    R = float(rng.choice([1., 8., 63., .5]))
    model = ['VC', 'VC', 'VC', 'VCFF', 'SS', 'VD'][i % 6]
    skew = 0. if model != 'VC' or rng.random() < .5 else float(rng.uniform(-1.1, 1.1))
    lam = np.inf if rng.random() < .4 else float(rng.choice([3., 7., 25., 35.]))   # not 20: there rounding of Lambda decides on the swirl
    ct = rng.uniform(.1, .95) if rng.random() < .6 else rng.uniform(.1, .9, int(rng.integers(1, 6)))
    if rng.random() < .1: ct = ct * 0.
    if rng.random() < .1: ct = np.float64(1.) if np.ndim(ct) == 0 else ct * 0 + 1.
    V = dict(shaft=s, vert=v, R=R, model=model, ground=bool(rng.random() < .4), lam=lam, ct=ct, wind=gen.horiz_wind(rng, s, v, skew), chi=skew)
    V['hub'] = scen.place(rng, R, v, V['ground'])
    return V


def build(rec):
    rng = rec.rng
    for i in range(1500 if rec.thorough else 260):
        c = rec.chunk('made')
        V = values(rng, i)
        c.derived = .1
        loaded = rng.random() < .85
        order = int(rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]))
        dflt = [k for k in ALL if rng.random() < .15 and order == 0 and k in ('ground', 'model') and not V['ground'] and V['model'] == 'VC']
        kw = {} if np.isinf(V['lam']) and rng.random() < .5 else dict(lam=V['lam'])
        if loaded: kw['ct'] = V['ct']
        c.new(0, R=V['R'], shaft=V['shaft'], vert=V['vert'], hub=V['hub'], wind=V['wind'], ground=V['ground'], model=V['model'], default=dflt, places=order, **kw)
        sh = c.sh[0]
        V['P'] = scen.pts(rng, sh, 4)
        exact = loaded and V['lam'] > 20      # below, the solver stops at its own tolerance: compared between turbines only
        # others: made with some of the settings, given the rest later
        for t in (1, 2):
            some = [k for k in ('frame', 'hub', 'wind', 'ground', 'model') if rng.random() < .5]
            late = [k for k in ('frame', 'hub', 'wind', 'ground', 'model') if k not in some]
            d = []
            if 'frame' in late: d += ['shaft', 'vert']
            d += [k for k in ('hub', 'wind', 'ground', 'model') if k in late]
            V['givelam'] = np.isfinite(V['lam']) and rng.random() < .5
            kw = dict(lam=V['lam']) if not V['givelam'] and np.isfinite(V['lam']) else {}
            atonce = loaded and 'wind' in some and not V['givelam'] and rng.random() < .4
            if atonce: kw['ct'] = V['ct']
            elif loaded: late.append('load')
            c.new(t, R=V['R'], shaft=V['shaft'], vert=V['vert'], hub=V['hub'], wind=V['wind'], ground=V['ground'] if 'ground' in some else False,
                  model=V['model'] if 'model' in some else 'VC', default=d, **kw)
            if V['givelam'] and not loaded:
                V['givelam'] = False
            later(c, t, rng, late, V)
        sc = scen.speed(sh)
        for k in range(2):
            o = scen.options(rng, V['model'])
            for t in rng.permutation(3):
                c.query(int(t), V['P'], chk=['outcome', 'memo'] + (['abs'] if t == 0 and exact else []), tol=2e-6 if t == 0 else 1e-9, sc=sc, **o)
        # the wind changes afterwards: the loading stays that of the wind it was made with, however it was made
        if loaded and rng.random() < .5:
            w = gen.rotm(V['vert'], 0. if V['model'] != 'VC' else float(rng.uniform(-.5, .5))).dot(V['wind']) * float(rng.uniform(.5, 2))
            for t in range(3): c.wind(t, w)
            V['P'] = scen.pts(rng, c.sh[0], 4)
            o = scen.options(rng, V['model'])
            for t in range(3):
                c.query(t, V['P'], chk=['outcome', 'memo'] + (['abs'] if t == 0 and exact else []), tol=2e-6 if t == 0 else 1e-9, sc=sc + float(np.linalg.norm(w)), **o)
        if loaded and rng.random() < .3:      # and a new loading replaces it
            for t in range(3): c.load(t, 'Ct', .5)
            for t in range(3): c.query(t, V['P'], chk=['outcome', 'memo'], tol=1e-9, sc=sc)
        for t in range(3): c.angles(t)


def models(rec):
    return mc.run(rec, 'one')
