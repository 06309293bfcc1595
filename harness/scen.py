"""Scenarios shared by the turbine and farm drivers."""
import numpy as np
import gen

MODELS = ['VC', 'VCFF', 'VD', 'SS']


def place(rng, R, vert, ground, low=1.2):
    """hub position; above the ground plane through the origin if asked"""
    h = rng.uniform(-4, 4, 3) * R * (1 if rng.random() < .85 else 30.)     # sometimes far from the origin of coordinates
    if not ground and rng.random() < .2:
        return np.round(h)
    if ground:
        h = h - h.dot(vert) * vert + rng.uniform(low, max(4, low + 2)) * R * vert
    return h


def turbine(c, t, rng, R=None, frame=None, hub=None, yaw=None, skew=None, ground=None, model='VC', ncyl=None, kinds=('Ct', 'Gamma', 'fun'), load=True,
            exact=True, vertical=0., low=1.2, **lo):
    """a configured turbine. skew: None any (|.|<1.2, often zero), or the signed angle"""
    s, v = gen.rand_frame(rng) if frame is None else frame
    R = float(rng.choice([1., 1., 0.5, 8., 63.])) if R is None else R
    ground = bool(rng.random() < .35) if ground is None else ground
    if yaw is None:
        yaw = 0. if rng.random() < .3 else float(rng.uniform(-np.pi, np.pi) if rng.random() < .7 else rng.uniform(-10, 10) if rng.random() < .6 else gen.small(rng))
    if skew is None:
        skew = 0. if rng.random() < .4 else float(rng.uniform(-1.2, 1.2)) if rng.random() < .9 else gen.small(rng, -4.7, -1)
    if model != 'VC':
        skew = 0.
    w = gen.horiz_wind(rng, s, v, yaw + skew, vertical=vertical)
    c.new(t, R=R, shaft=s, vert=v, hub=place(rng, R, v, ground, low) if hub is None else hub, wind=w, ground=ground, model=model)
    if yaw != 0:
        c.yaw(t, yaw)
    if load:
        if ncyl is None:
            ncyl = int(rng.choice([1, 1, 2, 3])) if model == 'VC' else 1
        c.load(t, **(gen.exact_load if exact else gen.rand_load)(rng, c.sh[t], ncyl=ncyl, kinds=kinds, **lo))
    return c.sh[t]


COMPS = [dict(), dict(longi=True), dict(root=True), dict(longi=True, root=True), dict(tang=False, longi=True), dict(tang=False, root=True),
         dict(tang=False, longi=True, root=True), dict(tang=False)]


def options(rng, model='VC', comps=True):
    o = dict(COMPS[rng.integers(len(COMPS))]) if comps and model == 'VC' else {}
    if rng.random() < .4: o['only_ind'] = True
    if rng.random() < .3: o['no_wake'] = True
    if rng.random() < .3: o['ground'] = bool(rng.random() < .5)
    return o


def speed(sh):
    return float(np.linalg.norm(sh.wind))


def pts(rng, sh, n, ground=None, dmin=.2, above=False, both=True):
    """points clear of the vorticity, its image, and the sharp boundaries of masks and models"""
    out = []
    while len(out) < n:
        P = gen.points(rng, sh, n, dmin=dmin, root=True, ground=True if both else ground, above=above)
        for q in P:
            ok = True
            for g in (q, sh.mirror([q])[0]):
                x, y, z = sh.to_local([g])[0] / sh.R
                r = np.hypot(x, y)
                if min(abs(z), abs(z + .6), abs(r - 1.001), abs(np.hypot(r, z) - 6)) < 1e-5:
                    ok = False
            if ok and len(out) < n:
                out.append(q)
    return np.array(out)


def replay(module_out):
    return module_out
