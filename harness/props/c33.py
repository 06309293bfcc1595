"""C33: the builders of the articles make the turbines and farms described, and their sections are those asked for"""
import types
import numpy as np
import gen, scen
from rec import call, num, nums, digest
from props.c31 import modules
LEVEL = 'model_checking'
RULE = 'turbines and farms made by the builders of the article helpers next to the ones they describe, made through the library: settings decided by the specification, answers of the sections compared'
OPT = dict(only_ind=0, longi=0, tang=1, root=0, no_wake=0, ground='', model='', rff='6')


def section(c, vc, fn, a1, a2, a3=None, horizontal=True, hub=0., exact=True, tol=2e-6, sc=1., mirror=None):
    """one of the functions of the built object"""
    g = [np.array(a, dtype=float) for a in (a1, a2) if a is not None]
    if a3 is not None: g.append(np.array(a3, dtype=float))
    pre = digest(g)
    e = dict(op='Query', t=0, fn=fn, o_=dict(OPT), a1=nums(a1), a2=nums(a2) if a2 is not None else '0', a3='' if a3 is None else nums(a3), horizontal=str(int(horizontal)),
             g1='', g2='', gsh=[])
    if fn == 'fU':
        P, comps = np.column_stack([g[0].ravel(), g[1].ravel() + hub, g[2].ravel()]), [1, 2, 3]
        out, v = call(lambda: vc.fU(*g))
    elif fn == 'fHorz':
        A, B = np.meshgrid(a1, a2)
        P, comps = np.column_stack([A.ravel(), A.ravel() * 0 + hub, B.ravel()]), [1, 3]
        out, v = call(lambda: vc.fHorz(*g))
    elif fn == 'fVert':
        A, B = np.meshgrid(a1, a2)
        P, comps = np.column_stack([A.ravel() * 0, A.ravel() + hub, B.ravel()]), [2, 3]
        out, v = call(lambda: vc.fVert(*g))
    elif fn == 'fAxial':
        P, comps = np.column_stack([g[0] * 0, g[0] * 0 + hub, g[0]]), [1, 2, 3]
        out, v = call(lambda: vc.fAxial(g[0]))
    else:
        z0 = float(np.ravel(a2)[0])
        P = np.column_stack([g[0] if horizontal else g[0] * 0, g[0] * 0 + hub if horizontal else g[0] + hub, g[0] * 0 + z0])
        comps = [1, 2, 3]
        out, v = call(lambda: vc.fRadial(g[0], z0) if z0 else vc.fRadial(g[0]))
    e.update(X=nums(P[:, 0]), Y=nums(P[:, 1]), Z=nums(P[:, 2]), out=out, pre=pre, post=digest(g), comps=comps, tol=num(tol), sc=num(sc), o=[], sho=[], shi=[])
    chk = ['pure', 'section', 'ok']
    if out == 'ok':
        try:
            v = [np.asarray(x, dtype=float) for x in v]
            if fn in ('fHorz', 'fVert'):
                e.update(g1=nums(v[0]), g2=nums(v[1]), gsh=list(v[0].shape))
                v = v[2:]
            e.update(o=[nums(x) for x in v], sho=[list(x.shape) for x in v], shi=list(A.shape if fn in ('fHorz', 'fVert') else g[0].shape))
            chk.append('shape')
        except Exception as x:
            e.update(out='error', msg=repr(x)[:200])
    else:
        e['msg'] = repr(v)[:200]
    if exact:
        chk.append('parts')
    if mirror is not None:
        e['rel'] = [dict(k='part', a=c.query(mirror, P, chk=['outcome'], tol=1e-9, sc=sc))]
        chk.append('rel')
        e['t'] = mirror
    c.add(chk=chk, **e)


def clear(rng, n, chi, lo, hi):
    """values clear of the edges of the tubes"""
    out = []
    while len(out) < n:
        x = float(rng.uniform(lo, hi))
        if all(abs(abs(x) - b) > .03 for b in (0., 1.)): out.append(x)
    return np.array(out)


def models_(rec, B):
    rng = rec.rng
    c = rec.chunk('model')
    yaw = 0. if rng.random() < .4 else float([-30, -20, 10, 15][rng.integers(4)] if rng.random() < .5 else rng.uniform(-40, 40))
    lam = [np.inf, 99, 30, 6, 10., 25][rng.integers(6)]
    CT = float([.4, .64, .95][rng.integers(3)] if rng.random() < .4 else rng.uniform(.05, .96))
    HH = float([1.5, 2, 9999, 9, 8.99, 1000, 0., 4][rng.integers(8)])
    model = 'VC' if yaw or lam < 30 or rng.random() < .5 else ['VD', 'SS', 'VCFF'][rng.integers(3)]
    U0 = 1 if rng.random() < .4 else float(rng.uniform(.5, 12))
    hor = bool(rng.random() < .5)
    gamma = mid = None
    kw = dict(U0=U0, Model=model)
    ad = None
    if lam >= 30 and rng.random() < .5:
        if rng.random() < .5: gamma = float(rng.uniform(-1.5, -.1) * U0)
        if rng.random() < .7 or gamma is None:
            mid = float(rng.uniform(.5, .95) * U0)
    if mid is not None or rng.random() < .3:
        ad = B.OutputAD()
        ad.CT, ad.HH, ad.Lambda, ad.Yaw, ad.Horizontal, ad.Vertical = CT, HH, lam, yaw, hor, not hor
        w = np.full((5, 7), .77)
        ad.x = ad.y = np.linspace(-3, 3, 7); ad.z = np.linspace(-4, 4, 5)
        w[2, 3] = mid if mid is not None else .9
        ad.U = ad.V = w * 0 + 5.; ad.W = w
    if mid is not None: kw['MatchMidVel'] = True
    elif rng.random() < .3: kw['MatchMidVel'] = False
    if gamma is not None: kw['gamma_t'] = gamma
    if ad is not None:
        f = lambda: B.setupModel(ad, **kw)
    elif rng.random() < .5:
        f = lambda: B.setupModel(CT=CT, HH=HH, Lambda=lam, Horizontal=hor, Yaw=yaw, **kw)
    else:
        f = lambda: B.setupModel(None, CT, HH, lam, hor, yaw, **kw)
    out, vc = call(f)
    # the turbine described
    y = yaw * np.pi / 180
    c.new(0, R=1., shaft=[0, 0, 1.], vert=[0, 1., 0], hub=[0, HH, 0], wind=[0, 0, 1.], ground=HH < 9, model=model)
    c.wind(0, [U0 * np.sin(y), 0, U0 * np.cos(y)])
    c.chi(0, y * (1 + .3 * (1 - np.sqrt(1 - CT))))
    r = np.linspace(0, 1, 100)
    swirl = lam < 30
    if gamma is not None or mid is not None:
        g = gamma if gamma is not None else -2 * (U0 * np.cos(y) - mid)
        c.load(0, 'fun', np.full(100, CT), r=r, lam=lam, ncyl=1, law=(g, 0.))
    else:
        c.load(0, 'Ct', np.where((r < .1) & swirl, CT * r / .1, CT), r=r, lam=lam, ncyl=30 if swirl else 1)
    c.add(op='Note', t=0, chk=['built'], out=out, msg='' if out == 'ok' else repr(vc)[:200],
          a=dict(Yaw=num(yaw), CT=num(CT), U0=num(U0), Lambda=num(lam), HH=num(HH), Model=model, gamma='' if gamma is None else num(gamma), mid='' if mid is None or gamma is not None else num(mid)))
    if out != 'ok': return
    exact = not swirl
    tol = 2e-6 if HH < 500 else 1e-5
    chi = float(np.degrees(y))
    for fn in rng.permutation(['fU', 'fHorz', 'fVert', 'fAxial', 'fRadial'])[:5 if rec.thorough else 3]:
        n1, n2 = (int(rng.integers(1, 5)), int(rng.integers(1, 5)))
        zz = lambda n: np.array([x for x in rng.uniform(-4, 4, n)])
        # rows clear of the skewed tube's sheet are not guaranteed: keep to points upstream of the rotor or far to the side when the wake is deflected
        up = (lambda n: -np.abs(clear(rng, n, chi, .05, 4.))) if yaw else (lambda n: clear(rng, n, chi, -4, 4))
        rad = lambda n: clear(rng, n, chi, -3, 3)
        if fn == 'fU':
            a1, a2, a3 = rad(n1), rad(n1), up(n1)
            if HH < 9: a2 = np.maximum(a2, -HH)
            if not yaw and np.any(np.abs(np.hypot(a1, a2) - 1) < .03): a1 = a1 * 0 + .4; a2 = np.abs(a2) * 0 + .3
            if HH < 9 and HH < 1.1: a1 = a1 + 4.
        elif fn == 'fHorz': a1, a2, a3 = rad(n1), up(n2), None
        elif fn == 'fVert': a1, a2, a3 = (np.abs(rad(n1)) if HH < 9 else rad(n1)), up(n2), None
        elif fn == 'fAxial': a1, a2, a3 = up(n1), None, None
        else:
            a1, a2, a3 = (np.abs(rad(n1)) if HH < 9 else rad(n1)), [float(up(1)[0])] if rng.random() < .8 or model != 'VC' or yaw else [0.], None
        if HH == 0. and fn != 'fU' and fn != 'fAxial': a1 = np.abs(a1) + (0 if yaw == 0 else 0)
        section(c, vc, fn, a1, a2, a3, horizontal=hor, hub=HH, exact=exact and not (model == 'VD' and fn == 'fAxial') and (rec.thorough or rng.random() < .6), tol=tol, sc=U0, mirror=0)


def law():
    return [None, (-.1, -.4), (0., -.55), (-.02, -.5)]


def floris(rec, B):
    """farms from an array of thrusts"""
    rng = rec.rng
    c = rec.chunk('farm')
    nx, ny = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    CTs = rng.uniform(.1, .95, (nx, ny))
    if rng.random() < .3: CTs = np.asfortranarray(CTs)
    HH = float([1.5, 9.9, 10., 1000., .7, 3][rng.integers(6)])
    S = float([3, 5., 2.5][rng.integers(3)])
    model = 'VC' if rng.random() < .6 else ['SS', 'VD', 'VCFF'][rng.integers(3)]
    l = law()[rng.integers(4)]
    kw = {}
    if l is not None: kw['gamma_t_Ct'] = lambda Ct: l[0] + l[1] * np.asarray(Ct)
    if model != 'VC' or rng.random() < .5: kw['Model'] = model
    pre = digest([CTs])
    out, wf = call(lambda: B.VCFarmFromFloris(CTs, HH, S, **kw))
    ids = []
    for k in range(nx * ny):
        col, row = k % nx, k // nx
        c.new(k, R=.5, shaft=[1., 0, 0], vert=[0, 0, 1.], hub=[row * S, (col - nx // 2) * S, HH], wind=[1., 0, 0], ground=HH < 10, model=model)
        ct = CTs[col, row]
        if l is None: c.load(k, 'Ct', ct)
        else: c.load(k, 'fun', ct, law=l)
        ids.append(k)
    c.farmnew(0, ids)
    c.add(op='Note', f=0, chk=['farmbuilt', 'pure'], out=out, pre=pre, post=digest([CTs]), msg='' if out == 'ok' else repr(wf)[:200],
          a=dict(nx=nx, ny=ny, S=num(S), HH=num(HH), CTs=nums(CTs), pos='', law='' if l is None else nums(l), Model=model))
    if out != 'ok': return
    c.farm[0] = wf
    c.count(0)
    c.layout(0)
    for k in range(2):
        hubs = np.array([c.sh[t].hub for t in ids])
        P = hubs[rng.integers(0, len(ids), 4)] + rng.uniform(-2, 2, (4, 3)) + np.array([.123, 0, 0])
        if HH < 10: P[:, 2] = np.abs(P[:, 2])
        o = {}
        if rng.random() < .3: o['no_wake'] = True
        if rng.random() < .2: o['ground'] = bool(rng.random() < .5)
        q = [c.query(t, P, chk=['outcome'], tol=1e-10, sc=1., only_ind=True, **o) for t in ids]
        c.farmquery(0, P, q, U0=[1., 0, 0] if rng.random() < .7 else None, tol=1e-10, sc=1., chk=['farm', 'farmout', 'shape'], **o)


def adfarm(rec, B):
    """velocities along the lines through a farm given by positions and thrusts"""
    rng = rec.rng
    c = rec.chunk('lines')
    n = int(rng.integers(1, 6))
    low = rng.random() < .6
    pos = np.column_stack([rng.uniform(0, 20, n), rng.uniform(-6, 6, n), rng.uniform(.7, 9, n) if low else rng.uniform(10, 30, n)])
    if rng.random() < .25: pos[-1, 2] = 10. if low else 9.5      # the last one tells whether there is a ground
    CTs = rng.uniform(.1, .95, n)
    npt = int(rng.integers(1, 6))
    top = rng.uniform(-5, 20, (npt, 3))
    xyz = np.zeros((npt, 3, 2))
    near = pos[rng.integers(0, n, npt)] + rng.uniform(-2, 2, (npt, 3))
    xyz[:, :, 0] = near; xyz[:, :, 1] = top
    xyz[:, 2, :] = np.abs(xyz[:, 2, :])
    l = law()[rng.integers(4)]
    d = dict(xyz_wt=pos.copy(), ct_wt=CTs.copy(), xyz=xyz.copy(), uvw=xyz * 0 + 9.)
    kw = {} if l is None else dict(gamma_t_Ct=lambda Ct: l[0] + l[1] * np.asarray(Ct))
    pre = digest([d[k] for k in sorted(d)])
    out, v = call(lambda: B.ADFarm2VCFarm(d, 'farm', **kw))
    post = digest([d[k] for k in sorted(d)])
    ids = list(range(n))
    for k in ids:
        c.new(k, R=.5, shaft=[1., 0, 0], vert=[0, 0, 1.], hub=pos[k], wind=[1., 0, 0])
        if l is None: c.load(k, 'Ct', CTs[k])
        else: c.load(k, 'fun', CTs[k], law=l)
    c.farmnew(0, ids)
    c.add(op='Note', f=0, chk=['farmbuilt', 'pure'], out=out, pre=pre, post=post, msg='' if out == 'ok' else repr(v)[:200],
          a=dict(nx=n, ny=1, S='0', HH='0', CTs=nums(CTs), pos=nums(pos), law='' if l is None else nums(l), Model='VC'))
    if out != 'ok': return
    g = bool(pos[-1, 2] < 10)
    for line in (1, 2):
        P = xyz[:, :, line - 1]
        q = [c.query(t, P, chk=['outcome', 'abs'] if rec.thorough else ['outcome'], tol=2e-6, sc=1., only_ind=True, ground=g, Model='VC', omit=False) for t in ids]
        e = dict(op='FarmQuery', f=0, o_=c.ev[q[-1] - 1]['o_'], line=line, m=q, X=nums(P[:, 0]), Y=nums(P[:, 1]), Z=nums(P[:, 2]), out='ok', tol=num(1e-10), sc=num(1.), chk=['farmline'])
        x = np.asarray(v[line - 1], dtype=float)
        e.update(o=[nums(x)], sho=[list(x.shape)], shi=[npt])
        c.add(**e)


def build(rec):
    _, B = modules()
    for i in range(500 if rec.thorough else 110):
        models_(rec, B)
        if i % 2 == 0: floris(rec, B)
        else: adfarm(rec, B)
