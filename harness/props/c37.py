"""C37: the stored simulation handed out is the one of the case asked for"""
import os, tempfile, shutil, pickle
import numpy as np
import scipy.io
import gen, scen
from rec import call, num, nums, digest
from props.c31 import modules
LEVEL = 'model_checking'
RULE = 'data directories filled with several simulations of neighbouring cases; cases asked for in any order; file, slice, section, line and error decided by the specification from what was stored'
OPT = dict()


def axis(rng, n, lo=-3., hi=3., zero=True):
    """n increasing values with three decimals, clear of +-1"""
    while True:
        a = np.unique(np.round(rng.uniform(lo, hi, n), 2 if rng.random() < .5 else 3))
        if zero and len(a): a[np.argmin(np.abs(a))] = 0.
        a = np.unique(a)
        if len(a) == n and np.all(np.diff(a) > .05) and np.all(np.abs(np.abs(a) - 1) > .04): return a


def fields(rng, nz, nx):
    return [rng.uniform(.5, 1.3, (nz, nx)) for _ in range(3)]


CTS = [40, 57, 58, 29, 64, 80, 81, 82, 95, 5, 10]


class Store:
    """a scratch data directory and what is in it"""
    def __init__(self, rec, c, top):
        self.c, self.rng, self.top = c, rec.rng, top
        for d in ('data/Ground', 'data/ProjCorr', 'work'):
            os.makedirs(os.path.join(top, d))
        os.chdir(os.path.join(top, 'work'))
        self.planes, self.projs, self.sims = [], [], {}
        self.axes = {}
        self.zero = True

    def axis(self, n, lo=-3., hi=3.):
        """an axis, which does not always have a node at the origin"""
        return axis(self.rng, n, lo, hi, self.zero or self.rng.random() < .5)

    def save(self, path, **d):
        self.c.add(op='Save', key=path, data=d, chk=[])

    def plane(self, a):
        """store the plane of case a (not always complete)"""
        rng = self.rng
        hor = a['horizontal'] == '1'
        lam, hh = (99 if float(a['Lambda']) > 20 else a['lam']), (99 if float(a['HH']) > 9 else a['hh'])
        base = 'CT0%d_HH%02d_Lambda%02d_Yaw%s' % (a['ct'], hh, lam, '%02d' % -a['yaw'])
        nx, nz = int(rng.integers(4, 8)), int(rng.integers(4, 8))
        if hh == 99:
            x, z = self.axis(nx), self.axis(nz, -4, 4)
            if rng.random() < .05: x[1] = x[0]
            U, V, W = fields(rng, nz, nx)
            X, Z = np.meshgrid(x, z)
            scipy.io.savemat('../data/AD_%s.mat' % base, dict(x=X, z=Z, u=U, v=V, w=W))
            self.save('AD_%s.mat' % base, x=nums(x), z=nums(z), U=nums(U), V=nums(V), W=nums(W))
        else:
            side = 'Horizontal' if hor else 'Vertical'
            fx = 'Horizontal_X' if hor else 'Vertical_Y_HH20' if hh == 20 else 'Vertical_Y_HH15'
            for f, k in ((fx, nx), (side + '_Z', nz)):
                if f not in self.axes:
                    low = -hh / 10. if not hor and f == fx else -3
                    self.axes[f] = self.axis(k, low, 3. if f == fx else 4.)
                    np.savetxt('../data/Ground/%s.csv' % f, self.axes[f].reshape(1, -1) if rng.random() < .5 else self.axes[f], delimiter=',', fmt='%.17g')
                    self.save('Ground/%s.csv' % f, v=nums(self.axes[f]))
            nx, nz = len(self.axes[fx]), len(self.axes[side + '_Z'])
            F = fields(rng, nz, nx) + [rng.normal(size=(nz, nx))]
            miss = rng.integers(4) if rng.random() < .1 else -1
            for k, f in enumerate(('U', 'V', 'W', 'Om')):
                if k == miss: continue
                name = 'Ground/%s_%s_%s.csv' % (base, side, f)
                np.savetxt('../data/' + name, F[k], delimiter=',', fmt='%.17g')
                self.save(name, v=nums(F[k]))
        self.planes.append(a)

    def proj(self, ct, suffix, hh, x=None, side=None, hor=True):
        rng = self.rng
        x = axis(rng, int(rng.integers(4, 7)), -4, 4) if x is None else x
        y = side if side is not None and hor else axis(rng, int(rng.integers(4, 7)))
        z = (side if side is not None and not hor else axis(rng, int(rng.integers(4, 7)), -2, 3)) + hh
        if rng.random() < .5 and side is None: z = np.round(z + .013, 3)
        u, v, w = [rng.uniform(.5, 1.3, (len(x), len(y), len(z))) for _ in range(3)]
        name = 'ProjCorr/Layout1x1_CT0%02d%s.npz' % (ct, suffix)
        np.savez('../data/' + name, x1=x, y1=y, z1=z, u=u, v=v, w=w)
        self.save(name, x=nums(x), y=nums(y), z=nums(z), u=nums(u))
        self.projs.append((ct, suffix, hh))

    def lines(self):
        rng = self.rng
        d = {}
        for k in range(int(rng.integers(2, 6))):
            nx, ny = [(1, 1), (2, 3), (3, 2), (1, 4), (2, 2), (3, 1)][rng.integers(6)]
            S, ct, hh = int(rng.choice([3, 5, 10, 2])), int(rng.choice(CTS)), int(rng.choice([150, 75, 1000, 999900, 200]))
            if nx * ny == 1: S0 = 0
            else: S0 = S
            n = nx * ny
            m = int(rng.integers(1, 7))
            xyz = rng.uniform(-6, 10, (m, 3, 2)); xyz[:, 0, 0] = np.sort(xyz[:, 0, 0])
            uvw = rng.uniform(.5, 1.2, (m, 3, 2))
            pos = np.zeros((n, 3))
            rows = np.arange(ny) * float(S) if rng.random() < .5 else np.concatenate([[0.], np.cumsum(rng.uniform(1., 7., ny - 1))])
            pos[:, 0] = np.repeat(rows, nx); pos[:, 1] = np.tile(np.arange(nx), ny) * S; pos[:, 2] = hh / 100.
            cts = rng.uniform(.3, .9, n)
            name = 'd%d_%dx%d_ct%.2f_hh%.2f' % (S0, nx, ny, ct / 100., hh / 100.)
            D = dict(xyz=xyz, uvw=uvw, xyz_wt=pos, ct_wt=cts)
            d[name] = D
            self.sims[name] = (S, '%dx%d' % (nx, ny), ct, hh)
            self.save('sim ' + name, id=digest([D[q] for q in sorted(D)]), nx=nx, ny=ny, cts=nums(cts), rows=nums(rows),
                      xm=nums(xyz[:, 0, 0]), um=nums(uvw[:, 0, 0]), xt=nums(xyz[:, 0, 1]), ut=nums(uvw[:, 0, 1]))
        with open('../data/CFD_AD_Farm_lines_All.pkl', 'wb') as f:
            pickle.dump(d, f)


def case(rng):
    free = rng.random() < .55
    hh = int(rng.choice([15, 20, 10, 15, 20, 10, 15, 20, 90]))
    HH = float([9999., 9.9, 10., 1e4][rng.integers(4)]) if free else hh / 10.
    lam = int(rng.choice([6, 10, 20, 21, 30, 99])) if rng.random() < .5 else 99
    Lam = np.inf if lam == 99 and rng.random() < .5 else lam
    yaw = 0 if rng.random() < (.4 if free else .85) else int(rng.choice([-30, -20, 20, -5, 5]))
    hor = rng.random() < (.85 if free else .5)
    ct = int(rng.choice(CTS))
    return dict(CT=num(ct / 100.), ct=ct, HH=num(HH), hh=hh, Lambda=num(Lam), lam=lam, yaw=yaw, horizontal=str(int(hor)))


def near(rng, a):
    """a case that differs in one respect"""
    b = dict(a); n = case(rng)
    for k in [('CT', 'ct'), ('HH', 'hh'), ('Lambda', 'lam'), ('yaw',), ('horizontal',)][rng.integers(5)]: b[k] = n[k]
    return b


def load(c, B, a):
    L = float(a['Lambda']); L = L if np.isinf(L) else int(L)
    args = (float(a['CT']), float(a['HH']), L, a['horizontal'] == '1', a['yaw'])
    if c.rng.random() < .5: out, v = call(B.loadPlane, *args)
    else: out, v = call(lambda: B.loadPlane(CT=args[0], HH=args[1], Lambda=args[2], Horizontal=args[3], Yaw=args[4]))
    r = dict(none='0')
    msg = '' if out == 'ok' else repr(v)[:200]
    if out == 'ok' and v is None: r = dict(none='1')
    elif out == 'ok':
        try:
            r.update(x=nums(v.x), y=nums(v.y), z=nums(v.z), shape=list(np.shape(v.W)), X=nums(v.X), Y=nums(v.Y), Z=nums(v.Z), U=nums(v.U), V=nums(v.V), W=nums(v.W), O=nums(v.O),
                     CT=num(v.CT), HH=num(v.HH), Lambda=num(v.Lambda), Yaw=num(v.Yaw), horizontal=str(int(v.Horizontal)), vertical=str(int(v.Vertical)))
        except Exception as x:
            out, msg = 'error', repr(x)[:200]
    c.add(op='Note', a=a, r=r, out=out, msg=msg, chk=['plane'])
    return (v, r) if out == 'ok' and v is not None else (None, r)


def sections(c, ad, a, r, rng):
    """the stored plane itself, its profiles and interpolants"""
    for f in ('fHorz', 'fVert'):
        out, v = call(lambda: getattr(ad, f)(rng.uniform(-1, 1, 3), rng.uniform(-1, 1, 2)))
        hor = a['horizontal'] == '1'
        e = dict(op='Note', f=f, a=dict(horizontal=a['horizontal'], HH=r['HH'], X=r['X'] if hor else r['Y'], Z=r['Z'], U=r['U'], V=r['V'], W=r['W']), out=out, o=[], chk=['stored'])
        if out == 'ok': e['o'] = [nums(x) for x in v]
        c.add(**e)
    profiles(c, ad, r, a['horizontal'] == '1', rng, ('fU', 'fW'))
    x = np.array(r['x'].split() if a['horizontal'] == '1' else r['y'].split(), dtype=float)
    z = np.array(r['z'].split(), dtype=float)
    args = dict(x=nums(x), z=nums(z), U=r['U'], V=r['V'], W=r['W'], z0='0', zero=0)
    q = rng.uniform(z[0] - 1, z[-1] + 1, 3)
    c.func('fAxial', lambda X: ad.fAxial(X), q, args, ['ok', 'profile'], tol=1e-12, sc=1.5)
    c.func('fCenter', lambda X: [np.asarray(ad.fCenter())], 0., args, ['ok', 'profile'], sc=1.5)


def profiles(c, ad, r, hor, rng, fs):
    x = np.array(r['x'].split() if hor else r['y'].split(), dtype=float)
    z = np.array(r['z'].split(), dtype=float)
    args = dict(x=nums(x), z=nums(z), U=r.get('U', r['W']), V=r.get('V', r['W']), W=r['W'], z0='0')
    call(ad.setupInterpolants)
    n = int(rng.integers(1, 6))
    ix, iz = rng.integers(len(x), size=n), rng.integers(len(z), size=n)
    junk = rng.normal(size=n)
    for f in fs:
        fn = getattr(ad, f)
        c.func(f, lambda a, b: fn(a, junk, b) if hor else fn(junk, a, b), x[ix], dict(args, zero=2 if hor else 1), ['ok', 'profile'], Y=z[iz], tol=1e-9, sc=2.)


def project(c, B, ct, suffix, hh, hor):
    kw = dict(HH=hh, Horizontal=hor)
    if suffix != '_rev1_df01R_noGE': kw['suffix'] = suffix
    CT = ct / 100.
    out, v = call(lambda: B.OutputProj(CT, **kw))
    r = {}
    if out == 'ok':
        try:
            r = dict(z=nums(v.z), shape=list(np.shape(v.W)), Z=nums(v.Z), W=nums(v.W), CT=num(v.CT), HH=num(v.HH), horizontal=str(int(v.Horizontal)), vertical=str(int(v.Vertical)))
            r.update(dict(x=nums(v.x), X=nums(v.X)) if hor else dict(y=nums(v.y), Y=nums(v.Y)))
        except Exception as x:
            out, v = 'error', x
    c.add(op='Note', a=dict(CT=num(CT), ct=ct, HH=num(hh), suffix=suffix, horizontal=str(int(hor))), r=r, out=out, msg='' if out == 'ok' else repr(v)[:200], chk=['proj'])
    return (v, r) if out == 'ok' else (None, r)


def sims(c, B, st):
    rng = c.rng
    out, L = call(lambda: B.OutputADLines())
    c.add(op='Note', out=out, chk=['ok'])
    if out != 'ok': return
    for k in range(8):
        if rng.random() < .75:
            S, lay, ct, hh = list(st.sims.values())[rng.integers(len(st.sims))]
        else:
            S, lay, ct, hh = int(rng.choice([3, 5])), '2x3', int(rng.choice(CTS)), 150
        f = ['getSim', 'getSimTop', 'get25', 'getSimCTs'][rng.integers(4)]
        whole = 1
        Sg = S
        if f != 'getSimCTs' and rng.random() < .4: Sg = float(S)
        if f != 'getSimCTs' and rng.random() < .15: Sg, whole = S + .5, 0
        if f == 'getSimTop' and lay == '1x1': continue
        CT, HH = ct / 100., hh / 100.
        if f == 'getSimCTs' and rng.random() < .3: HH = int(HH) if HH == int(HH) else HH
        out, v = call(lambda: getattr(L, f)(Sg, lay, CT, HH))
        e = dict(op='Note', f=f, a=dict(S=S, layout=lay, CT=num(CT), ct=ct, HH=num(HH), hh=hh, whole=str(whole)), out=out, o=[], sho=[], id='', chk=['sim'], msg='' if out == 'ok' else repr(v)[:200])
        if out == 'ok':
            try:
                if f in ('getSim', 'getSimTop'):
                    e['id'] = digest([v[0][q] for q in sorted(v[0])]); v = v[1:]
                elif f == 'get25': v = [v]
                e['o'], e['sho'] = [nums(x) for x in v], [list(np.shape(x)) for x in v]
            except Exception as x:
                e.update(out='error', msg=repr(x)[:200])
        c.add(**e)


def errors(rec, B, st):
    """errors relative to a stored plane, at nodes of the plane"""
    c, rng = st.c, rec.rng
    free = rng.random() < .6
    hor = free or rng.random() < .5
    hh = int(rng.choice([15, 20]))
    HH = 9999 if free and rng.random() < .5 else 10. if free else hh / 10.
    yaw = int(rng.choice([-20, -5, 10])) if free and rng.random() < .3 else 0
    lam = 6 if yaw == 0 and rng.random() < .1 else 99
    Lam = np.inf if lam == 99 and rng.random() < .5 else lam
    ct = int(rng.choice(CTS))
    a = dict(CT=num(ct / 100.), ct=ct, HH=num(HH), hh=hh, Lambda=num(Lam), lam=lam, yaw=yaw, horizontal=str(int(hor)))
    use = rng.random() < .5
    st.zero = use
    st.plane(a)
    ad, r = load(c, B, a)
    if ad is None: return
    x = np.array((r['x'] if hor else r['y']).split(), dtype=float)
    z = np.array(r['z'].split(), dtype=float)
    if use:        # along the wind, or across it through the centre: both axes through the nodes
        angles = [0., np.pi / 2, -np.pi / 2, np.pi][rng.integers(4):][:1]
        rho = (z if angles[0] == 0 else -z if angles[0] == np.pi else -x if angles[0] > 0 else x)[rng.permutation(len(z if abs(angles[0]) != np.pi / 2 else x))[:3]]
        off = [0.]
    else:
        n = int(rng.integers(1, 4))
        angles = rng.uniform(-1, 1, n).tolist()
        off = x[rng.integers(len(x), size=n)].tolist()
        rho = z[rng.permutation(len(z))[:3]]
    names = [str(k) for k in rng.permutation(['AD', 'VC'] + (['VD', 'SS'] if yaw == 0 and lam == 99 else []) + ['GP'])[:int(rng.integers(1, 5))]]
    match = bool(lam == 99 and rng.random() < .5)
    suffix, hgp = '', 999
    if rng.random() < .5: suffix, hgp = '_x', 70.
    st.proj(ct, suffix, hgp, x=z, side=x, hor=hor)
    models = [dict(name=k) for k in names]
    rh = np.array(rho)
    pre = digest([rh, list(angles), list(off), models])
    out, v = call(lambda: B.getModelsRelErr(angles, off, rh, use, ct / 100., models, match, HH=HH, Lambda=Lam, Yaw=yaw, Horizontal=hor, suffix_GP=suffix, HH_GP=hgp))
    # the turbines compared
    y = yaw * np.pi / 180
    H = 9.9 if HH > 9 else HH
    mid = np.array(r['W'].split(), dtype=float).reshape(len(z), len(x))[np.argmin(np.abs(z)), np.argmin(np.abs(x))]
    ids = {}
    q = []
    for k in names:
        row = []
        if k in ('VC', 'VD', 'SS'):
            t = ids[k] = len(ids)
            c.new(t, R=1., shaft=[0, 0, 1.], vert=[0, 1., 0], hub=[0, H, 0], wind=[0, 0, 1.], ground=H < 9, model=k)
            c.wind(t, [np.sin(y), 0, np.cos(y)])
            c.chi(t, y * (1 + .3 * (1 - np.sqrt(1 - ct / 100.))))
            rr = np.linspace(0, 1, 100)
            swirl = lam < 30
            if match: c.load(t, 'fun', np.full(100, ct / 100.), r=rr, lam=99, ncyl=1, law=(-2 * (np.cos(y) - mid), 0.))
            else: c.load(t, 'Ct', np.where((rr < .1) & swirl, ct / 100. * rr / .1, ct / 100.), r=rr, lam=lam, ncyl=30 if swirl else 1)
            c.add(op='Note', t=t, chk=['built'], out='ok', a=dict(Yaw=num(yaw), CT=num(ct / 100.), U0='1', Lambda=num(lam), HH=num(H), Model=k, gamma='', mid=num(mid) if match else ''))
            for th, o in zip(angles, off):
                if use: lat, zz = -np.array(rho) * np.sin(th), np.array(rho) * np.cos(th)
                else: zz = np.array(rho); lat = zz * 0 + o
                P = np.column_stack([lat, lat * 0 + H, zz] if hor else [lat * 0, lat + H, zz])
                row.append(c.query(t, P, chk=['outcome'], tol=1e-9, sc=1.))
        q.append(row)
    e = dict(op='Note', a=dict(a, rho=nums(rho), angles=nums(angles), off=nums(off), userho=str(int(use))), gp=dict(CT=num(ct / 100.), ct=ct, HH=num(hgp), suffix=suffix, horizontal=str(int(hor))),
             models=names, q=q, e=[], mean=[], out=out, msg='' if out == 'ok' else repr(v)[:200], tol=num(1e-8), sc='100', chk=['relerr', 'pure'], pre=pre, post=digest([rh, list(angles), list(off), models]))
    if out == 'ok':
        try: e['e'], e['mean'] = [nums(x) for x in v[0]], [nums(x) for x in v[1]]
        except Exception as x: e.update(out='error', msg=repr(x)[:200])
    c.add(**e)


def one(rec, B, top):
    rng = rec.rng
    st = Store(rec, rec.chunk('planes'), top)
    c = st.c
    st.zero = rng.random() < .5
    first = case(rng)
    stored = []
    for k in range(int(rng.integers(2, 6))):
        a = first if k == 0 else near(rng, stored[rng.integers(len(stored))]) if rng.random() < .7 else case(rng)
        stored.append(a)
        st.plane(a)
        for m in range(2):
            w = rng.random()
            b = stored[rng.integers(len(stored))] if w < .6 else near(rng, stored[rng.integers(len(stored))]) if w < .9 else case(rng)
            ad, r = load(c, B, b)
            if ad is not None: sections(c, ad, b, r, rng)
    SUF = ['_rev1_df01R_noGE', '', '_GE']
    for k in range(3):
        ct, suf, hh = int(rng.choice(CTS)), SUF[rng.integers(3)], float(rng.choice([1.5, 999., 0., 70.]))
        st.proj(ct, suf, hh)
        ct, suf, hh = st.projs[rng.integers(len(st.projs))]
        if rng.random() < .15: ct = int(rng.choice(CTS))
        hor = bool(rng.random() < .5)
        v, r = project(c, B, ct, suf, hh, hor)
        if v is not None: profiles(c, v, r, hor, rng, ('fW',))
    st.lines()
    sims(c, B, st)


def build(rec):
    _, B = modules()
    top = tempfile.mkdtemp(prefix='c37.')
    cwd = os.getcwd()
    try:
        for i in range(600 if rec.thorough else 100):
            for k in range(2):
                d = os.path.join(top, 'd')
                os.makedirs(d)
                if k == 0: one(rec, B, d)
                else: errors(rec, B, Store(rec, rec.chunk('errors'), d))
                os.chdir(top)
                shutil.rmtree(d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)
