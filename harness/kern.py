"""Registry of the velocity functions: how they are called, recorded, and where their singular sets are."""
import importlib
import numpy as np
from rec import num, nums
import gen

MOD = dict(vc='wiz.VortexCylinder', svc='wiz.VortexCylinderSkewed', ring='wiz.VortexRing', dbl='wiz.VortexDoublet', line='wiz.VortexLine', ss='wiz.SelfSimilar',
           farm='wiz.WindFarm')
# name: (module, kind, parameters, public)
FUN = {
    'vc_tang_u': ('vc', 'tang', 'g R'),
    'cylinder_tang_semi_inf_u_raw': ('vc', 'tang', 'g R'),
    'svc_tang_u': ('svc', 'tang', 'g R m'),
    'svc_tang_u_polar': ('svc', 'tang', 'g R m'),
    'fV_Tangential': ('svc', 'tang', 'g m'),
    'vc_longi_u': ('vc', 'longi', 'g R'),
    'vc_longi_u_polar': ('vc', 'longi', 'g R'),
    'svc_longi_u': ('svc', 'longi', 'g R m'),
    'svc_longi_u_polar': ('svc', 'longi', 'g R m'),
    'fV_Trailed': ('svc', 'longi', 'g m'),
    'vc_root_u': ('vc', 'line', 'g'),
    'vl_semiinf_straight_u': ('line', 'line', 'g'),
    'vl_semiinf_straight_u_polar': ('line', 'line', 'g'),
    'vl_semiinf_u': ('line', 'line', 'g e'),
    'svc_root_u': ('svc', 'line', 'g m'),
    'svc_root_u_polar': ('svc', 'line', 'g m'),
    'fV_Root': ('svc', 'line', 'g m'),
    'svc_u_polar': ('svc', 'all', 'gt gl gr R m'),
    'vc_tang_u_doublet': ('vc', 'ff', 'g R cut'),
    'cylinder_tang_u': ('vc', 'fin', 'g R z1 z2'),
    'vcs_tang_u': ('vc', 'tangs', 'g R xc yc zc nr ground'),
    'vcs_longi_u': ('vc', 'longis', 'g R xc yc zc nr ground'),
    'svcs_tang_u': ('svc', 'tangs', 'g R m xc yc zc nr ground'),
    'svcs_longi_u': ('svc', 'longis', 'g R m xc yc zc nr ground'),
    'ring_u': ('ring', 'ring', 'g R'),
    'ring_u_polar': ('ring', 'ring', 'g R z0'),
    'ring_u_polar_singular': ('ring', 'ring', 'g R'),
    'ring_u_polar_singularb': ('ring', 'ring', 'g R'),
    'rings_u': ('ring', 'rings', 'g R xc yc zc'),
    'doublet_u': ('dbl', 'dbl', 'mm x0'),
    'doublet_u_polar': ('dbl', 'dbl', 'g z0'),
    'doublet_line_polar_u': ('dbl', 'dline', 'g'),
    'doublet_line_u': ('dbl', 'dline', 'g m L'),
    'doublet_line_u_num': ('dbl', 'dline', 'g m zmax nq'),
    'doublet_line_polar_u_num': ('dbl', 'dline', 'g z0 zmax nq'),
    'ss_u': ('ss', 'ss', 'g R lam eta'),
}
POLAR_IN = {'svc_tang_u_polar', 'fV_Tangential', 'vc_longi_u_polar', 'svc_longi_u_polar', 'fV_Trailed', 'vl_semiinf_straight_u_polar', 'svc_root_u_polar', 'fV_Root', 'svc_u_polar'}
RZ_IN = {'ring_u_polar', 'ring_u_polar_singular', 'ring_u_polar_singularb', 'doublet_u_polar', 'doublet_line_polar_u', 'doublet_line_polar_u_num'}
FORMS = {
    'vc_tang_u': ['cart', 'pol2'], 'cylinder_tang_semi_inf_u_raw': ['pol2'], 'vc_tang_u_doublet': ['cart', 'pol2'], 'cylinder_tang_u': ['cart', 'pol2'],
    'ring_u': ['cart', 'pol2'], 'rings_u': ['cart'], 'vl_semiinf_u': ['cart'], 'ss_u': ['uz'],
    'doublet_u': ['cart'], 'doublet_line_u': ['cart'], 'doublet_line_u_num': ['cart'],
    'fV_Tangential': ['leg'], 'fV_Trailed': ['leg'], 'fV_Root': ['leg'],
}
for f in ('vcs_tang_u', 'vcs_longi_u', 'svcs_tang_u', 'svcs_longi_u'):
    FORMS[f] = ['cart']
for f in RZ_IN:
    FORMS[f] = ['pol2']
for f in FUN:
    FORMS.setdefault(f, ['cart', 'pol3'])
HIDDEN = {'cylinder_tang_semi_inf_u_raw', 'ring_u_polar_singular', 'ring_u_polar_singularb'}    # off-axis helpers, checked if present
DIM = dict(tang=0, longi=0, line=-1, ff=0, fin=0, tangs=0, longis=0, ring=-1, rings=-1, dbl=-3, dline=-2, ss=0, all=0)
STRENGTH = ('g', 'gt', 'gl', 'gr', 'mm')
LENGTH = ('R', 'z1', 'z2', 'L', 'x0', 'z0', 'zmax', 'xc', 'yc', 'zc')


def get(name):
    return getattr(importlib.import_module(MOD[FUN[name][0]]), name, None)


# documented values of arguments left out
OMITTED = dict(gamma_t=-1, gamma_l=-1, Gamma_r=-1, Gamma=-1, R=1, r0=1, m=0, z0=0, epsilon=0, z1=-2, z2=2)
POLAR = ('vc_tang_u', 'vc_tang_u_doublet', 'cylinder_tang_u', 'ring_u', 'rings_u')
_turn = [0]


def plain(F, f):
    """F called with the arguments that have their documented value left out (three times in four)"""
    def call(*a, **kw):
        _turn[0] += 1
        if _turn[0] % 4:
            kw = {k: v for k, v in kw.items() if not (k == 'polar_out' and v is (f in POLAR)) and not (k in OMITTED and np.ndim(v) == 0 and v == OMITTED[k])}
        return F(*a, **kw)
    return call


def available(name):
    f = get(name)
    if f is None and name not in HIDDEN:
        raise RuntimeError('public function missing: ' + name)
    return f is not None


NT = [None, None, 180, 181, 200, 241, 360, 401, 500, 721, 1000, 1001, 1501]


def quadrature(rng, p):
    n = NT[rng.integers(len(NT))]
    return p if n is None else dict(p, nt=n)


class K:
    def __init__(self, f, p, form=None, nout=7):
        self.f, self.p, self.nout = f, dict(p), nout
        self.mod, self.kind, self.keys = FUN[f][0], FUN[f][1], FUN[f][2].split()
        self.form = form or FORMS[f][0]
        self.inp = 'rpz' if f in POLAR_IN else 'rz' if f in RZ_IN else 'cart'

    # ---- variants ----
    def but(self, **kw):
        q = dict(self.p); q.update(kw)
        return K(self.f, q, self.form, self.nout)

    def as_(self, f=None, form=None, nout=None):
        return K(f or self.f, self.p, form or (FORMS[f][0] if f else self.form), self.nout if nout is None else nout)

    def times(self, sg=1., sl=1.):
        q = dict(self.p)
        for k in STRENGTH:
            if k in q:
                q[k] = np.asarray(q[k]) * sg if np.ndim(q[k]) else q[k] * sg
        if sl != 1:
            for k in LENGTH:
                if k in q:
                    q[k] = np.asarray(q[k]) * sl if np.ndim(q[k]) else q[k] * sl
        return K(self.f, q, self.form, self.nout)

    def whole(self, rng):
        """the same with parameters that are whole numbers, and with these as integers"""
        q = dict(self.times(sl=float(rng.integers(3, 9)) / self.scale()).p)
        for k in q:
            if k in STRENGTH + LENGTH + ('m', 'cut', 'lref') and np.all(np.isfinite(q[k])):
                w = np.round(q[k]) + 0.
                lo = k in STRENGTH + ('R', 'L', 'zmax', 'lref')
                w = np.where(w == 0, np.where(np.asarray(q[k]) < 0, -1., 1.), w) if lo else w
                q[k] = w if np.ndim(q[k]) else float(w)
        if q.get('z1') is not None and q['z1'] == q.get('z2'):
            q['z2'] += 1.
        z = {k: (v.astype(int) if isinstance(v, np.ndarray) else int(v)) if k in STRENGTH + LENGTH + ('m', 'cut') and np.all(np.isfinite(v)) else v for k, v in q.items()}
        return K(self.f, q, self.form, self.nout), K(self.f, z, self.form, self.nout)

    def v(self, k, d=None):
        return self.p.get(k, d)

    # ---- calling ----
    def fn(self, X, Y, Z):
        F, p, f = plain(get(self.f), self.f), self.p, self.f
        g, R, m = self.v('g'), self.v('R', 1.), self.v('m', 0.)
        po = self.form in ('pol2', 'pol3')
        if f in ('vc_tang_u', 'cylinder_tang_u', 'vc_tang_u_doublet'):
            kw = {}
            if f == 'cylinder_tang_u':
                kw = dict(z1=p['z1'], z2=p['z2'])
            if f == 'vc_tang_u_doublet' and 'cut' in p:
                kw = dict(r_bar_Cut=p['cut'])
            if 'eps' in p:
                kw['epsilon'] = p['eps']
            if not po:
                kw['polar_out'] = False
            return F(X, Y, Z, gamma_t=g, R=R, **kw)
        if f == 'cylinder_tang_semi_inf_u_raw':
            return F(X, Y, Z, gamma_t=g, R=R)
        if f in ('svc_tang_u', 'svc_tang_u_polar'):
            return F(X, Y, Z, gamma_t=g, R=R, m=m, polar_out=po, **self.quad())
        if f in ('svc_longi_u', 'svc_longi_u_polar'):
            return F(X, Y, Z, gamma_l=g, R=R, m=m, polar_out=po, **self.quad())
        if f in ('vc_longi_u', 'vc_longi_u_polar'):
            return F(X, Y, Z, gamma_l=g, R=R, polar_out=po)
        if f in ('vc_root_u', 'vl_semiinf_straight_u', 'vl_semiinf_straight_u_polar'):
            return F(X, Y, Z, Gamma_r=g, polar_out=po)
        if f in ('svc_root_u', 'svc_root_u_polar'):
            return F(X, Y, Z, Gamma_r=g, m=m, polar_out=po)
        if f in ('fV_Tangential', 'fV_Trailed', 'fV_Root'):
            F = get(f)
            if f == 'fV_Root':
                o = F(X, Y, Z, m=m, Gamma_r=g, nout=self.nout)
            else:
                o = F(X, Y, Z, m, g, self.v('nt', 180), nout=self.nout)
            return [o] if isinstance(o, np.ndarray) else o
        if f == 'svc_u_polar':
            return F(X, Y, Z, p['gt'], p['gl'], p['gr'], R=R, m=m, polar_out=po, **self.quad())
        if f == 'vl_semiinf_u':
            e = p['e']
            r = [np.asarray(F(x, y, z, e[0], e[1], e[2], g, p.get('visc', 0), p.get('t', 0.1)), float).ravel() for x, y, z in zip(X.ravel(), Y.ravel(), Z.ravel())]
            r = np.array(r).reshape(-1, 3)
            return [r[:, k].reshape(X.shape) for k in range(3)]
        if f in ('vcs_tang_u', 'vcs_longi_u'):
            return F(X, Y, Z, *self.sets(), Ground=p['ground'] == '1')
        if f in ('svcs_tang_u', 'svcs_longi_u'):
            return F(X, Y, Z, *self.sets(), Ground=p['ground'] == '1', **self.quad())
        if f == 'ring_u':
            return F(X, Y, Z, Gamma=g, R=R, polar_out=po, epsilon=p.get('eps', 0))
        if f == 'ring_u_polar':
            return F(X, Z, Gamma=g, r0=R, z0=p.get('z0', 0.), epsilon=p.get('eps', 0), **({'reg_method': p['reg']} if 'reg' in p else {}))
        if f in ('ring_u_polar_singular', 'ring_u_polar_singularb'):
            return F(X, Z, Gamma=g, r0=R)
        if f == 'rings_u':
            return F(X, Y, Z, p['g'], p['R'], p['xc'], p['yc'], p['zc'], polar_out=po, epsilon=p.get('eps', 0))
        if f == 'doublet_u':
            return F(X, Y, Z, p['mm'], **({'x0': p['x0']} if 'x0' in p else {}))
        if f == 'doublet_u_polar':
            return F(X, Z, g, z0=p.get('z0', 0.))
        if f == 'doublet_line_polar_u':
            return F(X, Z, g)
        if f == 'doublet_line_u':
            return F(X, Y, Z, g, m=m, **({} if p.get('L', np.inf) == np.inf else {'L': p['L']}))
        if f == 'doublet_line_u_num':
            return F(X, Y, Z, g, m=m, zmax=p['zmax'], nQuad=p['nq'])
        if f == 'doublet_line_polar_u_num':
            return F(X, Z, g, z0=p.get('z0', 0.), zmax=p['zmax'], nQuad=p['nq'])
        if f == 'ss_u':
            kw = {}
            if 'lam' in p: kw['lambda_'] = p['lam']
            if 'eta' in p: kw['eta'] = p['eta']
            return [F(X, Y, Z, g, R=R, **kw)]
        raise KeyError(f)

    def quad(self):
        """number of points of the quadrature, when chosen: the answer does not depend on it at points away from the vorticity"""
        return {'ntheta': int(self.p['nt'])} if 'nt' in self.p else {}

    def sets(self):
        p = self.p
        nr = p['nr']
        a = [np.asarray(p['g']).reshape(-1, nr), np.asarray(p['R']).reshape(-1, nr)]
        if 'm' in self.keys:
            a.append(np.asarray(p['m']).reshape(-1, nr))
        a += [np.asarray(p[k]) for k in ('xc', 'yc', 'zc')]
        # arrays are kept, so that their modification is seen
        self.watch = a
        return a

    def args(self):
        d = {}
        for k, v in self.p.items():
            if k not in self.keys and k not in ('eps', 't', 'visc'):
                continue
            if k in ('nr', 'nq', 'visc'):
                d[k] = int(v)
            elif k == 'ground':
                d[k] = v
            else:
                d[k] = nums(v) if np.ndim(v) else num(v)
        return d

    def extra(self):
        e = {}
        if self.form == 'leg':
            e['nout'] = self.nout
        return e

    def to_inp(self, P):
        P = np.asarray(P, float)
        if self.inp == 'cart':
            return P
        r = np.hypot(P[:, 0], P[:, 1])
        if self.inp == 'rz':
            return np.array([r, 0 * r, P[:, 2]]).T
        return np.array([r, np.arctan2(P[:, 1], P[:, 0]), P[:, 2]]).T

    def arrs(self):
        """array arguments other than the points"""
        return [v for v in self.p.values() if isinstance(v, np.ndarray)]

    def emit(self, c, P, chk=('kabs',), tol=1e-8, sc=None, raw=False, **kw):
        """record a call at the Cartesian points P; sometimes also at homogeneous parts of them, the way requests for a plane or a single point come"""
        if 'kabs' in chk and not raw and 'part' not in kw and not kw.get('rel') and len(P) > 2 and c.rng.random() < .5:
            Q = np.asarray(P, float)
            for sel in (Q[:, 2] == 0, Q[:, 2] < 0, Q[:, 2] > 0, np.hypot(Q[:, 0], Q[:, 1]) > self.Rref(), np.arange(len(Q)) == c.rng.integers(len(Q))):
                if sel.any() and not sel.all() and c.rng.random() < .4:
                    self.emit(c, Q[sel][:6], chk=chk, tol=tol, sc=sc, **{**kw, 'rel': None, 'part': 1, 'shape': None})
        kw.pop('part', None)
        if sc is None and self.kind == 'ff':      # the doublets at points within the radius (small cuts): relative accuracy of the quadrature
            d = np.linalg.norm(np.asarray(P, float), axis=1)
            d = d[(d > self.v('cut', 6) * self.p['R']) & (d > 0)]
            sc = self.sc() * max(1., .05 * (self.p['R'] / d.min()) ** 2 if len(d) else 1.)
        n = len(P)
        if 'shape' not in kw and 'order' not in kw and not raw and self.f not in HIDDEN and n > 3 and n % 2 == 0 and self.f != 'ss_u' and c.rng.random() < .12:
            kw.update(shape=(2, n // 2), order=str(c.rng.choice(['mixed', 'F', 'strided', 'rev'])))      # planes, in any memory order
        pts = np.asarray(P, float) if raw else self.to_inp(P)
        ex = dict(self.extra()); ex.update(kw.pop('extra', {}) or {})
        if 'nq' in self.p:
            ex.setdefault('nq', int(self.p['nq']))
        return c.kernel(self.f, self.fn, pts, self.args(), inp=self.inp, form=self.form, chk=chk, tol=tol, sc=self.sc() if sc is None else sc,
                        watch=self.arrs(), extra=ex, **kw)

    # ---- placement of points ----
    def Rref(self):
        R = self.v('R', 1.)
        return float(np.max(R)) if np.ndim(R) else float(R)

    def sc(self):
        s = 0.
        for k in STRENGTH:
            if k in self.p:
                s = max(s, float(np.sum(np.abs(self.p[k]))))
        d = DIM[self.kind]
        if self.kind == 'all':
            return max(abs(self.p['gt']), abs(self.p['gl']), abs(self.p['gr']) / self.Rref(), 1e-300)
        return max(s * self.Rref() ** d, 1e-300)

    def singular(self, P):
        """distance (relative to the reference length) of the Cartesian point P to the vorticity"""
        p, k = self.p, self.kind
        R, m = self.v('R', 1.), self.v('m', 0.)
        P = np.asarray(P, float)
        ns = lambda q, R, m: gen.tube_dist(q, R, m) / R
        if k in ('tang', 'longi'):
            return ns(P, R, m)
        if k == 'line':
            if 'e' in p:
                e = np.asarray(p['e'])
                s = max(0., P.dot(e))
                return np.linalg.norm(P - s * e)
            return gen.line_dist(P, m)
        if k == 'all':
            return min(ns(P, R, m), gen.line_dist(P, m) / R)
        if k == 'ff':
            return min(ns(P, R, 0.), gen.line_dist(P, 0.) / R, abs(np.linalg.norm(P) / R - p.get('cut', 6)) * 1e6)
        if k == 'fin':
            z1, z2 = sorted((p['z1'], p['z2']))
            dz = max(z1 - P[2], P[2] - z2, 0)
            return np.hypot(np.hypot(P[0], P[1]) - R, dz) / R
        if k in ('ring', 'rings'):
            R, xc, yc, zc = np.atleast_1d(R), np.atleast_1d(p.get('xc', 0.)), np.atleast_1d(p.get('yc', 0.)), np.atleast_1d(p.get('zc', p.get('z0', 0.)))
            return min(np.hypot(np.hypot(P[0] - x, P[1] - y) - r, P[2] - z) / r for r, x, y, z in zip(R, xc, yc, zc))
        if k in ('tangs', 'longis'):
            nr = p['nr']
            R = np.asarray(R).reshape(-1, nr)
            M = np.asarray(p['m']).reshape(-1, nr) if 'm' in self.keys else 0 * R
            d = np.inf
            for i, (x, y, z) in enumerate(zip(p['xc'], p['yc'], p['zc'])):
                for s in ((1, -1) if p['ground'] == '1' else (1,)):
                    q = P - np.array([x, s * y, z])
                    d = min([d] + [ns(q, a, b) for a, b in zip(R[i], M[i])])
            return d
        if k == 'dbl':
            x0 = np.asarray(p.get('x0', [0, 0, p.get('z0', 0.)]), float)
            return np.linalg.norm(P - x0) / self.Lref()
        if k == 'dline':
            z0 = p.get('z0', 0.)
            L = p.get('L', p['zmax'] - z0 if 'zmax' in p else np.inf)
            e = np.array([m, 0, 1.])
            q = P - np.array([0, 0, z0])
            s = min(max(0., q.dot(e) / e.dot(e)), L)
            return np.linalg.norm(q - s * e) / self.Lref()
        if k == 'ss':
            return 1. if abs(P[2]) > 1e-9 * R else 0.
        raise KeyError(k)

    def Lref(self):
        return float(self.p.get('lref', 1.))

    def scale(self):
        """length scale of the point cloud"""
        if self.kind in ('dbl', 'dline'):
            return self.Lref()
        return self.Rref()

    def points(self, rng, n, dmin=0.2, offaxis=0., near=.15):
        R, m = self.scale(), float(np.mean(self.v('m', 0.)))
        out = []
        cx = np.array([np.atleast_1d(self.p.get(k, 0.)) for k in ('xc', 'yc', 'zc')]) if 'xc' in self.p else np.zeros((3, 1))
        if self.kind == 'fin':
            cx = np.array([[0, 0, 0, 0], [0, 0, 0, 0], [0, self.p['z1'], self.p['z2'], .5 * (self.p['z1'] + self.p['z2'])]])
        for _ in range(4000):
            for P in gen.raw_points(rng, n, R, m):
                P = np.array(P)
                if rng.random() < near:      # close to the rotor plane, or to the axis
                    s = 10 ** rng.uniform(-5, -1)
                    if s * R > 1e-5:
                        P = P * ([1, 1, s] if rng.random() < .6 else [s, s, 1])
                P = P + cx[:, rng.integers(cx.shape[1])]
                if self.singular(P) < dmin or (offaxis and np.hypot(P[0], P[1]) < offaxis * R):
                    continue
                out.append(P)
                if len(out) == n:
                    return np.array(out)
        raise RuntimeError('cannot place points for ' + self.f)


def near_sheet(rng, R, n, ends=(0.,), inside=1.):
    """(distance relative to R, points) next to the sheet of a straight tube that goes downstream from z=0 (or has the given ends, next to both
    rims and in between, by the fraction `inside` of R), on both sides"""
    for d in 10. ** rng.uniform(-5.3, -1.7, 6):
        P = []
        for _ in range(n):
            t, s = rng.uniform(-np.pi, np.pi), sgn(rng)
            z = ends[rng.integers(len(ends))] + R * sgn(rng) * float(rng.choice([0., .1, 1., 1., 10., .3 / d])) * d
            z = z if rng.random() < .8 else ends[0] + inside * R * rng.uniform(.1, .9)
            r = R * (1 + s * d * rng.uniform(.5, 2))
            P.append([r * np.cos(t), r * np.sin(t), z])
        yield float(d), np.array(P)


def sgn(rng):
    return float(rng.choice([-1., 1.]))


def rand(rng, f, skew=None, R=None, ground=None, kc=None):
    """random parameters of f; skew: None random"""
    keys = FUN[f][2].split()
    kind = FUN[f][1]
    p = {}
    Rr = float(rng.choice([1., 1., 0.5, 3., 63., 0.8, 120.])) * rng.uniform(0.9, 1.1) if R is None else R
    if R is None and kind in ('tang', 'longi', 'ring', 'rings', 'tangs', 'longis', 'fin', 'ss') and rng.random() < .2:
        Rr = float(10 ** rng.uniform(-5, 4))       # any unit of length
    if kind == 'line' or f.startswith('fV_'):
        Rr = 1.
    def mrand():
        if skew is not None:
            return skew
        return 0. if rng.random() < 0.2 else float(np.tan(rng.uniform(-1, 1) * np.radians(rng.choice([20, 45, 75]))))
    g = sgn(rng) * float(rng.uniform(0.2, 3.))
    if rng.random() < .15:
        g = sgn(rng) * float(10 ** rng.uniform(-7, 6))      # any unit of strength
    wide = rng.random() < .35                               # sets: strengths of very different magnitudes
    def strengths(n):
        return np.array([sgn(rng) * (10 ** rng.uniform(-5, 1) if wide else rng.uniform(0.2, 3)) for _ in range(n)])
    if kind in ('tangs', 'longis'):
        nc, nr = kc if kc else (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
        G = strengths(nc * nr)
        if len(G) > 1 and rng.random() < 0.5:
            G[rng.integers(len(G))] = 0.
        RR = np.concatenate([Rr * np.linspace(1. / nr, 1, nr) * rng.uniform(0.9, 1.1) for _ in range(nc)])
        p = dict(g=G, R=RR, xc=rng.uniform(-5, 5, nc) * Rr, yc=rng.uniform(0, 4, nc) * Rr, zc=rng.uniform(-5, 5, nc) * Rr, nr=nr,
                 ground=('1' if rng.random() < 0.5 else '0') if ground is None else ground)
        if 'm' in keys:
            p['m'] = np.array([mrand() for _ in range(nc * nr)]) if rng.random() < 0.6 else np.repeat([mrand() for _ in range(nc)], nr)
        return p
    if kind == 'rings':
        n = int(rng.integers(1, 5))
        G = strengths(n)
        if n > 1 and rng.random() < 0.4:
            G[rng.integers(n)] = 0.
        return dict(g=G, R=Rr * rng.uniform(0.5, 1.5, n), xc=rng.uniform(-3, 3, n) * Rr, yc=rng.uniform(-3, 3, n) * Rr, zc=rng.uniform(-3, 3, n) * Rr)
    if 'g' in keys: p['g'] = g
    if 'R' in keys: p['R'] = Rr
    if 'm' in keys: p['m'] = mrand()
    if 'e' in keys: p['e'] = gen.unit(rng); 
    if 'gt' in keys: p.update(gt=g, gl=sgn(rng) * float(rng.uniform(0.2, 2)), gr=sgn(rng) * float(rng.uniform(0.2, 2)) * Rr)
    if 'cut' in keys and rng.random() < 0.8: p['cut'] = float(rng.choice([0., .4, .9, 1.5, 3., 6., 10., 40.]))
    if 'z1' in keys:
        a = rng.uniform(-3, 2); p['z1'] = Rr * a; p['z2'] = Rr * (a + rng.choice([0.3, 1.5, 4., 30., 3000.]))
        if rng.random() < .15: p['z1'] = -Rr * 10 ** rng.uniform(1, 4)
        if rng.random() < .4: p['z1'], p['z2'] = p['z2'], p['z1']
        if rng.random() < .06 and R is None: p.update(R=float(rng.uniform(.5, 1.5)), z1=-2., z2=2.)
    if kind in ('dbl', 'dline'): p['lref'] = Rr
    if 'mm' in keys:
        p['mm'] = rng.normal(size=3); p['x0'] = rng.uniform(-2, 2, 3) * Rr
        p['mm'] = p['mm'] * (rng.random(3) < .6) if rng.random() < .5 else p['mm']
        p['x0'] = p['x0'] * (rng.random(3) < .6) if rng.random() < .4 else p['x0']
        if not np.any(p['mm']): p['mm'][rng.integers(3)] = -1.
    if rng.random() < .1:       # values that may be left out
        if 'g' in keys and kind in ('tang', 'longi', 'line', 'ff', 'fin', 'ring') and 'e' not in keys: p['g'] = -1.
        if 'R' in keys and R is None and rng.random() < .7: p['R'] = 1.
        if 'm' in keys and skew is None and rng.random() < .5: p['m'] = 0.
    if 'z0' in keys: p['z0'] = Rr * float(rng.uniform(-2, 2))
    if 'L' in keys: p['L'] = np.inf if rng.random() < 0.5 else Rr * float(rng.uniform(0.5, 12))
    if 'zmax' in keys:
        p['z0'] = p.get('z0', 0.) if f.endswith('polar_u_num') else 0.
        p['zmax'] = p['z0'] + Rr * float(rng.uniform(5, 30)); p['nq'] = int(rng.choice([300, 600, 1000]))
    if 'lam' in keys and rng.random() < 0.6: p.update(lam=float(rng.uniform(0.3, 0.9)), eta=float(rng.uniform(0.8, 2)))
    return p


def every(f=None):
    """(name, form) pairs of the functions present"""
    for n in FUN:
        if f and n != f:
            continue
        if not available(n):
            continue
        for fo in FORMS[n]:
            yield n, fo
