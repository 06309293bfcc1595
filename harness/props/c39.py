"""C39: hub-height planes of coupled simulations"""
import sys, types, copy
import numpy as np
from rec import call, nums, num, digest
from props.c31 import modules
LEVEL = 'exploration'
RULE = 'planes asked of a stand-in simulation, in any order of files, options, domains and resolutions; the plane decided node by node by the specification of the stand-in flow'

FILES = {}


def factors(o):
    if o is None: return 0., 0.
    return float(o['GammaFact']), float(o['Rfact'])


class Turbine:
    def __init__(self, h): self.hub_height = h


class FlorisInterface:
    """a stand-in with the few things that are used"""
    def __init__(self, input_file, *a, **kw):
        self.file = input_file
        d = FILES[input_file]
        self.U, self.own = d['U'], d['bounds']
        self.floris = types.SimpleNamespace(farm=types.SimpleNamespace(turbines=[Turbine(h) for h in d['heights']]))
        self.g = None
    def calculate_wake(self, yaw_angles=None, no_wake=False, Ind_Opts=None):
        self.g = factors(Ind_Opts)[0]
    def get_flow_data(self, resolution=None, grid_spacing=10, velocity_deficit=False, Ind_Opts=None, bounds_to_set=None):
        if self.g is None: raise Exception('no wake yet')
        h, r = factors(Ind_Opts)
        n = (20, 10, 5) if resolution is None else (resolution.x1, resolution.x2, resolution.x3)
        return types.SimpleNamespace(U=self.U, g=self.g, h=h, r=r, n=[int(k) for k in n], b=[float(x) for x in (self.own if bounds_to_set is None else bounds_to_set)])


class HorPlane:
    def __init__(self, flow, z_value):
        b, n = flow.b, flow.n
        self.x1_lin, self.x2_lin = np.linspace(b[0], b[1], n[0]), np.linspace(b[2], b[3], n[1])
        zs = np.linspace(b[4], b[5], n[2])
        z = zs[np.argmin(np.abs(zs - z_value))]
        self.resolution = (n[0], n[1])
        Y, X = np.meshgrid(self.x2_lin, self.x1_lin, indexing='ij')
        u = flow.U * (1 - flow.g / 10) + flow.r * X / 100 + Y / 50 + .03 * z
        v = flow.h / 20 - X / 100 + Y * z / 25
        self.x1_mesh, self.x2_mesh, self.u_mesh, self.v_mesh, self.w_mesh = X.ravel(), Y.ravel(), u.ravel(), v.ravel(), 0 * u.ravel()


def build(rec):
    A, _ = modules()
    T = sys.modules['floris.tools']
    T.floris_utilities = types.SimpleNamespace(FlorisInterface=FlorisInterface)
    T.cut_plane = types.SimpleNamespace(HorPlane=HorPlane)
    Vec3 = sys.modules['floris.utilities'].Vec3
    rng = rec.rng
    for i in range(120 if rec.thorough else 25):
        c = rec.chunk('planes of simulations')
        FILES.clear()
        for f in ('a.json', 'sub/b.json', 'c'):
            x0, y0, z0 = rng.uniform(-500, 0, 3)
            FILES[f] = dict(U=float(rng.uniform(4, 12)), heights=[float(h) for h in rng.uniform(60, 140, int(rng.integers(1, 4)))],
                            bounds=[x0, x0 + rng.uniform(10, 900), y0, y0 + rng.uniform(10, 400), 0., float(rng.uniform(100, 300))])
        opts = [dict(GammaFact=float(rng.uniform(.5, 2)), Rfact=float(rng.uniform(.5, 2)), Ground=True, no_induction=bool(rng.random() < .5)) for _ in range(2)] + [None]
        kept = []
        for k in range(4):
            f = ['a.json', 'sub/b.json', 'c', 'missing'][rng.choice(4, p=[.3, .3, .3, .1])]
            o = opts[rng.integers(3)]
            d = FILES.get(f)
            kw = {}
            n = [232, 114, 3]
            if rng.random() < .93:
                n = [int(q) for q in rng.integers(1, 9, 3)]
                if rng.random() < .4: n[1] = n[0]
                kw['resolution'] = Vec3(*n)
            b = d['bounds'] if d else [0] * 6
            if rng.random() < .5:
                b = np.array([-400, 1400, -10, 300, 70, 120.]) + rng.uniform(-10, 10, 6)
                if d and rng.random() < .5:     # levels close to one another around the height asked
                    b[4:] = d['heights'][0] + 10 ** rng.uniform(-3, .5) * np.sort(rng.uniform(-1, 1, 2))
                for q in (0, 2):
                    if rng.random() < .2: b[q], b[q + 1] = b[q + 1], b[q]
                kw['bounds_to_set'] = list(b) if rng.random() < .5 else b
            if d:       # no ties between levels
                zs = np.linspace(b[4], b[5], n[2]); e = np.sort(np.abs(zs - d['heights'][0]))
                if len(e) > 1 and e[1] - e[0] < 1e-6: continue
            held = [copy.deepcopy(FILES.get(f)) and [FILES[f]['U'], FILES[f]['heights']], sorted((o or {}).items()), list(map(float, b)), n]
            pre = digest([repr(held)])
            w = rng.random()
            if w < .4: out, v = call(lambda: A.get_HH_plane_vel(f, o, **kw))
            elif w < .6: out, v = call(lambda: A.get_HH_plane_vel(input_file=f, Ind_Opts=o, **kw))
            else: out, v = call(lambda: A.get_HH_plane_vel(f, o, *([kw['resolution']] if 'resolution' in kw else []), **{q: x for q, x in kw.items() if q != 'resolution'}))
            res = kw.get('resolution')
            held = [FILES.get(f) and [FILES[f]['U'], FILES[f]['heights']], sorted((o or {}).items()), list(map(float, kw.get('bounds_to_set', b))), n if res is None else [res.x1, res.x2, res.x3]]
            a = dict(known=str(int(d is not None)), file=f, U=num(d['U']) if d else '0', heights=nums(d['heights']) if d else '0', bounds=nums(b), nx=n[0], ny=n[1], nz=n[2],
                     gamma=num(factors(o)[0]), radius=num(factors(o)[1]))
            e = dict(op='Note', a=a, r={}, out=out, chk=['hubplane', 'pure'], pre=pre, post=digest([repr(held)]), msg='' if out == 'ok' else repr(v)[:200])
            if out == 'ok':
                try:
                    x, y, u, w_, fi = v
                    e['r'] = dict(x=nums(x), y=nums(y), u=nums(u), v=nums(w_), shape=[int(q) for q in (np.shape(u) + np.shape(w_))], file=str(getattr(fi, 'file', '')))
                    kept.append((len(c.ev), v))
                except Exception as q:
                    e.update(out='error', msg=repr(q)[:200])
            c.add(**e)
            if o is not None and rng.random() < .4: o['GammaFact'] = float(rng.uniform(.5, 2))      # the caller goes on with its options
