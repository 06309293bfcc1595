"""C31: saved planes and objects are read back unchanged"""
import os, sys, types, tempfile, shutil, importlib, importlib.util
import numpy as np
import gen, scen
import rec as R
from rec import call, digest, num
LEVEL = 'model_checking'
RULE = 'sequences of saves and loads under several names, in a scratch directory, followed by the specification as a map from names to what was last saved'


class Vec3:
    def __init__(self, x1, x2=None, x3=None): self.x1, self.x2, self.x3 = x1, x2, x3


def modules():
    for n in ('floris', 'floris.tools', 'floris.utilities'):      # not installed, and not what is examined
        if n not in sys.modules:
            sys.modules[n] = types.ModuleType(n)
    sys.modules['floris'].tools = sys.modules['floris.tools']
    sys.modules['floris.utilities'].Vec3 = Vec3
    sp = importlib.util.spec_from_file_location('verif_coupling_helpers', os.path.join(R.REPO, 'coupling_examples', 'helper_functions.py'))
    a = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(a)
    b = importlib.import_module('wiz.article_blockage.helper_functions')
    return a, b


def bits(a):
    """values in full: real and imaginary parts"""
    a = np.asarray(a)
    if a.dtype.kind == 'c':
        return ' '.join('%s %s' % (num(x.real), num(x.imag)) for x in a.ravel())
    return ' '.join(num(x) for x in a.ravel())


def plane(p, U0=None):
    p = [np.asarray(x) for x in p]
    return dict(kind='plane', shape=[list(x.shape) for x in p], dtype=[x.dtype.str for x in p], v=[bits(x) for x in p], U0='' if U0 is None else num(U0))


def show(x):
    """a full description of nested data"""
    if isinstance(x, np.ndarray):
        return ['array', x.dtype.str, list(x.shape), [show(y) for y in x.ravel().tolist()]]
    if isinstance(x, dict):
        return ['dict', [[show(k), show(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [show(y) for y in x]]
    return [type(x).__name__, repr(x)]


def obj(o):
    import json
    return dict(kind='obj', shape=[], dtype=[], v=[json.dumps(show(o))], U0='')


def rand_plane(rng):
    sh = [(3, 4), (5,), (1, 1), (2, 3, 2), (0, 3), (), (7, 2), (3, 2) if rng.random() < .6 else [(130, 90), (25000,), (40, 30, 20)][rng.integers(3)]][rng.integers(8)]
    dt = [np.float64, np.float64, np.float32, np.int64, np.int32, '>f8', np.complex128, np.uint8, bool][rng.integers(9)]
    one = rng.random() < .4
    mixed = rng.random() < .35       # coordinates and velocities of different types
    out = []
    for k in range(4):
        s = sh if (k >= 2 or one) else (int(rng.integers(1, 6)),)
        if mixed and k == 2: dt = [np.float64, np.float32, '>f8', np.float64][rng.integers(4)]
        a = (rng.normal(size=s) * 7 + (1j * rng.normal(size=s) if dt is np.complex128 else 0))
        a = np.asarray(np.abs(a) if dt is np.uint8 else a).astype(dt)
        if a.dtype.kind == 'f' and a.size and rng.random() < .4:
            a = np.array(a)
            a.ravel()[0] if a.ndim == 0 else a.reshape(-1).__setitem__(0, [np.nan, np.inf, -0., 1e-310][rng.integers(4)])
        w = rng.random()
        if w < .2: a = np.asfortranarray(a)
        elif w < .4 and a.ndim and a.shape[0]: a = np.repeat(a, 2, axis=0)[::2]
        elif w < .5 and a.ndim: a = a[::-1]
        out.append(a)
    return out


def rand_obj(rng, d=0):
    w = rng.integers(9 if d < 3 else 6)
    if w == 0: return float(rng.normal())
    if w == 1: return int(rng.integers(-9, 9))
    if w == 2: return ['', 'a', 'p\u00e9', 'x' * 300][rng.integers(4)]
    if w == 3: return [None, True, False][rng.integers(3)]
    if w == 4: return rng.normal(size=[(3,), (2, 2), (), (0,)][rng.integers(4)])
    if w == 5: return rng.integers(0, 9, (2, 3))
    if w == 6: return [rand_obj(rng, d + 1) for _ in range(rng.integers(4))]
    if w == 7: return tuple(rand_obj(rng, d + 1) for _ in range(rng.integers(4)))
    return {k: rand_obj(rng, d + 1) for k in ['k', 3, (1, 'x'), 'longer key'][:rng.integers(5)]}


def build(rec):
    A, B = modules()
    rng = rec.rng
    top = tempfile.mkdtemp(prefix='c31.')
    cwd = os.getcwd()
    try:
        for i in range(400 if rec.thorough else 90):
            d = os.path.join(top, 'd%d' % i)
            os.makedirs(os.path.join(d, 'sub', 'deep'))
            os.chdir(d)
            planes(rec, rng, A, d)
            objects(rec, rng, B, d)
            os.chdir(top)
            shutil.rmtree(d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)


def planes(rec, rng, A, d):
    c = rec.chunk('planes')
    names = {'': [''], 'p_': ['p_', './p_', 'sub/../p_'], 'sub/a': ['sub/a', 'sub//a', './sub/./a'], 'sub/deep/q': ['sub/deep/q', os.path.join(d, 'sub/deep/q')], 'with space ': ['with space '],
             'dot.ted': ['dot.ted'], 'p': ['p'], 'pu': ['pu']}
    saved = set()
    for k in range(int(rng.integers(4, 12))):
        if not saved or rng.random() < .5:
            key = str(rng.choice(list(names)))
            base = names[key][rng.integers(len(names[key]))]
            p = rand_plane(rng)
            U0 = None
            if rng.random() < .5 and all(a.dtype.kind in 'f' for a in p[2:]):
                U0 = [float(rng.uniform(.5, 20)), 10, np.float64(8.), -2., 1][rng.integers(5)]
            form = rng.integers(4)
            more = [object()] if rng.random() < .4 else []       # a plane comes with its simulation
            pre = digest(p)
            if form == 0: f = lambda: A.savePlane(*p, base, U0)
            elif form == 1: f = lambda: A.savePlane(p[0], p[1], p[2], p[3], base=base, U0=U0)
            elif form == 2: f = lambda: A.savePlane(list(p) + more if rng.random() < .5 else tuple(p + more), base, U0=U0)
            else: f = lambda: A.savePlane(tuple(p + more), y=base, U0=U0)
            out, v = call(f)
            c.add(op='Save', key='plane ' + key, data=plane(p, U0), out=out, pre=pre, post=digest(p), chk=['ok', 'pure'], msg=repr(v)[:200])
            saved.add(key)
            for a in p:          # the caller goes on using its arrays
                if a.flags.writeable and a.ndim and a.dtype.kind != 'b':
                    a += 1
        else:
            key = sorted(saved)[rng.integers(len(saved))]
            base = names[key][rng.integers(len(names[key]))]
            out, v = call(lambda: A.loadPlane(base) if rng.random() < .5 else A.loadPlane(base=base))
            c.add(op='ReadFile', key='plane ' + key, out=out, chk=['file'], data=plane(v) if out == 'ok' else {}, msg='' if out == 'ok' else repr(v)[:200])
            if out == 'ok':      # nor does changing what was read
                for a in v:
                    if a.ndim and a.flags.writeable and a.dtype.kind != 'b': a += 1


def objects(rec, rng, B, d):
    c = rec.chunk('objects')
    names = ['o', 'sub/o', os.path.join(d, 'abs'), 'n.pkl', 'sub/deep/x y']
    saved = set()
    for k in range(int(rng.integers(3, 9))):
        if not saved or rng.random() < .5:
            name = names[rng.integers(len(names))]
            o = rand_obj(rng)
            x = obj(o)
            out, v = call(lambda: B.save_obj(o, name))
            c.add(op='Save', key='obj ' + name, data=x, out=out, pre=digest(x['v']), post=digest(obj(o)['v']), chk=['ok', 'pure'], msg=repr(v)[:200])
            saved.add(name)
        else:
            name = sorted(saved)[rng.integers(len(saved))]
            out, v = call(lambda: B.load_obj(name))
            c.add(op='ReadFile', key='obj ' + name, out=out, chk=['file'], data=obj(v) if out == 'ok' else {}, msg='' if out == 'ok' else repr(v)[:200])
    # turbines
    c = rec.chunk('turbines')
    sh = scen.turbine(c, 0, rng, kinds=('Ct', 'Gamma', 'fun'))
    P = scen.pts(rng, sh, 4)
    o = scen.options(rng)
    c.query(0, P, chk=['outcome', 'abs'], tol=2e-6, sc=scen.speed(sh), **o)
    out, v = call(lambda: B.save_obj(c.wt[0], 'wt'))
    c.add(op='SaveWt', key='wt', t=0, out=out, chk=['ok'], msg=repr(v)[:200])
    c.pos(0, sh.hub + 1.); c.yaw(0, sh.yaw + .1)
    for t in (1, 2):
        out, v = call(lambda: B.load_obj('wt'))
        c.add(op='LoadWt', key='wt', t=t, out=out, chk=['ok'], msg=repr(v)[:200])
        if out == 'ok':
            c.wt[t] = v
            c.query(t, P, chk=['outcome', 'memo', 'abs'], tol=2e-6, sc=scen.speed(sh), **o)
            c.angles(t)
            import copy
            c.sh[t] = copy.deepcopy(sh)
            if t == 1:
                c.pos(t, rng.uniform(-1, 1, 3)); c.wind(t, sh.wind * 2)
