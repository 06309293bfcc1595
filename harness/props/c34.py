"""C34: rotation matrices, orthogonal vectors and changes of frame"""
import numpy as np
import gen
from rec import num, nums, call, digest
LEVEL = 'exploration'
RULE = 'axes of all directions and forms, angles over many turns, matrices of all kinds, points of all shapes; every call judged by the rotation and product of the specification, and there and back'


def build(rec):
    from wiz.WindTurbine import RotMat_AxisAngle, orth_vect, transform, transform_T
    rng = rec.rng
    for i in range(600 if rec.thorough else 130):
        c = rec.chunk('frame')
        u = gen.unit(rng) if rng.random() < .6 else axis(rng)
        th = float(rng.choice([0., np.pi, -np.pi, np.pi / 2, 2 * np.pi, 1e-9, -1e-4])) if rng.random() < .35 else float(rng.uniform(-20, 20))
        for k in range(3):
            for (v, t) in ((u, th), (u, -th), (-u, th)):
                a = given(rng, v)
                c.func('RotMat_AxisAngle', lambda X: RotMat_AxisAngle(a, float(X)), t, dict(u=nums(v), th=num(t)), ['ok', 'frame'], tol=1e-13, watch=[np.asarray(a)], results=lambda r: [r])
        # vectors of any length, along and close to the axes and diagonals
        for k in range(4):
            v = (gen.unit(rng) if rng.random() < .4 else axis(rng)) * 10 ** float(rng.uniform(-60, 60) if rng.random() < .3 else rng.uniform(-3, 3))
            if rng.random() < .3: v = v + rng.normal(size=3) * np.linalg.norm(v) * 10 ** rng.uniform(-16, -1)
            a = given(rng, v)
            c.func('orth_vect', lambda X: orth_vect(a), 0., dict(u=nums(v)), ['ok', 'frame'], tol=1e-13, watch=[np.asarray(a)], results=lambda r: [r])
        if rng.random() < .1:
            out, v = call(lambda: orth_vect(np.zeros((3, 1))))
            c.add(op='Note', out=out, chk=['refused'])
        # changes of frame
        if rng.random() < .5:
            M = gen.rotm(u, th)
        else:
            M = rng.normal(size=(3, 3)) * 10 ** rng.uniform(-3, 3)
        sh = [None, (4,), (2, 2), (1, 4), (2, 1, 2)][rng.integers(5)]
        P = rng.normal(size=(4, 3)) * 10 ** rng.uniform(-3, 3, (4, 1))
        sc = float(np.abs(M).max())
        order = str(rng.choice(['C', 'F', 'strided', 'rev', 'large', 'mixed']))
        if order in ('large', 'crowdfar'): sh = None
        watch = [M]
        for f, fn in (('transform', transform), ('transform_T', transform_T)):
            c.kernel(f, lambda X, Y, Z: fn(M, X, Y, Z), P, dict(M=nums(M)), chk=['ok', 'frame', 'shape'], tol=1e-13, sc=sc, shape=sh, order=order, watch=watch)
        for f, fn in (('transform', transform), ('transform_T', transform_T)):      # whole numbers
            c.kernel(f, lambda X, Y, Z: fn(M, X, Y, Z), np.round(P * 3), dict(M=nums(M)), chk=['ok', 'frame', 'shape'], tol=1e-13, sc=sc, shape=[None, (2, 2)][rng.integers(2)], order='int', watch=watch)
        p = P[0]      # single points, as numbers
        for f, fn in (('transform', transform), ('transform_T', transform_T)):
            out, v = call(lambda: fn(M, *[float(x) for x in p]))
            e = dict(op='Kernel', f=f, a=dict(M=nums(M)), X=num(p[0]), Y=num(p[1]), Z=num(p[2]), out=out, tol=num(1e-13), sc=num(sc), chk=['ok', 'frame'])
            e.update(c._result(out, v, ()))
            c.add(**e)


def axis(rng):
    v = rng.integers(-1, 2, 3).astype(float)
    while not v.any(): v = rng.integers(-1, 2, 3).astype(float)
    return v / np.linalg.norm(v)


def given(rng, v):
    w = rng.integers(4)
    if w == 0: return v.copy()
    if w == 1: return v.reshape(3, 1).copy()
    if w == 2: return v.tolist()
    b = np.zeros(6); b[::2] = v
    return b[::2]
