"""C40: calls that overlap in time or are broken off"""
import models as mc
import numpy as np
import gen, scen, kern, sched
from kern import K
LEVEL = 'model_checking'
RULE = 'schedules of two or three calls switched at chosen lines of the library, and calls broken off at chosen lines, the answers compared to those of the same questions asked alone'


def places(rng, n, most):
    """lines at which to switch: all of them when there are few"""
    return list(range(1, n + 1)) if n <= most else sorted(int(q) for q in rng.choice(np.arange(1, n + 1), most, replace=False))


def build(rec):
    rng = rec.rng
    most = 40 if rec.thorough else 9
    # turbines
    for i in range(90 if rec.thorough else 26):
        c = rec.chunk('turbines')
        for t in range(2):
            ground = bool(rng.random() < .5)
            scen.turbine(c, t, rng, R=1., ground=ground, model=['VC', 'VC', 'VC', 'VCFF', 'SS', 'VD'][(i + t) % 6], hub=None)
        P = {t: scen.pts(rng, c.sh[t], 3) for t in (0, 1)}
        kw = dict(chk=['outcome', 'memo'], tol=1e-11, sc=20., omit=False)

        near = dict(kw, tol=1e-8)

        def around(t):
            d = rng.normal(size=(3, 3))
            return c.sh[t].hub + d / np.linalg.norm(d, axis=1)[:, None] * rng.uniform(1.5, 4, (3, 1)) * c.sh[t].R

        def asks(t):
            """questions to turbine t"""
            own = c.sh[t].model
            o = [dict(), dict(ground=True), dict(ground=False), dict(no_wake=True), dict(only_ind=True), dict(no_wake=True, only_ind=True, ground=True)]
            o += [dict(Model=m) for m in scen.MODELS] + [dict(Model='VCFF', R_far_field=2.)]
            if own == 'VC': o += [dict(q) for q in scen.COMPS[1:]] + [dict(longi=True, root=True, ground=True), dict(longi=True, root=True, ground=False)]
            return o[rng.integers(len(o))]

        def ask(t, o):
            Q = P[t] + rng.uniform(0, .01, 3) if rng.random() < .2 else P[t]
            return lambda: c.query(t, Q, **kw, **o)

        def other():
            """another read-only call"""
            return [lambda: c.angles(0), lambda: c.disk(0, 5), lambda: c.repr(0), lambda: c.layout('F'), lambda: c.count('F'), lambda: c.farmrepr('F'),
                    lambda: c.farmquery('F', P[0], None, chk=[], ground=not c.sh[0].ground), lambda: c.farmquery('F', P[0], None, chk=[], no_wake=True, U0=[1., 2., 3.]),
                    lambda: c.skew(0)][rng.integers(9)]
        c.farmnew('F', [0, 1])
        # loaded differently, so that the two are different questions
        for k in range(6 if rec.thorough else 3):
            o = asks(0)
            A = ask(0, o)
            w = rng.random()
            if w < .45: B = ask(0, asks(0))
            elif w < .65: B = ask(1, asks(1))
            elif w < .75: B = other()
            else:           # the other turbine is given new settings in the meantime
                new = c.rng.integers(4)
                if new == 0: B = lambda: c.yaw(1, c.sh[1].yaw + .01)
                elif new == 1: B = lambda: c.pos(1, c.sh[1].hub + .01)
                elif new == 2: B = lambda: c.wind(1, c.sh[1].wind * 1.01)
                else: B = lambda: c.load(1, **gen.exact_load(rng, c.sh[1], ncyl=1))
            A()
            if w < .75: B()
            n = sched.lines(A)
            for j in places(rng, n, most):
                sched.overlap([A, B], [j])
            m = sched.lines(B)
            for j in range(4 if rec.thorough else 2):        # there and back again
                sched.overlap([A, B], [int(rng.integers(1, n + 1)), int(rng.integers(1, max(m, 2)))])
                sched.overlap([B, A, ask(0, asks(0))], [int(rng.integers(1, max(m, 2))), int(rng.integers(1, n + 1)), int(rng.integers(1, n + 1)), 3])
            # broken off, then asked again
            for j in places(rng, n, max(4, most // 2)):
                sched.broken(A, j)
                if rng.random() < .5 and w < .75: B()
                A()
            c.query(0, P[0], **kw)
            if w >= .75:    # the other one is what it was given
                c.rebuild(1, 2)
                Q = around(1)
                c.query(2, Q, **near); c.query(1, Q, **near)
        c.angles(0); c.layout('F')
        # a change broken off and made again is the change
        for k in range(4):
            t = 0
            what = rng.integers(6)
            if what == 0: v = float(rng.uniform(-1, 1)); f = lambda: c.yaw(t, v)
            elif what == 1: v = rng.uniform(-2, 2, 3) + c.sh[t].hub; f = lambda: c.pos(t, v)
            elif what == 2: v = gen.horiz_wind(rng, c.sh[t].shaft0, c.sh[t].vert, c.sh[t].yaw); f = lambda: c.wind(t, v)
            elif what == 3: s, vv = gen.rand_frame(rng); f = lambda: c.frame(t, s, vv)
            elif what == 4: v = float(rng.uniform(-.5, .5)); f = lambda: c.chi(t, v)
            else: v = gen.exact_load(rng, c.sh[t], ncyl=1); f = lambda: c.load(t, **v)
            for j in rng.integers(1, 30, 2):
                sched.broken(f, int(j))
            f()
            c.rebuild(t, 2)
            Q = around(t)
            c.query(2, Q, **near); c.query(t, Q, **near)
    # farms
    for i in range(30 if rec.thorough else 8):
        c = rec.chunk('farms')
        for t in range(3):
            scen.turbine(c, t, rng, R=1., skew=None if t else .3)
        c.farmnew('F', [0, 1, 2]); c.farmnew('G', [2, 0])
        P = scen.pts(rng, c.sh[0], 3)
        o = [dict(), dict(ground=True), dict(no_wake=True), dict(ground=True, longi=True, root=True)]
        single = {}
        for k, q in enumerate(o):
            q = dict(q)
            for t in range(3):
                single[t, k] = c.query(t, P, chk=[], only_ind=True, **q)

        def farm(f):
            k = int(rng.integers(len(o)))
            return lambda: c.farmquery(f, P, [single[t, k] for t in c.members[f]], U0=[1., 0., 2.] if rng.random() < .5 else None, **o[k])
        for k in range(3):
            A, B = farm('F'), farm('FG'[rng.integers(2)])
            n = sched.lines(A)
            for j in places(rng, n, most):
                sched.overlap([A, B], [j])
            for j in places(rng, n, 3):
                sched.broken(A, j); A(); B()
    # kernels
    every = list(kern.every())
    for i in range(120 if rec.thorough else 40):
        c = rec.chunk('kernels')
        fs = [every[rng.integers(len(every))] for _ in range(2)]
        if rng.random() < .6: fs[1] = fs[0]
        ks, first, P = [], [], []
        for f, form in fs:
            k = K(f, kern.rand(rng, f), form)
            ks.append(k)
            P.append(k.points(rng, 3, dmin=.2, offaxis=.02 if f in kern.HIDDEN else 0))
            first.append(k.emit(c, P[-1], chk=[]))

        def again(q):
            return lambda: ks[q].emit(c, P[q], chk=['krel'], rel=[dict(k='subset', a=first[q], map=[1, 2, 3])], tol=1e-12)
        A, B = again(0), again(1)
        n = sched.lines(A)
        for j in places(rng, n, most):
            sched.overlap([A, B], [j])
        for j in places(rng, n, 3):
            sched.broken(A, j); A(); B()


def models(rec):
    return mc.run(rec, 'overlap', 'overlapground')
