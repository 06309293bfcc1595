"""C05: layout reads and writes are exact; invalid ones change nothing"""
import models as mc
import numpy as np
import gen, scen, behav
LEVEL = 'model_checking'
RULE = 'behaviours generated by TLC (appends, moves, valid and invalid layouts, things that are not turbines) replayed into the code; layout and count compared to the specification after every step, fields at the end'


def bad(kind, n, rng):
    a = rng.uniform(-9, 9, (max(n, 1), 3))
    return {'more': rng.uniform(-9, 9, (n + 1, 3)), 'fewer': rng.uniform(-9, 9, (n - 1, 3)) if n > 0 else rng.uniform(-9, 9, (2, 3)), 'two': rng.uniform(-9, 9, (n, 2)),
            'four': rng.uniform(-9, 9, (n, 4)), 'transposed': a.T.copy() if a.shape[0] != 3 else rng.uniform(-9, 9, (3, 4)), 'flat': rng.uniform(-9, 9, 3 * n + (n == 0)),
            'scalar': np.array(4.), 'deep': a[:, :, None] if n > 0 else np.zeros((0, 3, 1)), 'nested': a[None] if n > 0 else np.zeros((1, 0, 3))}[kind]


def run(rec, h, label):
    rng = rec.rng
    c = rec.chunk(label)
    c.derived = .3
    f = gen.rand_frame(rng)
    for t in range(3):
        scen.turbine(c, t, rng, R=1., frame=f, yaw=.1 * t, skew=.3 if t == 1 else 0., ground=False, ncyl=1)
    c.farmnew('F', [])
    members = []
    P = rng.uniform(-5, 5, (3, 3))
    big = 5000. if rng.random() < .3 else 9.
    L = {k: rng.uniform(-big, big, (40, 3)) for k in ('L0', 'L1')}
    if rng.random() < .4:      # two layouts that differ very little
        L['L1'] = L['L0'] * (1 + float(rng.choice([1e-3, 1e-6, 1e-9])) * rng.uniform(-1, 1, (40, 3)))
        if rng.random() < .5: L['L1'][1:] = L['L0'][1:]
    near = rng.random() < .3   # layouts a hair from the current positions
    ask = lambda: [c.query(t, P, chk=['outcome', 'memo'], tol=1e-10, sc=20.) for t in range(3)]
    ask()
    for a in h:
        op, w = a['op'], a.get('v')
        if op == 'Append': c.append('F', a['t']); members.append(a['t'])
        elif op == 'AppendBad': c.appendbad('F', {'none': None, 'dict': dict(r_hub=[0, 0, 0]), 'farm': c.farm['F']}[w])
        elif op == 'SetLayout' and near and members:
            H = np.array([c.sh[t].hub for t in members])
            c.setlayout('F', H + float(rng.choice([1e-2, 1e-5, 1e-8, 1e-12])) * rng.uniform(-1, 1, H.shape) * (rng.random(H.shape) < .5))
        elif op == 'SetLayout': c.setlayout('F', L[w][:len(members)].reshape(-1, 3), as_list=w == 'L1' and len(members) > 0)
        elif op == 'SetLayoutBad': c.setlayout('F', bad(w, len(members), rng))
        elif op == 'Pos': c.pos(1, [3., 1., -2.] if rng.random() < .5 else rng.uniform(-4, 4, 3))
        elif op == 'Yaw': c.yaw(0, .3)
        elif op == 'Count': c.count('F')
        elif op == 'FarmRepr': c.farmrepr('F')
        c.layout('F')
        if rng.random() < .3: c.count('F')
    ask()
    c.count('F')
    for t in set(members):
        c.rebuild(t, t + 10)
        c.query(t + 10, P, chk=['outcome', 'memo'], tol=1e-10, sc=20.)


def build(rec):
    rng = rec.rng
    two = behav.generate(rec, 'farm', 2)
    three = behav.generate(rec, 'farm', 3)
    long_ = behav.generate(rec, 'farm', 16, simulate=2000 if rec.thorough else 250)
    if not rec.thorough:
        three = [three[i] for i in rng.permutation(len(three))[:700]]
    for h in two: run(rec, h, 'exhaustive 2')
    for h in three: run(rec, h, 'length 3')
    for h in long_: run(rec, h, 'long')
    # a large farm
    for n in (34, 70, 130):
        c = rec.chunk('many turbines')
        f = gen.rand_frame(rng)
        for t in range(n):
            scen.turbine(c, t, rng, R=1., frame=f, ground=False, model='VCFF', load=False)
        c.farmnew('F', [])
        for t in range(n): c.append('F', t)
        c.count('F')
        c.layout('F')
        for k in range(2):
            c.setlayout('F', rng.uniform(-90, 90, (n, 3)), as_list=k == 1)
            c.layout('F')
        c.setlayout('F', rng.uniform(-9, 9, (n - 1, 3)))
        c.layout('F')
        c.count('F')
    # other things that are not turbines, although some could pass for one
    class Duck:
        R, r_hub, name = 1., np.zeros((3, 1)), 'duck'
        def compute_u(self, *a, **k): return a
        def update_position(self, p): self.r_hub = p
    for x in (3, 'WT', [1, 2, 3], np.zeros(3), object(), [], (), 1.5, Duck(), Duck):
        c = rec.chunk('not a turbine')
        scen.turbine(c, 0, rng)
        c.farmnew('F', [0])
        c.appendbad('F', x)
        c.count('F')
        c.layout('F')
        c.appendbad('F', type(c.wt[0]))       # the class is not a turbine
        c.appendbad('F', [c.wt[0]])
        c.count('F')
        c.layout('F')


def models(rec):
    return mc.run(rec, 'farm')
