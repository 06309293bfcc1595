"""C35: what is printed about turbines and farms tells their current settings"""
import re
import numpy as np
import gen, scen
from rec import call, num, nums
LEVEL = 'model_checking'
RULE = 'turbines and farms described again and again while their settings change; the numbers in the text judged against the settings the specification has reached'
NUM = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|inf|nan)'


def labelled(txt):
    """[(label, text up to the next label)]"""
    out = []
    for l in txt.split('\n'):
        m = re.match(r'^\s*-\s+([A-Za-z][\w ]*?)\s*:(.*)$', l)
        if m: out.append([m.group(1), m.group(2)])
        elif out: out[-1][1] += ' ' + l
    return out


def numbers(t):
    return ' '.join(re.findall(NUM, t))


def describe(c, t, name, short):
    wt = c.wt[t]
    how = c.rng.integers(3)
    f = [lambda: wt.tostring(), lambda: wt.tostring(True), lambda: wt.tostring(short=True)][how] if short else [lambda: wt.tostring(False), lambda: repr(wt), lambda: str(wt)][how]
    out, s = call(f)
    e = dict(op='Repr', t=t, out=out, chk=['describe'], short=str(int(short)), wname=name, name='?')
    d = {k: '' for k in ('R', 'hub', 'wind', 'yerr', 'wd', 'yaw', 'shaft', 'c2g', 'wt2g', 'f2g', 'c2wt')}
    if out == 'ok':
        m = re.match(r'^class WindTurbine\((.*)\), with attributes:', s)
        e['name'] = m.group(1) if m else '?'
        L = labelled(s)
        get = lambda k: ' '.join(numbers(v) for n, v in L if n == k)
        d.update(R=get('R'), hub=get('r_hub'), wind=get('U0'), yerr=get('yaw_err'))
        if not short:
            d.update(wd=get('wd'), yaw=get('yaw_pos'), shaft=get('e_shaft'), c2g=get('T_c2g'), wt2g=get('T_wt2g'), f2g=get('T_F2g'), c2wt=get('T_c2wt'))
        e['msg'] = s[:600]
    if any(len(d[k].split()) != 1 for k in (('R',) if short else ('R', 'wd', 'yaw'))):
        e['out'] = 'error' if out == 'ok' else out      # not to be found in the text
    e.update(d)
    c.add(**e)


def farmdescribe(c, f, name):
    w = c.farm[f]
    out, s = call([lambda: repr(w), lambda: str(w), lambda: w.tostring(), lambda: w.tostring(short=False)][c.rng.integers(4)])
    e = dict(op='FarmRepr', f=f, out=out, chk=['farmdescribe'], wname=name, name='?', n=-1, rows=[])
    if out == 'ok':
        m = re.match(r'^class WindFarm\((.*)\):', s)
        e['name'] = m.group(1) if m else '?'
        for k, v in labelled(s):
            if k == 'Number of turbines': e['n'] = int(float(v))
            if k == 'layout':
                x = numbers(v).split()
                e['rows'] = [' '.join(x[j:j + 3]) for j in range(0, len(x), 3)]
        e['msg'] = s[:600]
    c.add(**e)


def build(rec):
    rng = rec.rng
    names = ['', 'T1', 'the 2nd (north)', 'WT', 'x_y-3', '\u00e9olienne']
    for i in range(500 if rec.thorough else 120):
        c = rec.chunk('text')
        c.derived = .1
        n = int(rng.integers(1, 4))
        nm = {}
        for t in range(n):
            s, v = gen.rand_frame(rng)
            d = ['shaft', 'vert', 'hub', 'wind', 'ground', 'model'] if rng.random() < .1 else []
            nm[t] = str(rng.choice(names))
            if d: s, v = np.array([0, 0, 1.]), np.array([0, 1., 0])
            c.new(t, R=float(rng.choice([1., .5, 63., 80.25, 1e-3, 12345.678])), shaft=s, vert=v, hub=scen.place(rng, 50., v, False), wind=gen.horiz_wind(rng, s, v, float(rng.uniform(-3.1, 3.1))),
                  default=d, name=None if not nm[t] else nm[t])
        f = None
        if rng.random() < .6:
            ids = list(rng.permutation(n)[:int(rng.integers(0, n + 1))])
            fname = str(rng.choice(names))
            from wiz.WindFarm import WindFarm
            c.farmnew(0, [int(x) for x in ids])
            if fname:
                ws = [c.wt[int(x)] for x in ids]
                out, w = call(lambda: WindFarm(ws, name=fname))
                if out == 'ok': c.farm[0] = w
                else: fname = ''
            f = fname
        for k in range(int(rng.integers(3, 9))):
            t = int(rng.integers(n))
            sh = c.sh[t]
            a = rng.integers(9)
            if a == 0: c.pos(t, scen.place(rng, 50., sh.vert, False) * 10 ** float(rng.uniform(-3, 3)))
            elif a == 1: c.yaw(t, float(rng.uniform(-12, 12)) if rng.random() < .7 else float(rng.choice([0, np.pi / 2, -np.pi, 1e-6])))
            elif a == 2: c.wind(t, gen.horiz_wind(rng, sh.shaft0, sh.vert, float(rng.uniform(-3.1, 3.1))) * float(rng.uniform(.1, 3)))
            elif a == 3: c.frame(t, *gen.rand_frame(rng))
            elif a == 4 and not (sh.loaded is True): c.load(t, 'Ct', .7)
            elif a == 5 and sh.loaded is True: c.query(t, sh.hub + np.array([[1., 2, 3]]) * sh.R, chk=['ok'])
            elif a == 6 and f is not None and c.members[0]:
                c.setlayout(0, rng.uniform(-500, 500, (len(c.members[0]), 3)))
            elif a == 7 and f is not None: c.append(0, t)
            elif a == 8: c.chi(t, float(rng.uniform(-.5, .5)))
            # winds reset by the frame stay horizontal with respect to the new one
            if a == 3: c.wind(t, gen.horiz_wind(rng, c.sh[t].shaft0, c.sh[t].vert, float(rng.uniform(-3.1, 3.1))))
            for u in ([t] if rng.random() < .6 else range(n)):
                describe(c, u, nm[u], bool(rng.random() < .4))
            if f is not None and rng.random() < .6: farmdescribe(c, 0, f)
