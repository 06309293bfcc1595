"""Records calls to the real code as events of the TLA+ trace specification (spec/WizTrace.tla)."""
import sys, os, io, hashlib, contextlib, warnings, json
import numpy as np
import gen
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def num(x):
    x = float(x)
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    return '%.17g' % x


def nums(v):
    return ' '.join(num(x) for x in np.asarray(v, dtype=float).ravel())


CALLS = 0
PLAIN = False     # set while calls overlap: the settings of the process are those of all of them
LEAKED = 0      # calls that left the settings of the process changed


def settings():
    """settings of the process that a computation has no business with"""
    r = np.random.get_state()
    return np.geterr(), np.get_printoptions(), r[1].tobytes(), r[2:], os.getcwd()


def digest(arrs):
    h = hashlib.sha1(b'%d' % LEAKED)
    for a in arrs:
        if a is None:
            h.update(b'None')
        elif isinstance(a, np.ndarray):
            h.update(str((a.shape, a.dtype.str)).encode()); h.update(np.ascontiguousarray(a).tobytes())
        else:
            h.update(repr(a).encode())
    return h.hexdigest()


def call(f, *args, **kw):
    """run f, silencing what it prints -> (outcome, value)"""
    global CALLS, LEAKED
    if PLAIN:       # among overlapping calls
        try:
            return 'ok', f(*args, **kw)
        except NotImplementedError as e:
            return 'notimpl', e
        except Exception as e:
            return 'error', e
    CALLS += 1
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='warn' if CALLS % 3 else 'ignore'):
        warnings.simplefilter('ignore')
        before = settings()
        try:
            return 'ok', f(*args, **kw)
        except NotImplementedError as e:
            return 'notimpl', e
        except Exception as e:
            return 'error', e
        finally:
            after = settings()
            if after != before:
                LEAKED += 1
                np.set_printoptions(**before[1])


FILLED = dict(large=(900, 4000), vast=(66000, 131000), crowdfar=(1500, 4000), crowdnear=(1500, 4000), nan=(1, 3), inf=(1, 3), huge=(1, 3))      # other points in the same request: how many


def _at(a, sel):
    return a if sel is None else a.ravel()[sel]


OPT = dict(only_ind=False, longi=False, tang=True, root=False, no_wake=False, ground=None, Model=None, R_far_field=6)


class Chunk:
    def __init__(self, rec, label=''):
        self.rec, self.label = rec, label
        self.ev = []
        self.wt = {}
        self.farm = {}
        self.members = {}
        self.sh = {}        # settings, as the caller knows them
        self.held = {}      # arrays the caller handed over, for later modification
        self.rng = rec.rng
        self.lastload = {}
        self.derived = 0.

    def add(self, **e):
        e.setdefault('out', 'ok')
        e.setdefault('chk', [])
        self.ev.append(e)
        return len(self.ev)

    # ---------------- settings ----------------
    def given(self, v):
        """one of the ways a vector is handed over"""
        a = np.array(v, dtype=float).ravel()
        u = self.rng.random()
        if u < .5: return a
        whole = np.array_equal(a, np.round(a)) and np.all(np.abs(a) < 1e9)
        if whole and u < .8:
            a = a.astype(int)
        k = self.rng.integers(5)
        return [a, a.tolist(), tuple(a.tolist()), a.reshape(3, 1), a.reshape(1, 3)][k]

    def scalar(self, x):
        x = float(x)
        return int(x) if np.isfinite(x) and x == round(x) and abs(x) < 1e9 and self.rng.random() < .5 else x

    def _do(self, fn_, arrs, chk, **e):
        pre = digest(arrs)
        out, v = call(fn_)
        post = digest(arrs)
        i = self.add(out=out, pre=pre, post=post, chk=['ok', 'pure'] + list(chk), **e)
        if out != 'ok':
            self.ev[-1]['msg'] = repr(v)[:200]
        return v

    def new(self, t, R=1.0, shaft=(0, 0, 1), vert=(0, 1, 0), hub=(0, 0, 0), wind=(0, 0, 10), ground=False, model='VC',
            lam=None, default=(), share=None, ct=None, places=0, name=None):
        """ct: thrust coefficient (one, or one per station) given right away; places: how many arguments are given by place;
        default: names of constructor arguments left at their default; share: arrays used as given"""
        from wiz.WindTurbine import WindTurbine
        kw, arrs = {}, []
        for k, n, v in (('e_shaft_yaw0', 'shaft', shaft), ('e_vert', 'vert', vert), ('r_hub', 'hub', hub), ('U0', 'wind', wind)):
            if n in default:
                continue
            a = v if (share and n in share) else self.given(v)
            kw[k] = a
            arrs.append(a)
            self.held[(t, n)] = a
        if 'ground' not in default:
            kw['Ground'] = ground
        if 'model' not in default:
            kw['Model'] = model
        if lam is not None:
            kw['Lambda'] = lam
        if name is not None:
            kw['name'] = name
        if ct is not None:
            ca = np.array(ct, dtype=float)
            kw['Ct'] = ca if ca.ndim else self.scalar(ca)
            arrs.append(ca)
        if 'shaft' in default: shaft = (0, 0, 1)
        if 'vert' in default: vert = (0, 1, 0)
        if 'hub' in default: hub = (0, 0, 0)
        if 'wind' in default: wind = (0, 0, 10)
        rec = dict(op='New', t=t, R=num(R), shaft=nums(shaft), vert=nums(vert), hub=nums(hub), wind=nums(wind), ground=bool(ground),
                   model=model, lam=num(np.inf if lam is None else lam))
        if ct is not None:
            rec['ct'] = nums(ct)
        by = []
        for k in ('r_hub', 'e_shaft_yaw0', 'e_vert', 'U0', 'Ct', 'Lambda', 'name', 'Ground', 'Model')[:places]:
            by.append(kw.pop(k, dict(r_hub=[0, 0, 0], e_shaft_yaw0=[0, 0, 1], e_vert=[0, 1, 0], U0=[0, 0, 10], Ct=None, Lambda=np.inf, name='', Ground=False, Model='VC')[k]))
        Rg = self.scalar(R)
        if self.derived and self.rng.random() < self.derived:   # a turbine is a turbine, whatever the user added to the class
            WindTurbine = type('MyTurbine', (WindTurbine,), {})
        wt = self._do(lambda: WindTurbine(Rg, *by, **kw), arrs, [], **rec)
        self.wt[t] = wt
        self.sh[t] = gen.Shadow(R, (0, 0, 1) if 'shaft' in default else shaft, (0, 1, 0) if 'vert' in default else vert,
                                (0, 0, 0) if 'hub' in default else hub, (0, 0, 10) if 'wind' in default else wind, ground, model)
        self.sh[t].lam = np.inf if lam is None else lam
        if ct is not None:
            self.sh[t].loaded = True
            self.sh[t].radii = [R]
        return wt

    def frame(self, t, shaft, vert, arrs=None):
        a, b = (self.given(shaft), self.given(vert)) if arrs is None else arrs
        self.held[(t, 'shaft')], self.held[(t, 'vert')] = a, b
        self._do(lambda: self.wt[t].set_yaw0_coord(a, b), [a, b], [], op='Frame', t=t, shaft=nums(a), vert=nums(b))
        self.sh[t].shaft0, self.sh[t].vert, self.sh[t].yaw = np.array(a, float).ravel(), np.array(b, float).ravel(), 0.

    def yaw(self, t, v):
        y = self.scalar(v)
        self._do(lambda: self.wt[t].update_yaw_pos(y), [], [], op='Yaw', t=t, v=num(v))
        self.sh[t].yaw = float(v)

    def pos(self, t, v, arr=None):
        a = self.given(v) if arr is None else arr
        self.held[(t, 'hub')] = a
        self._do(lambda: self.wt[t].update_position(a), [a], [], op='Pos', t=t, v=nums(a))
        self.sh[t].hub = np.array(a, dtype=float).ravel()

    def wind(self, t, v, arr=None):
        a = self.given(v) if arr is None else arr
        self.held[(t, 'wind')] = a
        self._do(lambda: self.wt[t].update_wind(a), [a], [], op='Wind', t=t, v=nums(a))
        self.sh[t].wind = np.array(a, dtype=float).ravel()

    def chi(self, t, v):
        self._do(lambda: self.wt[t].set_chi(v), [], [], op='Chi', t=t, v='auto' if v is None else num(v))
        self.sh[t].chi = v

    def ground(self, t, b):
        self._do(lambda: setattr(self.wt[t], 'Ground', b), [], [], op='Ground', t=t, b=bool(b))
        self.sh[t].ground = bool(b)

    def model(self, t, m):
        self._do(lambda: setattr(self.wt[t], 'Model', m), [], [], op='Model', t=t, v=m)
        self.sh[t].model = m

    def load(self, t, kind, v, r=None, lam=None, ncyl=1, law=None, arrs=None, chk=(), keeplaw=False):
        """kind: Ct | Gamma | fun (law=(c0,c1))"""
        va = np.array(v, dtype=float) if arrs is None else arrs[1]
        ra = (None if r is None else np.array(r, dtype=float)) if arrs is None else arrs[0]
        self.held[(t, 'v')], self.held[(t, 'r')] = va, ra
        kw = {}
        aslist = arrs is None and ncyl > 0 and self.rng.random() < .15
        if ra is not None:
            kw['r'] = ra.tolist() if aslist else ra
        kw['Gamma' if kind == 'Gamma' else 'Ct'] = (va.tolist() if aslist else va) if va.ndim else self.scalar(va)
        if lam is not None:
            kw['Lambda'] = lam
        if ncyl != 1:
            kw['nCyl'] = None if ncyl == 0 else ncyl
        if kind == 'fun':
            def fun(Ct, l=law):
                g = l[0] + l[1] * np.asarray(Ct)
                if keeplaw:
                    self.held[(t, 'law')] = g
                return g
            kw['gamma_t_Ct'] = fun
        keep = dict(kind=kind, v=va.copy(), r=None if ra is None else ra.copy(), ncyl=ncyl, law=law)
        rec = dict(op='Load', t=t, kind=kind, r='' if ra is None else nums(ra), v=nums(va), lam='' if lam is None else num(lam),
                   ncyl=ncyl, law='' if law is None else nums(law))
        self._do(lambda: self.wt[t].update_loading(**kw), [va, ra], chk, **rec)
        s = self.sh[t]
        s.loaded = True
        if lam is not None:
            s.lam = lam
        self.lastload[t] = (dict(keep, lam=s.lam), s.wind.copy())
        s.radii = [s.R] if ncyl == 1 else list(gen.stations(s.R, ncyl) if ncyl else np.array(ra))

    def rebuild(self, t, t2):
        """a new turbine t2 given the current settings of t"""
        s = self.sh[t]
        kw, w = self.lastload[t] if t in self.lastload else (None, s.wind)
        self.new(t2, R=s.R, shaft=s.shaft0, vert=s.vert, hub=s.hub, wind=w, ground=s.ground, model=s.model, lam=s.lam)
        if kw:
            self.load(t2, **kw)
        if not np.array_equal(w, s.wind):
            self.wind(t2, s.wind)
        if s.yaw != 0:
            self.yaw(t2, s.yaw)
        if s.chi is not None:
            self.chi(t2, s.chi)

    def loadbad(self, t, **kw):
        """a loading that must be refused"""
        out, v = call(lambda: self.wt[t].update_loading(**kw))
        self.add(op='LoadBad', t=t, out=out, chk=['outcome'])

    def somebad(self, t):
        """one of the loadings that have to be refused"""
        rng, R = self.rng, self.sh[t].R
        r = np.linspace(.1, .9, 4) * R
        lam = float(rng.choice([2., 7., 33.]))
        law = lambda Ct: -np.asarray(Ct) * 3.
        self.loadbad(t, **[dict(), dict(Lambda=lam), dict(gamma_t_Ct=law), dict(Gamma=5. * R, Lambda=lam, gamma_t_Ct=law), dict(r=r, Gamma=r * 0 + R, Lambda=lam, nCyl=3, gamma_t_Ct=law),
                           dict(r=r, Lambda=lam, nCyl=2), dict(Ct=r[:3] / R, r=r, Lambda=lam, nCyl=3)][rng.integers(7)])

    # ---------------- queries ----------------
    def arrays(self, P, shape=None, order='C', dtype=float):
        """the request as arrays, and where in them the points of interest are"""
        P = np.asarray(P, dtype=float)
        if order in FILLED:
            # among many other points, or next to points that have no velocity or an extreme position
            n, N = len(P), int(self.rng.integers(*FILLED[order]))
            B = P[self.rng.integers(0, n, n + N)] * self.rng.uniform(.8, 1.2, (n + N, 1))
            if order.startswith('crowd'):      # the others all far away, or all close to the origin
                B = P[self.rng.integers(0, n, n + N)] * 10 ** (self.rng.uniform(1, 3, (n + N, 1)) if order == 'crowdfar' else self.rng.uniform(-2, -1, (n + N, 1)))
            elif order not in ('large', 'vast'):
                v = dict(nan=np.nan, inf=np.inf, huge=1e30 * self.rng.choice([-1., 1.]))[order]
                B[:] = P[self.rng.integers(0, n, n + N)]
                for j in range(n + N):
                    k = self.rng.integers(3)
                    B[j, k] = v if k else abs(v)
            idx = np.sort(self.rng.permutation(n + N)[:n])
            B[idx] = P
            if order not in ('nan', 'inf', 'huge') and self.rng.random() < .6:
                w = int(self.rng.choice([2, 7, 50]))
                B = np.vstack([B, np.repeat(B[:1], (-len(B)) % w, 0)])
                return [B[:, k].reshape((-1, w) if self.rng.random() < .5 or k else (len(B) // w, w)) for k in range(3)] + [idx]
            return [B[:, k].copy() for k in range(3)] + [idx]
        res = []
        for k in range(3):
            a = P[:, k].astype(dtype)
            if shape is not None:
                a = a.reshape(shape)
            if order == 'F':
                a = np.asfortranarray(a)
            elif order == 'strided':
                b = np.empty(a.shape + (2,), dtype=a.dtype)
                b[..., 0] = a
                b[..., 1] = 77.
                a = b[..., 0]
            elif order == 'rev':
                a = a[::-1].copy()[::-1]
            elif order == 'int':
                a = a.astype(int)
            elif order == 'ro':
                a.flags.writeable = False
            elif order == 'mixed':
                a = [np.ascontiguousarray, np.asfortranarray, lambda b: b[::-1].copy()[::-1]][k](a)
            res.append(a)
        return res + [None]

    def _options(self, opts, omit=True):
        o = dict(OPT); o.update(opts)
        kw = {k: v for k, v in o.items() if not (omit and v == OPT[k] and type(v) == type(OPT[k]))}
        rec = dict(only_ind=int(o['only_ind']), longi=int(o['longi']), tang=int(o['tang']), root=int(o['root']), no_wake=int(o['no_wake']),
                   ground='' if o['ground'] is None else str(int(o['ground'])), model='' if o['Model'] is None else o['Model'], rff=num(o['R_far_field']))
        return kw, rec

    def _result(self, out, v, shi, sel=None):
        if out != 'ok':
            return dict(o=[], sho=[], shi=list(shi), msg=repr(v)[:200])
        try:
            vals = [np.asarray(x, dtype=float) for x in v]
        except Exception as e:
            return dict(o=[], sho=[], shi=list(shi), msg='not an array: ' + repr(e))
        if sel is not None and all(x.shape == shi for x in vals):      # recorded: the points of interest
            vals, shi = [x.ravel()[sel] for x in vals], (len(sel),)
        return dict(o=[nums(x) for x in vals], sho=[list(x.shape) for x in vals], shi=list(shi))

    def query(self, t, P, chk=('outcome',), rel=None, tol=1e-9, sc=10., shape=None, order='C', keep=False, omit=True, **opts):
        X, Y, Z, sel = self.arrays(P, shape, order)
        kw, orec = self._options(opts, omit)
        pre = digest([X, Y, Z])
        out, v = call(lambda: self.wt[t].compute_u(X, Y, Z, **kw))
        post = digest([X, Y, Z])
        e = dict(op='Query', t=t, o_=orec, X=nums(_at(X, sel)), Y=nums(_at(Y, sel)), Z=nums(_at(Z, sel)), out=out, pre=pre, post=post, tol=num(tol), sc=num(sc),
                 chk=['pure'] + list(chk))
        e.update(self._result(out, v, X.shape, sel))
        if rel:
            e['rel'] = rel
        i = self.add(**e)
        if keep:
            self.held[('q', i)] = (X, Y, Z, v)
        return i

    def angles(self, t, chk=('angles',)):
        out, v = call(lambda: (self.wt[t].yaw_wind, self.wt[t].yaw_error))
        e = dict(op='Angles', t=t, out=out, chk=list(chk))
        e.update(dict(yw=num(v[0]), ye=num(v[1])) if out == 'ok' else dict(yw='nan', ye='nan'))
        return self.add(**e)

    def loading(self, t):
        """what the turbine says of its loading (when it does)"""
        w = self.wt[t]
        if not (hasattr(w, 'r') and hasattr(w, 'Ct') and hasattr(w, 'Lambda') and self.sh[t].loaded):
            return
        out, v = call(lambda: (nums(w.r), '' if w.Ct is None else nums(np.ravel(w.Ct)), num(w.Lambda)))
        e = dict(op='Loading', t=t, out=out, chk=['loading'])
        e.update(dict(r=v[0], Ct=v[1], lam=v[2]) if out == 'ok' else dict(r=[], Ct='', lam='nan'))
        self.add(**e)

    def skew(self, t):
        """the skew angle of the wake, as the turbine tells it after a query (when it does)"""
        out, v = call(lambda: float(np.ravel(self.wt[t].chi)[0]))
        if out == 'ok':
            self.add(op='Angles', t=t, chi=num(v), chk=['skew'])

    def disk(self, t, n):
        out, v = call(lambda: self.wt[t].rotor_disk_points(n))
        e = dict(op='Disk', t=t, n=n, out=out, chk=['disk'])
        e['o'] = [nums(v[k]) for k in range(3)] if out == 'ok' else []
        if out == 'ok':
            self.held[('q', 'outline')] = self.held.get(('q', 'outline'), ()) + (tuple(v),)
        return self.add(**e)

    def repr(self, t):
        out, v = call(lambda: (repr(self.wt[t]), self.wt[t].tostring()))
        return self.add(op='Repr', t=t, out=out, chk=['ok'])

    # ---------------- farms ----------------
    def farmnew(self, f, ts):
        from wiz.WindFarm import WindFarm
        def mk():
            return WindFarm([self.wt[t] for t in ts]) if len(ts) else WindFarm()
        self.farm[f] = self._do(mk, [], [], op='FarmNew', f=f, ts=list(ts))
        self.members[f] = list(ts)

    def append(self, f, t):
        self._do(lambda: self.farm[f].append(self.wt[t]), [], [], op='Append', f=f, t=t)
        self.members[f].append(t)

    def appendbad(self, f, obj):
        out, v = call(lambda: self.farm[f].append(obj))
        self.add(op='AppendBad', f=f, out=out, chk=['outcome'])

    def setlayout(self, f, rows, as_list=False, arr=None):
        a = np.array(rows, dtype=float) if arr is None else arr
        self.held[(f, 'layout')] = a
        pre = digest([a])
        arg = a.tolist() if as_list else a
        rows = [nums(r) for r in a] if a.ndim == 2 else [nums(a)]
        out, v = call(lambda: setattr(self.farm[f], 'layout', arg))
        self.add(op='SetLayout', f=f, shape=list(a.shape), rows=rows, out=out, pre=pre, post=digest([a]),
                 chk=['outcome', 'pure'])
        if out == 'ok' and a.ndim == 2:
            for t, row in zip(self.members[f], a):
                self.sh[t].hub = row.copy()

    def layout(self, f, keep=False):
        out, v = call(lambda: self.farm[f].layout)
        e = dict(op='LayoutGet', f=f, out=out, chk=['layout'])
        v = np.asarray(v, dtype=float) if out == 'ok' else np.zeros((0, 3))
        e.update(shape=list(v.shape), rows=[nums(r) for r in v])
        if keep:
            self.held[(f, 'got')] = self.held.get((f, 'got'), ()) + (v,)
        i = self.add(**e)
        return v

    def count(self, f):
        out, v = call(lambda: self.farm[f].nWT)
        self.add(op='Count', f=f, out=out, n=int(v) if out == 'ok' else -1, chk=['count'])

    def farmrepr(self, f):
        out, v = call(lambda: repr(self.farm[f]))
        self.add(op='FarmRepr', f=f, out=out, chk=['ok'])

    def farmquery(self, f, P, members, U0=None, chk=('farm',), rel=None, tol=1e-11, sc=10., shape=None, order='C', **opts):
        """members: event numbers of the queries of the members alone"""
        X, Y, Z, sel = self.arrays(P, shape, order)
        opts.setdefault('only_ind', False)
        kw, orec = self._options(opts)
        kw.pop('only_ind', None)
        u0 = None if U0 is None else np.array(U0)      # whole numbers stay whole numbers
        pre = digest([X, Y, Z, u0])
        if u0 is not None:
            kw['U0'] = u0
        out, v = call(lambda: self.farm[f].velocity_field(X, Y, Z, **kw))
        e = dict(op='FarmQuery', f=f, o_=orec, U0='' if U0 is None else nums(U0), X=nums(_at(X, sel)), Y=nums(_at(Y, sel)), Z=nums(_at(Z, sel)), out=out, pre=pre,
                 post=digest([X, Y, Z, u0]), tol=num(tol), sc=num(sc), chk=['pure'] + list(chk),
                 rel=(rel or []) + ([dict(k='farm', a=list(members))] if members is not None else []))
        e.update(self._result(out, v, X.shape, sel))
        return self.add(**e)

    # ---------------- caller-side edits ----------------
    def mutate(self, keys):
        """the caller modifies arrays it passed in or got back: a stutter for the specification"""
        def arrays(x):
            if isinstance(x, np.ndarray):
                return [x] if x.flags.writeable else []
            return [b for y in x for b in arrays(y)] if isinstance(x, (tuple, list)) else []
        for k in keys:
            if k not in self.held:
                continue
            n = k[1] if isinstance(k, tuple) else k
            for b in arrays(self.held[k]):
                if n in ('v', 'r', 'wind', 'law'):
                    b *= 0.8 if n != 'wind' else 1.3     # these may be used again
                elif n in ('shaft', 'vert'):
                    b *= -2.5
                else:
                    b += 3.7
        self.add(op='Mutate', what=[str(k) for k in keys])

    # ---------------- kernels ----------------
    def kernel(self, f, fn, pts, args, inp='cart', form='cart', chk=('kabs',), rel=None, tol=1e-8, sc=1., shape=None, order='C', watch=(), pick=None, extra=None, **a):
        """fn(X,Y,Z) -> results; args: arguments as recorded (strings); a: more fields"""
        X, Y, Z, sel = self.arrays(pts, shape, order)
        pre = digest([X, Y, Z] + list(watch))
        out, v = call(lambda: fn(X, Y, Z))
        post = digest([X, Y, Z] + list(watch))
        if out == 'ok':
            if pick is not None:
                v = pick(v)
            if isinstance(v, np.ndarray) and form == 'uz':
                v = [v]
        e = dict(op='Kernel', f=f, a=args, inp=inp, form=form, X=nums(_at(X, sel)), Y=nums(_at(Y, sel)), Z=nums(_at(Z, sel)), out=out, pre=pre, post=post,
                 tol=num(tol), sc=num(sc), chk=['pure'] + list(chk))
        e.update(self._result(out, v, X.shape, sel))
        if rel:
            e['rel'] = rel
        if extra:
            e.update(extra)
        e.update(a)
        return self.add(**e)

    def func(self, f, fn, X, args, chk, tol=1e-9, sc=1., Y=None, watch=(), results=None, **a):
        """other functions: X (and Y) are the main arrays"""
        X = np.array(X, dtype=float)
        Y = None if Y is None else np.array(Y, dtype=float)
        w = [X] + ([Y] if Y is not None else []) + list(watch)
        pre = digest(w)
        out, v = call(lambda: fn(X) if Y is None else fn(X, Y))
        post = digest(w)
        e = dict(op='Kernel', f=f, a=args, X=nums(X), Y='' if Y is None else nums(Y), Z='', out=out, pre=pre, post=post, tol=num(tol), sc=num(sc),
                 chk=['pure'] + list(chk))
        if out == 'ok':
            v = results(v) if results else v
            if isinstance(v, np.ndarray):
                v = [v]
            vals = ['' if x is None else nums(x) for x in v]
            e.update(o=vals, sho=[list(np.shape(x)) if x is not None else [] for x in v], shi=list(X.shape))
        else:
            e.update(o=[], sho=[], shi=list(X.shape), msg=repr(v)[:200])
        e.update(a)
        return self.add(**e)


class Rec:
    def __init__(self, pid, seed=1, tier='quick'):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.rng = np.random.default_rng([seed, int(pid[1:])])
        self.chunks = []
        self.notes = {}
        self.model = dict(states=0, transitions=0)   # from exhaustive models

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def chunk(self, label=''):
        c = Chunk(self, label)
        self.chunks.append(c)
        return c

    def events(self):
        return sum(len(c.ev) for c in self.chunks)
