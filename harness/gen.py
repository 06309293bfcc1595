"""Generators of settings, points and option sets. They place inputs; verdicts are in the specification."""
import numpy as np

AXFRAMES = [((0, 0, 1), (0, 1, 0)), ((1, 0, 0), (0, 0, 1)), ((0, 1, 0), (0, 0, 1)), ((0, 0, -1), (0, 1, 0)), ((1, 0, 0), (0, 1, 0)),
            ((-1, 0, 0), (0, 0, 1)), ((0, 1, 0), (1, 0, 0)), ((0, -1, 0), (0, 0, 1)), ((0, 0, 1), (0, -1, 0)), ((1, 0, 0), (0, 0, -1)),
            ((0, 0, 1), (1, 0, 0)), ((0, -1, 0), (-1, 0, 0))]


def rotm(axis, t):
    u = np.asarray(axis, float)
    u = u / np.linalg.norm(u)
    K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K.dot(K)


def unit(rng):
    v = rng.normal(size=3)
    return v / np.linalg.norm(v)


def rand_frame(rng, p_axis=0.4):
    if rng.random() < p_axis:
        s, v = AXFRAMES[rng.integers(len(AXFRAMES)) if rng.random() < .6 else 0]
        return np.array(s, float), np.array(v, float)
    v = unit(rng)
    a = unit(rng)
    s = np.cross(v, a)
    s = s / np.linalg.norm(s)
    return s, v


def horiz_wind(rng, shaft, vert, ang=None, speed=None, vertical=0.):
    """horizontal wind at the signed angle ang (about vert) from the shaft"""
    ang = rng.uniform(-np.pi, np.pi) if ang is None else ang
    if speed is None:
        speed = rng.uniform(3, 15) if rng.random() < .85 else 10 ** rng.uniform(-3, 3)
        if speed > 1 and rng.random() < .25:
            speed = round(speed)        # winds along an axis are often whole numbers
    w = rotm(vert, ang).dot(np.asarray(shaft, float)) * speed
    return w + vertical * np.asarray(vert, float)


def small(rng, lo=-9, hi=-2):
    """a small angle"""
    return float(10 ** rng.uniform(lo, hi) * rng.choice([-1, 1]))


def wrap(x):
    return (x + np.pi) % (2 * np.pi) - np.pi


class Shadow:
    """the caller's own book-keeping of a turbine's settings, to know where to put points"""
    def __init__(self, R, shaft, vert, hub, wind, ground, model):
        self.R, self.ground, self.model = R, ground, model
        self.shaft0, self.vert = np.array(shaft, float), np.array(vert, float)
        self.hub, self.wind = np.array(hub, float), np.array(wind, float)
        self.yaw, self.chi = 0., None
        self.radii = [R]
        self.lam = np.inf
        self.loaded = False

    def shaft(self):
        return rotm(self.vert, self.yaw).dot(self.shaft0)

    def axes(self):
        z = self.shaft()
        return np.array([np.cross(self.vert, z), self.vert, z])

    def wind_angle(self):
        h = self.wind - self.vert.dot(self.wind) * self.vert
        return np.arctan2(np.cross(self.shaft0, h).dot(self.vert), self.shaft0.dot(h))

    def skew(self):
        return self.chi if self.chi is not None else wrap(self.wind_angle() - self.yaw)

    def m(self):
        c = self.skew()
        return np.tan(c) if abs(c) > 1e-7 else 0.

    def to_global(self, P):
        return self.hub + np.asarray(P, float).dot(self.axes())

    def to_local(self, P):
        return (np.asarray(P, float) - self.hub).dot(self.axes().T)

    def mirror(self, P):
        P = np.asarray(P, float)
        return P - 2 * np.outer(P.dot(self.vert), self.vert)


def tube_dist(P, R, m):
    """lower bound of the distance to a semi-infinite (skewed) tube"""
    x, y, z = P
    zz = max(z, 0.)
    d = abs(np.hypot(x - m * zz, y) - R) / np.sqrt(1 + m * m)
    if z < 0:
        d = np.hypot(d, z / np.sqrt(1 + m * m))
    return d


def line_dist(P, m):
    e = np.array([m, 0, 1.])
    s = max(0., np.dot(P, e) / e.dot(e))
    return np.linalg.norm(np.asarray(P) - s * e)


def clear(P, R, m, radii, dmin, root):
    """dmin relative to the radius of each cylinder"""
    for r in radii:
        if tube_dist(P, r, m) < dmin * r:
            return False
    if root and line_dist(P, m) < dmin * R:
        return False
    return True


def raw_points(rng, n, R, m):
    """cloud around a rotor of radius R: disc, wake, upstream, sides, far field"""
    out = []
    for _ in range(n):
        k = rng.integers(8) if rng.random() < .93 else 8
        th = rng.uniform(0, 2 * np.pi)
        if k == 0:
            r, z = R * rng.uniform(0, 0.95), 0.
        elif k == 1:
            r, z = R * rng.uniform(0, 3), R * rng.uniform(-3, 3)
        elif k == 2:
            r, z = R * rng.uniform(0, 0.9), R * rng.uniform(0, 6)
        elif k == 3:
            r, z = R * rng.uniform(1.1, 4), R * rng.uniform(-1, 8)
        elif k == 4:
            r, z = R * rng.uniform(0, 2), -R * rng.uniform(0.1, 5)
        elif k == 5:
            r, z = R * rng.uniform(3, 12), R * rng.uniform(-10, 10)
        elif k == 6:
            r, z = R * rng.uniform(1.1, 3), 0.
        elif k == 8:
            d, a = R * 10 ** rng.uniform(1, 3), rng.uniform(.3, np.pi)
            r, z = d * np.sin(a), d * np.cos(a)
        else:
            r, z = R * rng.uniform(0, 1.6), R * rng.uniform(-0.8, 0.8)
        x = r * np.cos(th) + m * max(z, 0)
        out.append([x, r * np.sin(th), z])
    return out


def local_points(rng, n, R=1., m=0., radii=None, dmin=0.2, root=False):
    radii = [R] if radii is None else radii
    out = []
    while len(out) < n:
        for P in raw_points(rng, n, R, m):
            if clear(P, R, m, radii, dmin, root) and len(out) < n:
                out.append(P)
    return np.array(out)


def points(rng, sh, n, dmin=0.2, root=False, ground=None, above=False):
    """global points clear of the sheets of the turbine (and of its mirror image)"""
    ground = sh.ground if ground is None else ground
    m = sh.m()
    out = []
    tries = 0
    while len(out) < n:
        tries += 1
        if tries > 2000:
            raise RuntimeError('cannot place points')
        for P in raw_points(rng, n, sh.R, m):
            G = sh.to_global(P)
            if above and G.dot(sh.vert) < 0:
                continue
            if not clear(P, sh.R, m, sh.radii, dmin, root):
                continue
            if ground:
                Q = sh.to_local(sh.mirror([G]))[0]
                if not clear(Q, sh.R, m, sh.radii, dmin, root):
                    continue
            if len(out) < n:
                out.append(G)
    return np.array(out)


def stations(R, n):
    return np.array([0.995 * R]) if n == 1 else np.linspace(0.005, 0.995, n) * R


def rand_load(rng, sh, ncyl=None, kinds=('Ct', 'Gamma', 'fun'), lam='any'):
    """a loading: keyword arguments of Chunk.load"""
    R = sh.R
    kind = kinds[rng.integers(len(kinds))]
    n = int(rng.choice([1, 1, 2, 3, 5])) if ncyl is None else ncyl
    if lam == 'any':
        lam = None if rng.random() < 0.3 else float(rng.choice([3., 6., 9.5, 15., 25., np.inf]))
    nr = int(rng.integers(4, 12))
    r = np.sort(rng.uniform(0, 1, nr)) * R
    if n == 0:
        r = np.linspace(rng.uniform(0.1, 0.3), rng.uniform(0.8, 0.95), nr) * R
    c0 = rng.uniform(0.2, 0.8)
    if kind == 'Gamma':
        # circulation coefficient k = Gamma Omega/(pi U0^2) kept moderate
        L = sh.lam if lam is None else lam
        L = 1e4 if L == np.inf else L
        v = np.pi * np.linalg.norm(sh.wind) * R / L * c0 * (1 - 0.4 * (r / R) ** 2)
    else:
        v = c0 * (1 - 0.3 * np.sin(3 * r / R))
    if kind == 'Gamma' and rng.random() < 0.35:
        v = -v          # rotor turning the other way
    if n == 1 and kind != 'Gamma' and rng.random() < 0.4:
        v, r = np.array(c0), None
    d = dict(kind=kind, v=v, r=r, lam=lam, ncyl=n)
    if kind == 'fun':
        d['law'] = (float(rng.uniform(-1, 0)), float(rng.uniform(-6, -1)))
    return d


def exact_load(rng, sh, ncyl=None, kinds=('Ct', 'Gamma', 'fun')):
    """a loading the code resolves to rounding (no scalar minimisation with swirl)"""
    while True:
        d = rand_load(rng, sh, ncyl, kinds)
        L = sh.lam if d['lam'] is None else d['lam']
        if d['kind'] == 'Ct' and L < 20:
            d['lam'] = float(rng.choice([25., np.inf]))
        return d
