"""transmission line sections: random descriptions, their own physics, integration of the telegrapher's equations"""
import numpy as np
from scipy.constants import speed_of_light as C0, mu_0 as MU0, epsilon_0 as E0
from .elems import logu, pick

W = 2 * np.pi
ETA = np.sqrt(MU0 / E0)


class Prof:
    """a parameter along the line: arg as handed to the library, fun(w, x), break points"""
    def __init__(self, arg, fun, bps=(), x=False, text=None):
        self.arg, self.fun, self.bps, self.x, self.text = arg, fun, tuple(bps), x, text or repr(arg)


def const(v):
    return Prof(v, lambda w, x: v)


def pl(L, vals, form='1d', nodes=None):
    """piecewise linear profile (constant beyond the given nodes)"""
    vals = [float(v) for v in vals]
    nodes = np.linspace(0, L, len(vals)) if nodes is None else np.asarray(nodes, float)
    arg = vals if form == '1d' else np.array(vals) if form == '1da' else \
        [nodes.tolist(), vals] if form == '2d' else np.array([nodes, vals])
    return Prof(arg, lambda w, x: float(np.interp(x, nodes, vals)), nodes, True)


def prof(rng, lo, hi, L, w0, vary=True, tight=3.):
    """a random profile with values in [lo, hi]"""
    v = logu(rng, lo, hi)
    u = int(rng.integers(9)) if vary else int(rng.integers(3))
    if not vary:
        if u == 0:
            return const(v)
        if u == 1:
            return Prof(pick(rng, [[v], np.array([v]), np.array(v), np.float64(v)]), lambda w, x: v)
        if rng.random() < .5:
            return Prof(lambda: v, lambda w, x: v, text=f'lambda: {v}')
        g = lambda w: v * (1 + .1 * np.log(w / w0))
        return Prof(g, lambda w, x: g(w), text=f'lambda w: {v}*(1+.1*log(w/{w0}))')
    r = lambda n: [logu(rng, v / tight ** .5, v * tight ** .5) for _ in range(n)]
    if u in (0, 1, 2):
        return pl(L, r(int(rng.integers(2, 6))), pick(rng, ['1d', '1da']))
    if u in (3, 4, 5):
        n = int(rng.integers(2, 6))
        nodes = np.sort(rng.uniform(-.2, 1.2, n)) * L
        if rng.random() < .5:
            nodes = nodes - nodes[0]
            nodes = nodes * L / nodes[-1]
        if np.min(np.diff(nodes)) < 1e-3 * L:
            nodes = np.linspace(0, L, n)
        return pl(L, r(n), pick(rng, ['2d', '2da']), nodes)
    a, b, c = rng.uniform(-.4, .4), rng.uniform(.3, 4) / max(L, 1e-9), rng.uniform(0, 6)
    g = lambda x: v * (1 + a * np.sin(b * x + c))
    txt = f'{v}*(1+{a}*sin({b}*x+{c}))'
    if u == 6:
        return Prof(g, lambda w, x: g(x), x=True, text='lambda x: ' + txt)
    h = lambda w, x: g(x) * (1 + .1 * np.log(w / w0))
    if u == 7:
        return Prof(h, h, x=True, text=f'lambda w,x: {txt}*(1+.1*log(w/{w0}))')
    def k(x, w):
        return h(w, x)
    return Prof(k, h, x=True, text=f'lambda x,w: {txt}*(1+.1*log(w/{w0}))')


def moved(p, a, s):
    def g(w, x):
        return p.fun(w, a + s * x)
    return Prof(g, g, x=True, text=f'{p.text} at {a} + {s} x')


class Line:
    """spec of a line section; .P parameter profiles, .zy(w, x) series impedance, shunt admittance"""
    def __init__(self, L, P, **kw):
        self.L, self.P, self.kw = L, P, kw
        self.bps = sorted({float(b) for p in P.values() for b in p.bps if 0 < b < L})
        self.varies = any(p.x for p in P.values())

    def args(self):
        cp = lambda a: a.copy() if isinstance(a, np.ndarray) else \
            [list(b) if isinstance(b, list) else b for b in a] if isinstance(a, list) else a
        return dict({k: cp(p.arg) for k, p in self.P.items()}, L=self.L, **self.kw)

    def text(self):
        return dict({k: p.text for k, p in self.P.items()}, L=self.L, **self.kw)

    def v(self, k, w, x, d=None):
        return self.P[k].fun(w, x) if k in self.P else d

    def lcrg(self, w, x):
        v = lambda k, d=None: self.v(k, w, x, d)
        mur, epsr = v('mur', 1.), v('epsr', 1.)
        R, G = v('rTL', 0.), v('gTL', 0.)
        if 'LTL' in self.P:
            Lp, Cp = v('LTL'), v('CTL')
        else:
            vr = v('vr') if 'vr' in self.P else 1 / np.sqrt(mur * epsr)
            if 'OD' in self.P:
                lg = np.log(v('OD') / v('ID'))
                Z0 = ETA / W * np.sqrt(mur / epsr) * lg
                if 'rho' in self.P:
                    R = np.sqrt(w * MU0 * v('rho') / 2) / np.pi * (1 / v('ID') + 1 / v('OD'))
                if 'tand' in self.P:
                    G = w * epsr * E0 * v('tand') * W / lg
                if 'sigma' in self.P:
                    G = v('sigma') * W / lg
            else:
                Z0 = v('Z0TL')
            Lp, Cp = Z0 / (C0 * vr), 1 / (Z0 * C0 * vr)
        A = v('A') if 'A' in self.P else v('AdB') * np.log(10) / 20 if 'AdB' in self.P else None
        if A is not None:
            R = 2 * A * np.sqrt(A ** 2 + w ** 2 * Lp * Cp) / (w * Cp)
        return Lp, Cp, R, G

    def zy(self, w, x):
        Lp, Cp, R, G = self.lcrg(w, x)
        return R + 1j * w * Lp, G + 1j * w * Cp

    # ------------------------------------------------------------------------
    def transfer(self, f, xs):
        """2x2 matrices [V, I](x) = M(x) [V, I](0) with V' = -z I, I' = -y V (I along +x)"""
        w = W * f
        xs = np.asarray(xs, float)
        if not self.varies:
            z, y = self.zy(w, 0.)
            g, zc = np.sqrt(z) * np.sqrt(y), np.sqrt(z) / np.sqrt(y)
            c, s = np.cosh(g * xs), np.sinh(g * xs)
            return np.array([[c, -zc * s], [-s / zc, c]]).transpose(2, 0, 1)
        grid = np.unique(np.concatenate([[0.], xs, self.bps]))
        lam = W / max(abs(np.imag(np.sqrt(np.prod(self.zy(w, x))))) for x in
                      np.concatenate([np.linspace(0, self.L, 30), self.bps]))
        h0 = min(lam / 250, self.L / 150) if self.L else 1.
        M = np.eye(2, dtype=complex)
        res = {0.: M}
        for a, b in zip(grid[:-1], grid[1:]):
            n = max(1, int(np.ceil((b - a) / h0)))
            h = (b - a) / n
            for k in range(n):
                x = a + k * h
                z1, y1 = self.zy(w, x + h * (.5 - np.sqrt(3) / 6))
                z2, y2 = self.zy(w, x + h * (.5 + np.sqrt(3) / 6))
                # Magnus, 4th order:  A = -[[0, z], [y, 0]]
                q, r = -h / 2 * (z1 + z2), -h / 2 * (y1 + y2)
                d = np.sqrt(3) / 12 * h * h * (z2 * y1 - z1 * y2)
                D = np.sqrt(d * d + q * r)
                ch, sh = np.cosh(D), np.sinh(D) / D if D != 0 else 1.
                M = np.array([[ch + sh * d, sh * q], [sh * r, ch - sh * d]]) @ M
            res[b] = M
        return np.array([res[x] for x in xs])

    def AB(self, f):
        """A V + B I = 0 for the currents into the two ports"""
        M = self.transfer(f, [0., self.L])[1]
        # V2 = M00 V1 + M01 I1 ; -I2 = M10 V1 + M11 I1
        return (np.array([[M[0, 0], -1], [M[1, 0], 0]]), np.array([[M[0, 1], 0], [M[1, 1], 1]]))

    def S(self, f, Z):
        A, B = self.AB(f)
        A, B = A * np.array([[1], [Z]]), B * np.array([[1], [Z]])
        return np.linalg.solve(B / Z - A, A + B / Z)

    def mirrored(self):
        P = {}
        for k, p in self.P.items():
            if not p.x:
                P[k] = p
            elif p.bps:
                nodes = np.array(p.bps)
                vals = [p.fun(0, x) for x in nodes]
                P[k] = pl(self.L, vals[::-1], '2d', (self.L - nodes)[::-1])
            else:
                P[k] = moved(p, self.L, -1)
        return Line(self.L, P, **self.kw)

    def piece(self, a, b):
        P = {}
        for k, p in self.P.items():
            if not p.x:
                P[k] = p
            elif p.bps:
                nodes = np.array([a] + [n for n in p.bps if a < n < b] + [b])
                P[k] = pl(b - a, [p.fun(0, x) for x in nodes], '2d', nodes - a)
            else:
                P[k] = moved(p, a, 1)
        return Line(b - a, P, **self.kw)


def gen(rng, f, vary=None, maxlam=1.5, losses=True, L=None):
    """a random section at about the frequency f"""
    vary = bool(rng.random() < .6) if vary is None else vary
    w = W * f
    form = int(rng.integers(4))
    P = {}
    vr0 = float(rng.uniform(.4, 1.))
    if L is None:
        L = float(rng.uniform(.02, maxlam) * vr0 * C0 / f)
    z0 = logu(rng, 10, 200)
    lossy = losses and rng.random() < .6
    v = lambda: vary and rng.random() < .7
    def small(k, s):
        P[k] = prof(rng, s / 30, s, L, w, v() and rng.random() < .4)
    if form == 0:
        P['LTL'] = prof(rng, z0 / (C0 * vr0) / 1.2, z0 / (C0 * vr0) * 1.2, L, w, v())
        P['CTL'] = prof(rng, 1 / (z0 * C0 * vr0) / 1.2, 1 / (z0 * C0 * vr0) * 1.2, L, w, v())
        if lossy:
            if rng.random() < .7:
                small('rTL', z0 / L)
            if rng.random() < .7 or 'rTL' not in P:
                small('gTL', 1 / z0 / L)
    elif form in (1, 2):
        P['Z0TL'] = prof(rng, z0 / 1.2, z0 * 1.2, L, w, v())
        u = int(rng.integers(5))
        if u == 1:
            P['vr'] = prof(rng, vr0, vr0 * 1.01, L, w, v(), 1.5)
        elif u == 2:
            P['epsr'] = prof(rng, 1, 4, L, w, v(), 1.5)
        elif u == 3:
            P['epsr'] = prof(rng, 1, 4, L, w, v(), 1.5)
            P['mur'] = prof(rng, 1, 3, L, w, v(), 1.5)
        elif u == 4:
            P['mur'] = prof(rng, 1, 4, L, w, False)
        if lossy:
            if form == 1:
                if rng.random() < .5:
                    small('A', 1 / L)
                else:
                    small('AdB', 8 / L)
            else:
                small('rTL', z0 / L)
    else:
        od = logu(rng, .02, .5)
        P['OD'] = prof(rng, od, od * 1.05, L, w, v() and rng.random() < .5, 1.5)
        P['ID'] = prof(rng, od / 10, od / 3, L, w, v(), 1.8)
        if rng.random() < .5:
            P['epsr'] = prof(rng, 1, 4, L, w, v() and rng.random() < .5, 1.5)
        if rng.random() < .3:
            P['mur'] = prof(rng, 1, 3, L, w, False)
        if lossy:
            if rng.random() < .7:
                small('rho', 1e-4)
            u = rng.random()
            if u < .4:
                small('tand', .3)
            elif u < .6:
                small('sigma', E0 * w * .3)
    return Line(L, P)
