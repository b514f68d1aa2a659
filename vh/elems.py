"""element specifications: build the real object / the independent reference.

The reference of an element at frequency f is a pair (A, B) with A V + B I = 0
for the voltages V at and the currents I into its ports (in port order).
A spec is a plain dict, so that equal objects can be built repeatedly.
"""
import numpy as np
from scipy.constants import speed_of_light as C0

INF = float('inf')
W = 2 * np.pi

# ------------------------------------------------------------------ randomness
def logu(rng, lo, hi):
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))

def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]

def cplx(rng, *shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)

def rand_S(rng, n, kind='passive'):
    """random scattering matrix: passive | lossless | recip | losslessrecip | any"""
    M = cplx(rng, n, n)
    if 'recip' in kind:
        M = (M + M.T) / 2
    if kind == 'any':
        return M / np.sqrt(n)
    U, s, Vh = np.linalg.svd(M)
    if kind == 'lossless':
        return U @ Vh
    if kind == 'losslessrecip':
        return U @ U.T
    return M / s[0] * rng.uniform(0.2, 0.95)

def names(rng, n, pool=None):
    """n distinct port names (several styles, incl. prefixes of one another)"""
    st = int(rng.integers(6))
    if st == 0:
        r = [f'{k}' for k in range(1, n + 1)]
    elif st == 1:
        r = list('pqrstuvwxyzabcdefgh'[:n])
    elif st == 2:
        r = [f'P{k}' for k in range(n)]
    elif st == 3:
        r = ['in', 'out', 'in2', 'in_3', 'o', 'ou', 'inn', 'x1', 'x11', 'x111', 'i', 'x12'][:n]
    elif st == 4:
        r = [f'port {k}' if k % 2 else f'{k}a' for k in range(n)]
    else:
        r = [str(n - k) for k in range(n)]
    if rng.random() < .3:
        r = [r[i] for i in rng.permutation(n)]
    return r

# ------------------------------------------------------------------- generation
KINDS = ['arr', 'base', 'obj', 'rlc', 'trl', 'arc', 'cpl']

def gen(rng, freqs, kind=None, cls='passive', nmax=4, Zb=None, xpos=True):
    """a random element spec valid at the frequencies freqs.
    cls: any | passive | lossless | losslessrecip | recip"""
    if kind is None:
        kind = pick(rng, ['arr', 'base', 'obj', 'rlc', 'rlc', 'trl', 'trl', 'trl', 'arc', 'cpl'])
    rp = bool(rng.random() < .5)
    z = Zb if Zb else (50. if rng.random() < .3 else logu(rng, 5, 300))
    lossless, f0 = cls.startswith('lossless'), float(np.mean(freqs)) or 1e6
    sp = dict(kind=kind, kw={})
    kw = sp['kw']
    if kind in ('arr', 'base', 'obj'):
        n = int(rng.integers(1, nmax + 1))
        if nmax == 4 and rng.random() < .04:
            n = int(rng.integers(5, 13))      # two digit port numbers
        sp['n'] = n
        if kind == 'arr':
            sp['S'] = rand_S(rng, n, cls)
            return sp
        sp['fs'] = [float(f) for f in freqs]
        if len(freqs) < 2 and kind == 'obj':
            sp['fs'] = sp['fs'] + [sp['fs'][0] * 2 + 1.]
        sp['Ss'] = np.array([rand_S(rng, n, cls) for _ in sp['fs']])
        kw.update(Zbase=z)
        if rp or kind == 'obj':
            kw['ports'] = names(rng, n)
        if xpos and rng.random() < .5:
            kw['xpos'] = [float(v) for v in np.round(rng.uniform(-3, 3, n), 3)]
        return sp
    if kind == 'rlc':
        sp['n'] = 2
        zs = logu(rng, 2, 200)
        w = W * f0
        opts = dict(Ls=zs / w, Cs=1 / (zs * w), Cp=1 / (logu(rng, 2, 200) * w),
                    Lp=logu(rng, 2, 200) / w)
        if not lossless:
            opts.update(Rs=logu(rng, 1, 200), Rp=logu(rng, 2, 500))
        keys = [k for k in opts if rng.random() < .5]
        if not keys:
            keys = [pick(rng, list(opts))]
        kw.update({k: opts[k] for k in keys})
        kw['Zbase'] = z
    elif kind == 'trl':
        sp['n'] = 2
        vr = float(rng.uniform(.3, 1.))
        lam = vr * C0 / f0
        L = 0. if rng.random() < .05 else float(rng.uniform(.02, 1.3) * lam)
        if rng.random() < .1:
            L = float(pick(rng, [.25, .5]) * lam)
        Z0 = logu(rng, 5, 200)
        form = int(rng.integers(4))
        if form == 0:
            kw.update(L=L, Z0TL=Z0)
        else:
            kw.update(L=L, LTL=Z0 / (vr * C0), CTL=1 / (Z0 * vr * C0))
            if not lossless and form >= 2:
                kw['rTL'] = logu(rng, .001, 1) * Z0 / max(L, lam)
                if form == 3:
                    kw['gTL'] = logu(rng, .001, 1) / Z0 / max(L, lam)
        kw['Zbase'] = z
        if xpos and rng.random() < .3:
            kw['xpos'] = float(np.round(rng.uniform(-3, 3), 3))
    elif kind == 'arc':
        sp['n'] = 1
        if rng.random() < .8:
            kw['Larc'] = logu(rng, 2, 300) / (W * f0)
        elif rng.random() < .5:
            kw['Larc'] = INF
        kw['Zbase'] = z
    elif kind == 'cpl':
        sp['n'] = 4
        if rng.random() < .5:
            kw['kc'] = float(rng.uniform(.05, .98))
        elif rng.random() < .7:
            kw['kcdB'] = float(rng.uniform(.3, 30))
        u = rng.random()
        if u < .5:
            kw['f0Hz'] = float(f0 * rng.uniform(.4, 1.6))
        elif u < .8:
            kw['Lc'] = float(C0 / 4 / f0 * rng.uniform(.4, 1.6))
        kw['Zbase'] = z
    if rp:
        kw['ports'] = names(rng, sp['n'])
    if xpos and kind in ('rlc', 'cpl', 'arc') and rng.random() < .4:
        kw['xpos'] = [float(v) for v in np.round(rng.uniform(-3, 3, sp['n']), 3)]
    return sp

# ------------------------------------------------------------------ real objects
def cpkw(kw):
    return {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}

def negate(rng, sp, p=.25):
    """a section of negative length (removes the one of positive length)"""
    if sp['kind'] == 'trl' and rng.random() < p:
        sp['kw']['L'] = -sp['kw']['L']
    return sp

def make(rf, sp):
    k, kw = sp['kind'], cpkw(sp['kw'])
    if k == 'arr':
        return sp['S'].copy()
    if k == 'base':
        return rf.rfBase(Ss=sp['Ss'].copy(), fs=list(sp['fs']), **kw)
    if k == 'obj':
        o = rf.rfObject(**kw)
        order = sp.get('order', range(len(sp['fs'])))
        for i in order:
            o.setS(sp['fs'][i], sp['Ss'][i].copy())
        return o
    if k == 'rlc':
        return rf.rfRLC(**kw)
    if k == 'trl':
        return rf.rfTRL(**kw)
    if k == 'line':            # a section with varying parameters, sp['line']: line.Line
        return rf.rfTRL(**sp['line'].args(), **kw)
    if k == 'arc':
        return rf.rfArcObj(**kw)
    if k == 'cpl':
        return rf.rfCoupler(**kw)
    raise KeyError(k)

def port_names(sp):
    """the port names the object has to announce (None: it has none)"""
    k = sp['kind']
    if k == 'arr':
        return None
    if 'ports' in sp['kw']:
        return list(sp['kw']['ports'])
    return {'rlc': ['s', 'p'], 'trl': ['1', '2'], 'line': ['1', '2'], 'arc': ['1'],
            'cpl': ['A1', 'A2', 'B1', 'B2']}.get(k) or [str(i + 1) for i in range(sp['n'])]

def port_xpos(sp):
    kw, n = sp['kw'], sp['n']
    x = kw.get('xpos')
    if sp['kind'] == 'trl':
        x = 0. if x is None else x
        return list(x) if isinstance(x, list) else [x, x + kw['L']]
    if sp['kind'] == 'line':
        x = 0. if x is None else x
        return [x, x + sp['line'].L]
    return [0.] * n if x is None else list(x)

# --------------------------------------------------------------------- reference
def from_S(S, Z):
    """A V + B I = 0 of a scattering matrix at the reference impedance Z"""
    S = np.asarray(S, dtype=complex)
    E = np.eye(len(S))
    return E - S, -Z * (E + S)

def two_port_abcd(a, b, c, d):
    """V1 = a V2 - b I2 ; I1 = c V2 - d I2 with both currents into the ports"""
    return (np.array([[1, -a], [0, -c]], dtype=complex),
            np.array([[0, b], [1, d]], dtype=complex))

def line_zy(kw, f):
    """(series impedance, shunt admittance) per metre of a uniform line spec"""
    w = W * f
    if 'LTL' in kw:
        zs = kw.get('rTL', 0.) + 1j * w * kw['LTL']
        yp = kw.get('gTL', 0.) + 1j * w * kw['CTL']
    else:
        zs, yp = 1j * w * kw['Z0TL'] / C0, 1j * w / (kw['Z0TL'] * C0)
    return zs, yp

def line_gz(kw, f):
    """(propagation constant, characteristic impedance) of a uniform line spec"""
    zs, yp = line_zy(kw, f)
    return np.sqrt(zs) * np.sqrt(yp), np.sqrt(zs) / np.sqrt(yp)

def coupling(kw):
    if 'kc' in kw:
        return kw['kc']
    if 'kcdB' in kw:
        return 10 ** (-abs(kw['kcdB']) / 20)
    return np.sqrt(.5)

def coupler_S(kw, f):
    """coupled line coupler from its even and odd mode half circuits
    (matched when Ze*Zo = Z^2, k = (Ze-Zo)/(Ze+Zo))"""
    k = coupling(kw)
    if 'f0Hz' in kw:
        th = np.pi / 2 * f / kw['f0Hz']
    elif 'Lc' in kw:
        th = W * f / C0 * kw['Lc']
    else:
        th = np.pi / 2
    ze = np.sqrt((1 + k) / (1 - k))
    def half(z):
        c, s = np.cos(th), np.sin(th)
        den = 2 * c + 1j * s * (z + 1 / z)
        return 1j * s * (z - 1 / z) / den, 2 / den
    ge, te = half(ze)
    go, to = half(1 / ze)
    r, c_, t, x = (ge + go) / 2, (ge - go) / 2, (te + to) / 2, (te - to) / 2
    return np.array([[r, t, c_, x], [t, r, x, c_], [c_, x, r, t], [x, c_, t, r]])

def ref(sp, f, Zcirc):
    k, kw = sp['kind'], sp['kw']
    if k == 'arr':
        return from_S(sp['S'], Zcirc)
    if k in ('base', 'obj'):
        i = sp['fs'].index(f)
        return from_S(sp['Ss'][i], kw['Zbase'])
    if k == 'rlc':
        return rlc_ref(kw, f)
    if k == 'trl':
        L = kw['L']
        zs, yp = line_zy(kw, f)
        if not zs or not yp:       # zero frequency
            return two_port_abcd(1, zs * L, yp * L, 1)
        g, zc = line_gz(kw, f)
        return two_port_abcd(np.cosh(g * L), zc * np.sinh(g * L), np.sinh(g * L) / zc, np.cosh(g * L))
    if k == 'line':
        return sp['line'].AB(f)
    if k == 'arc':
        Larc = kw.get('Larc', INF)
        if np.isinf(Larc):
            return np.zeros((1, 1), complex), np.ones((1, 1), complex)
        return np.ones((1, 1), complex), np.array([[-1j * W * f * Larc]])
    if k == 'cpl':
        return from_S(coupler_S(kw, f), kw.get('Zbase', 50.))
    raise KeyError(k)

def rlc_ref(kw, f):
    """series branch Rs,Ls,Cs from s to p, shunt Rp||Lp||Cp from p to ground"""
    w = W * f
    Cs, Lp = kw.get('Cs', INF), kw.get('Lp', INF)
    A, B = np.zeros((2, 2), complex), np.zeros((2, 2), complex)
    # series branch: V1 - V2 = zs I1 ; (open at zero frequency with a capacitor)
    if f == 0 and not np.isinf(Cs):
        B[0] = [1, 0]
    else:
        zs = kw.get('Rs', 0.) + 1j * w * kw.get('Ls', 0.) + (0 if np.isinf(Cs) else 1 / (1j * w * Cs))
        A[0], B[0] = [1, -1], [-zs, 0]
    # shunt: I1 + I2 = yp V2 ; (V2 = 0 at zero frequency with an inductance)
    if f == 0 and not np.isinf(Lp):
        A[1] = [0, 1]
    else:
        Rp = kw.get('Rp', INF)
        yp = (0 if np.isinf(Rp) else 1 / Rp) + 1j * w * kw.get('Cp', 0.) \
             + (0 if np.isinf(Lp) else 1 / (1j * w * Lp))
        A[1], B[1] = [0, -yp], [1, 1]
    # scale rows
    s = np.array([max(np.abs(A[i]).max(), np.abs(B[i]).max() / 50) for i in range(2)])
    return A / s[:, None], B / s[:, None]

def AB_to_S(A, B, Z):
    """S at Z of A V + B I = 0  (V = a+b, I = (a-b)/Z)"""
    return np.linalg.solve(B / Z - A, A + B / Z)

def describe(sp):
    if sp['kind'] == 'line':
        return dict(sp['line'].text(), kind='line', options=sp['kw'])
    d = dict(kind=sp['kind'], **{k: v for k, v in sp['kw'].items()})
    if sp['kind'] in ('arr', 'base', 'obj'):
        d['n'] = sp['n']
    return d
