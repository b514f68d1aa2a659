"""C07: derived line parameters satisfy the physical relations"""
import numpy as np
from ..core import Skip
from ..elems import logu, pick, cplx
from .. import line, prog
from ..line import C0, MU0, E0, ETA, W, prof, const, Prof

RULE = ('a physical coaxial line (diameters, materials, conductors, medium losses, constant or varying along the '
        'line) is drawn first; a random sufficient set of the parameters it implies is handed to the resolver; '
        'every parameter the resolver knows is monitored against the drawn line, the given ones for keeping '
        'their values, all for satisfying the defining relations, at random positions and frequencies; two sets of the '
        'same line have to give the same S; non-trivial: always; distinct by the set of given parameters')
ASSUMPTIONS = ['sufficient, non-contradictory sets: the line constants resolvable from the given parameters and '
               'the documented assumptions (vacuum, non-magnetic conductors, no losses unless given)',
               'frequency > 0']
QUICK, THOROUGH = 2000, 14000

FUND = ('OD', 'ID', 'epsr', 'mur', 'rhoI', 'rhoO', 'murI', 'murO', 'tand')


class Truth:
    """everything a coaxial line implies"""
    def __init__(self, rng, w0, L, vary, mur1=False, vac=False, cond=True, med=True, magn=True, Z0=None):
        od = logu(rng, .02, .5)
        v = lambda: vary and rng.random() < .5
        self.P = P = dict(OD=prof(rng, od, od * 1.1, L, w0, v(), 1.3), ID=prof(rng, od / 8, od / 3, L, w0, v(), 1.6))
        P['epsr'] = const(1.) if vac else prof(rng, 1.2, 5, L, w0, v() and rng.random() < .5, 1.5)
        P['mur'] = const(1.) if vac or mur1 else prof(rng, 1.2, 5, L, w0, v() and rng.random() < .5, 1.5)
        if Z0 is not None:
            P['epsr'], P['mur'] = [const(P[k].fun(w0, 0.)) for k in ('epsr', 'mur')]
            P['OD'], P['ID'] = const(od), const(od / np.exp(Z0 * W / ETA / np.sqrt(P['mur'].arg / P['epsr'].arg)))
        for k in ('rhoI', 'rhoO'):
            P[k] = prof(rng, 1e-8, 1e-3, L, w0, v() and rng.random() < .4) if cond else const(0.)
        for k in ('murI', 'murO'):
            P[k] = const(1.) if not magn or rng.random() < .6 else prof(rng, 1, 50, L, w0, False)
        P['tand'] = prof(rng, 1e-5, .2, L, w0, v() and rng.random() < .4) if med else const(0.)

    def get(self, k, w, x):
        g = lambda n: self.get(n, w, x)
        if k in self.P:
            return self.P[k].fun(w, x)
        if k == 'rho':
            return g('rhoI')
        lg = np.log(g('OD') / g('ID'))
        f = dict(
            etar=lambda: np.sqrt(g('mur') / g('epsr')), vr=lambda: 1 / np.sqrt(g('mur') * g('epsr')),
            Z0TL=lambda: ETA / W * g('etar') * lg, LTL=lambda: MU0 * g('mur') * lg / W,
            CTL=lambda: W * E0 * g('epsr') / lg, qTLI=lambda: 1 / np.pi / g('ID'), qTLO=lambda: 1 / np.pi / g('OD'),
            RsI=lambda: np.sqrt(w * MU0 * g('murI') * g('rhoI') / 2),
            RsO=lambda: np.sqrt(w * MU0 * g('murO') * g('rhoO') / 2),
            rTLI=lambda: g('RsI') * g('qTLI'), rTLO=lambda: g('RsO') * g('qTLO'), rTL=lambda: g('rTLI') + g('rTLO'),
            sigma=lambda: w * g('epsr') * E0 * g('tand'), gTL=lambda: W * g('sigma') / lg,
            rjwL=lambda: g('rTL') + 1j * w * g('LTL'), gjwC=lambda: g('gTL') + 1j * w * g('CTL'),
            gamma=lambda: np.sqrt(g('rjwL')) * np.sqrt(g('gjwC')), Zc=lambda: np.sqrt(g('rjwL')) / np.sqrt(g('gjwC')),
            beta=lambda: w * np.sqrt(g('LTL') * g('CTL')), A=lambda: np.real(g('gamma')),
            AdB=lambda: g('A') * 20 / np.log(10))
        return f[k]()

    def varies(self, k):
        """depends on (x, w)"""
        xs = [self.get(k, 1e8, x) for x in np.linspace(0, self.L, 7)]
        ws = [self.get(k, w, .3 * self.L) for w in (1e7, 2.3e7, 1e9)]
        c = lambda l: max(l) - min(l) > 1e-12 * max(abs(v) for v in l)
        return c(xs), c(ws)

    def arg(self, rng, k):
        if k in self.P:
            a = self.P[k].arg
            return (a.copy() if hasattr(a, 'copy') else a), self.P[k].text
        x, w = self.varies(k)
        t = f'<{k} of (w,x)>'
        if not x and not w:
            v = float(self.get(k, 1e8, 0.))
            return pick(rng, [(v, repr(v)), ([v], repr([v])), ((lambda: v), f'lambda: {v}'), (np.float64(v), repr(v))])
        if not x and rng.random() < .5:
            return (lambda w: self.get(k, w, 0.)), t
        if not w and rng.random() < .5:
            return (lambda x: self.get(k, 1e8, x)), t
        if rng.random() < .5:
            return (lambda w, x: self.get(k, w, x)), t
        return (lambda x, w: self.get(k, w, x)), t


def two(rng, s):
    return [s[i] for i in rng.permutation(len(s))[:2]]


def draw(rng, w0, L, vary=None):
    """(truth, given parameters)"""
    vary = bool(rng.random() < .5) if vary is None else vary
    u = int(rng.integers(10))
    kw = {}
    LC, MAT = ['LTL', 'CTL', 'Z0TL', 'vr'], ['epsr', 'mur', 'etar', 'vr']
    geo = False             # OD and ID resolvable
    mat = True              # materials resolvable
    zb = None
    if u == 0:
        given = two(rng, LC)
        kw['mur1'] = True
    elif u == 1:
        given = ['Z0TL'] + two(rng, MAT)
    elif u in (2, 3, 4):
        given = ['OD', 'ID'] + two(rng, MAT)
        geo = True
    elif u == 5:
        given = [pick(rng, ['OD', 'ID']), 'Z0TL'] + two(rng, MAT)
        geo = True
    elif u == 6:
        given = [pick(rng, MAT)] + (['OD', 'ID'] if rng.random() < .6 else ['Z0TL'])
        geo = 'OD' in given
        kw['mur1'] = True
        if given[0] == 'mur':
            kw['vac'] = True
    elif u == 7:
        given = ['OD', 'ID'] if rng.random() < .5 else ['Z0TL']
        geo = 'OD' in given
        kw['vac'] = True
    elif u == 8:
        # the characteristic impedance is assumed to be Zbase
        zb = 50. if rng.random() < .5 else logu(rng, 10, 100)
        given = pick(rng, [[], ['vr'], ['epsr'], ['mur', 'epsr']])
        kw.update(Z0=zb, vac=not given, mur1='mur' not in given)
        vary = False
    else:
        given = ['OD', 'ID', pick(rng, ['LTL', 'CTL', 'Z0TL']), pick(rng, ['epsr', 'mur', 'etar', 'vr'])]
        geo = True
        if given[2:] in (['LTL', 'mur'], ['CTL', 'epsr'], ['Z0TL', 'etar']):
            given.append('vr')
    # conductor losses
    magn = False
    c = int(rng.integers(9))
    att = rng.random() < .25
    if c == 0 or u == 8 and c > 3:
        kw['cond'] = False
        cond = []
    elif c == 1:
        cond = ['rTL']
    elif c == 2:
        cond = two(rng, ['rTL', 'rTLI', 'rTLO'])
    elif c == 3:
        cond = ['RsI', 'RsO', 'qTLI', 'qTLO']
    elif c == 4:
        cond, magn = ['rhoI', 'rhoO', 'murI', 'murO', 'qTLI', 'qTLO'], True
    elif geo:
        magn = True
        cond = pick(rng, [['rhoI', 'rhoO', 'murI', 'murO'], ['RsI', 'RsO'], ['rho', 'murI', 'murO'], ['rho']])
        magn = 'murI' in cond
    else:
        cond = ['rTL']
    m = int(rng.integers(5))
    if m == 0:
        med = []
        kw['med'] = False
    elif m == 1 or u == 8 and m > 1:
        med = ['gTL']
    elif m == 2:
        med = ['sigma']
    elif m == 3:
        med = ['tand']
    else:
        med = ['gTL']
    if u == 8 and med and given == []:
        med, kw['med'] = [], False
    if att:
        a = pick(rng, ['A', 'AdB'])
        v = int(rng.integers(4))
        if v == 0:                  # attenuation only: no medium losses
            cond, med = [a], []
            kw['med'], kw['cond'] = False, True
        elif v == 1 and cond and med:
            cond, med = cond + [a], []      # medium losses from the attenuation
        elif v == 2 and cond and med:
            cond = [a]                      # conductor losses from the attenuation
        elif v == 3 and cond and med:
            cond = cond + [a]               # redundant
    if not any(k[:3] in ('mur', 'rho') for k in cond):
        magn = False
    magn = magn and 'murI' in cond
    if cond and kw.get('cond') is False:
        kw['cond'] = True
    T = Truth(rng, w0, L, vary, magn=magn, **kw)
    T.L = L
    if 'rho' in cond:
        T.P['rhoO'] = T.P['rhoI']
    if 'murI' in cond and T.P['murI'].arg == 1 and T.P['murO'].arg == 1:
        cond = [k for k in cond if k[:3] != 'mur']
    given = list(dict.fromkeys(given + cond + med))
    if rng.random() < .15 and 'Z0TL' not in given and u not in (8, 0):
        given.append('Z0TL')
    given = [given[i] for i in rng.permutation(len(given))]
    args = {k: T.arg(rng, k) for k in given}
    T.given, T.zb = given, zb
    T.text = {k: a[1] for k, a in args.items()}
    T.kw = {k: a[0] for k, a in args.items()}
    if 'rho' in T.kw:
        T.kw['rho'], T.text['rho'] = (lambda p: (p.arg, p.text))(T.P['rhoI'])
    return T


ALL = ('OD', 'ID', 'rho', 'rhoO', 'rhoI', 'RsO', 'RsI', 'rTL', 'rTLO', 'rTLI', 'qTLI', 'qTLO', 'murI', 'murO', 'A', 'AdB',
       'gTL', 'sigma', 'tand', 'LTL', 'CTL', 'Z0TL', 'epsr', 'mur', 'vr', 'etar', 'rjwL', 'gjwC', 'Zc', 'gamma', 'beta')

# relations: name, needed, residual relative
REL = [
    ('Z0TL^2 = LTL/CTL', 'Z0TL LTL CTL', lambda g, w: (g('Z0TL') ** 2 * g('CTL'), g('LTL'))),
    ('vr = 1/(c sqrt(LTL CTL))', 'vr LTL CTL', lambda g, w: (g('vr') ** 2 * C0 ** 2 * g('LTL') * g('CTL'), 1.)),
    ('etar^2 = mur/epsr', 'etar mur epsr', lambda g, w: (g('etar') ** 2 * g('epsr'), g('mur'))),
    ('vr^2 mur epsr = 1', 'vr mur epsr', lambda g, w: (g('vr') ** 2 * g('mur') * g('epsr'), 1.)),
    ('Z0TL = eta ln(OD/ID)/2pi', 'Z0TL etar OD ID',
     lambda g, w: (g('Z0TL'), ETA * g('etar') * np.log(g('OD') / g('ID')) / W)),
    ('rTL = rTLI + rTLO', 'rTL rTLI rTLO', lambda g, w: (g('rTL'), g('rTLI') + g('rTLO'))),
    ('rTLI = qTLI RsI', 'rTLI qTLI RsI', lambda g, w: (g('rTLI'), g('qTLI') * g('RsI'))),
    ('rTLO = qTLO RsO', 'rTLO qTLO RsO', lambda g, w: (g('rTLO'), g('qTLO') * g('RsO'))),
    ('qTLI = 1/(pi ID)', 'qTLI ID', lambda g, w: (g('qTLI') * np.pi * g('ID'), 1.)),
    ('qTLO = 1/(pi OD)', 'qTLO OD', lambda g, w: (g('qTLO') * np.pi * g('OD'), 1.)),
    ('RsI^2 = w mu rho/2', 'RsI rhoI murI', lambda g, w: (g('RsI') ** 2, w * MU0 * g('murI') * g('rhoI') / 2)),
    ('RsO^2 = w mu rho/2', 'RsO rhoO murO', lambda g, w: (g('RsO') ** 2, w * MU0 * g('murO') * g('rhoO') / 2)),
    ('sigma = w eps tand', 'sigma tand epsr', lambda g, w: (g('sigma'), w * g('epsr') * E0 * g('tand'))),
    ('gTL = 2pi sigma/ln(OD/ID)', 'gTL sigma OD ID', lambda g, w: (g('gTL') * np.log(g('OD') / g('ID')), W * g('sigma'))),
    ('gTL = sigma eta/Z0', 'gTL sigma etar Z0TL', lambda g, w: (g('gTL') * g('Z0TL'), g('sigma') * ETA * g('etar'))),
    ('rjwL', 'rjwL rTL LTL', lambda g, w: (g('rjwL'), g('rTL') + 1j * w * g('LTL'))),
    ('gjwC', 'gjwC gTL CTL', lambda g, w: (g('gjwC'), g('gTL') + 1j * w * g('CTL'))),
    ('gamma^2', 'gamma rjwL gjwC', lambda g, w: (g('gamma') ** 2, g('rjwL') * g('gjwC'))),
    ('Zc^2', 'Zc rjwL gjwC', lambda g, w: (g('Zc') ** 2 * g('gjwC'), g('rjwL'))),
    ('A = Re gamma', 'A gamma', lambda g, w: (g('A'), np.real(g('gamma')))),
    ('A = AdB ln10/20', 'A AdB', lambda g, w: (g('A'), g('AdB') * np.log(10) / 20)),
    ('beta', 'beta LTL CTL', lambda g, w: (g('beta') ** 2, w * w * g('LTL') * g('CTL'))),
]


def points(rng, L, w0, n=4):
    xs = [0., L] + [float(v) * L for v in rng.uniform(0, 1, n)]
    return [(w0 * float(s), x) for x, s in zip(xs, [1., 1.] + list(rng.uniform(.5, 2, n)))]


def resolve(ctx, rng):
    f = prog.freqs(rng, 1)[0]
    w0, L = W * f, float(rng.uniform(.1, 3))
    T = draw(rng, w0, L)
    ctx.desc(given=T.text, f=f, L=L, Zbase=T.zb)
    kw = dict(T.kw)
    if T.zb and T.zb != 50.:
        kw['Zbase'] = T.zb
    r = ctx.rf.TLresolver(L=L, **kw)
    known = [k for k in ALL if callable(getattr(r, k, None))]
    for k in ('rjwL', 'gjwC', 'LTL', 'CTL', 'Zc', 'gamma'):
        ctx.ok(k in known, f'{k} was not resolved', given=T.given, known=known)
    for w, x in points(rng, L, w0):
        g = lambda k: complex(getattr(r, k)(w, x)) if k in ('rjwL', 'gjwC', 'Zc', 'gamma') else \
            float(np.real(getattr(r, k)(w, x)))
        vals = {k: g(k) for k in known}
        for k in T.given:
            ctx.close(vals[k], T.get(k, w, x), f'given parameter {k} not kept', tol=0,
                      atol=1e-9 * abs(T.get(k, w, x)), w=w, x=x)
        for k in ('rjwL', 'gjwC', 'Zc', 'gamma'):
            t = T.get(k, w, x)
            ctx.close(vals[k], t, f'{k} is not that of the line', tol=0, atol=1e-6 * abs(t), w=w, x=x, given=T.given)
        for nm, need, fun in REL:
            if all(k in known for k in need.split()):
                a, b = fun(vals.get, w)
                # differences of losses are limited by the terms they are made of
                sc = max(abs(a), abs(b))
                if nm.startswith('A =') or nm == 'rTL = rTLI + rTLO':
                    sc += 1e-8 * abs(vals['gamma'] if nm[0] == 'A' else vals['rjwL'])
                ctx.close(a, b, f'relation {nm}', tol=0, atol=1e-6 * sc + 1e-300, w=w, x=x, given=T.given)
                ctx.ev('relations checked')
                ctx.ev('relation ' + nm)
        for k in known:
            t = T.get(k, w, x)
            sc = abs(t)
            if k in ('rTL', 'rTLI', 'rTLO', 'gTL', 'sigma', 'tand', 'A', 'AdB'):
                sc += 1e-6 * abs({'r': T.get('rjwL', w, x), 'g': T.get('gjwC', w, x), 'A': T.get('gamma', w, x),
                                  's': w * T.get('epsr', w, x) * E0, 't': 1.}[k[0]])
            ctx.close(vals[k], t, f'{k} is not that of the line', tol=0, atol=1e-5 * sc + 1e-300, w=w, x=x,
                      given=T.given)
            ctx.ev('parameters compared')
    ctx.nontrivial(sorted(T.given), sorted(type(v).__name__ for v in T.kw.values()))


def same(ctx, rng):
    """two descriptions of one physical line give one response"""
    f = prog.freqs(rng, 1)[0]
    w0 = W * f
    L = float(rng.uniform(.02, .6) * C0 / f)
    vary = bool(rng.random() < .25)
    T = draw(rng, w0, L if not vary else L / 4, vary)
    L = T.L
    Zb = T.zb or logu(rng, 5, 200)
    a = ctx.rf.rfTRL(L=L, Zbase=Zb, **T.kw)
    form = int(rng.integers(3))
    g = (lambda k: (lambda w, x: T.get(k, w, x))) if vary else (lambda k: (lambda w: T.get(k, w, 0.)))
    if form == 0:
        kw = {k: g(k) for k in ('LTL', 'CTL', 'rTL', 'gTL')}
    elif form == 1:
        kw = {k: g(k) for k in ('Z0TL', 'vr', 'rTL', 'gTL')}
    else:
        kw = {k: g(k) for k in ('OD', 'ID', 'epsr', 'mur', 'rhoI', 'rhoO', 'murI', 'murO', 'tand')}
    b = ctx.rf.rfTRL(L=L, Zbase=Zb, **kw)
    ctx.desc(given=T.text, second=sorted(kw), f=f, L=L, Zbase=Zb)
    for s in (1., float(rng.uniform(.6, 1.5)))[:1 if vary else 2]:
        S, R = a.getS(f * s), b.getS(f * s)
        ctx.close(S, R, 'two descriptions of the same line', tol=1e-5, given=T.given, f=f * s)
    E = dict(zip('12', cplx(rng, 2)))
    ctx.close(a.maxV(f, E)[0], b.maxV(f, E)[0], 'maximum voltage of two descriptions', tol=2e-2)
    ctx.ev('pairs of descriptions')
    ctx.nontrivial(sorted(T.given), form)


def text(ctx, rng):
    """the printed report shows the values at the printed frequency"""
    f = float(np.round(prog.freqs(rng, 1)[0]))
    L = float(rng.uniform(.1, 3))
    T = draw(rng, W * f, L, vary=False)
    kw = dict(T.kw)
    if T.zb and T.zb != 50.:
        kw['Zbase'] = T.zb
    r = ctx.rf.TLresolver(L=L, f0=f, **kw)
    s = str(r)
    rows = {l.split()[0]: l.rsplit('=', 1)[1] for l in s.split('\n')[1:] if ' = ' in l}
    for k in T.given:
        ctx.ok(k in rows, f'given parameter {k} is not listed', text=s)
    for k, v in rows.items():
        if k in ALL:
            t = T.get(k, W * f, 0.)
            got = complex(v.replace('[', '').replace(']', ''))
            ctx.close(got, t, f'printed value of {k}', tol=0,
                      atol=1e-5 * abs(t) + (1e-9 * abs(T.get('rjwL', W * f, 0)) if k[0] == 'r' else 1e-300)
                      + (1e-9 * abs(T.get('gjwC', W * f, 0)) if k in ('gTL', 'sigma') else 0) + (1e-9 if k == 'tand' else 0)
                      + (1e-9 * abs(T.get('gamma', W * f, 0)) if k == 'A' else 0))
            ctx.ev('printed values')
    ctx.desc(given=T.text)
    ctx.nontrivial(sorted(T.given))


def refused(ctx, rng):
    for k in ('L0', 'Z0', 'Epsr', 'od', 'foo'):
        ctx.raises(lambda: ctx.rf.TLresolver(Z0TL=50., **{k: 1.}), f'unknown parameter {k}')
        ctx.raises(lambda: ctx.rf.rfTRL(L=1., Z0TL=50., **{k: 1.}), f'unknown parameter {k}')


SCENARIOS = [('resolve', resolve, 8), ('same', same, 2), ('text', text, 1), ('refused', refused, 1)]
MIN_EVENTS = dict({'relations checked': 20000, 'pairs of descriptions': 60, 'printed values': 300},
                  **{'relation ' + nm: 20 for nm, *_ in REL if not nm.startswith('beta')})
