"""C09: couplers"""
import numpy as np
from .. import elems, prog
from ..common import *
from ..elems import pick, logu, C0, W

RULE = ('couplers of any coupling (linear, +-dB, default), design frequency or length (or ideal at any frequency), '
        'reference impedance and port names are interrogated at and off the design frequency, at other reference '
        'impedances and inside circuits; matching, isolation, reciprocity, losslessness and the power fractions are '
        'monitored, and the values compared with an independent even/odd mode solution; non-trivial: always; '
        'distinct by the way of specifying and the values')
ASSUMPTIONS = ['|kcdB| is the coupling in dB', 'frequency > 0']
QUICK, THOROUGH = 15000, 120000


def draw(rng, f):
    kw, k = {}, np.sqrt(.5)
    u = int(rng.integers(4))
    if u == 0:
        k = kw['kc'] = float(pick(rng, [rng.uniform(0, 1), .5, 0., 1., rng.uniform(.9, 1), logu(rng, 1e-5, .1)]))
    elif u < 3:
        d = float(pick(rng, [rng.uniform(0, 40), 3., 10., 0., logu(rng, .01, 1)]))
        kw['kcdB'] = d if u == 1 else -d
        k = 10 ** (-d / 20)
    v = int(rng.integers(3))
    f0 = None
    if v == 0:
        f0 = kw['f0Hz'] = f * float(rng.uniform(.3, 2))
    elif v == 1:
        kw['Lc'] = float(C0 / 4 / f * rng.uniform(.3, 2))
        f0 = C0 / 4 / kw['Lc']
    Z = 50.
    if rng.random() < .6:
        Z = kw['Zbase'] = logu(rng, 5, 300)
    if rng.random() < .4:
        kw['ports'] = elems.names(rng, 4)
    return kw, k, f0, Z


def monitors(ctx, S, what):
    n = len(S)
    ctx.close(S.T, S, f'{what}: reciprocity', tol=1e-9)
    ctx.close(np.conj(S.T) @ S, np.eye(n), f'{what}: power conservation', tol=1e-9)
    ctx.ev('invariants monitored')


def coupler(ctx, rng):
    f = prog.freqs(rng, 1)[0]
    kw, k, f0, Z = draw(rng, f)
    o = ctx.rf.rfCoupler(**kw)
    ctx.desc(coupler=kw, f=f)
    ctx.ok(list(o.ports) == kw.get('ports', ['A1', 'A2', 'B1', 'B2']) and len(o) == 4, 'ports', got=o.ports)
    fs = [f0 or f, f] + [f * float(x) for x in rng.uniform(.05, 3, 3)]
    Ss = np.asarray(o.getS(fs))
    for x, S in zip(fs, Ss):
        monitors(ctx, S, 'coupler')
        ctx.close(np.diag(S), np.zeros(4), 'matching', tol=1e-9)
        ctx.close([S[0, 3], S[1, 2], S[2, 1], S[3, 0]], np.zeros(4), 'isolation', tol=1e-9)
        # the two strips and the two ends are alike
        ctx.close([S[0, 1], S[0, 2]], [S[2, 3], S[1, 3]], 'symmetry', tol=1e-9)
        if x == f0 or f0 is None:
            ctx.close(np.abs(S[[0, 1, 2, 3], [2, 3, 0, 1]]) ** 2, np.full(4, k ** 2), 'coupled power', tol=1e-9)
            ctx.close(np.abs(S[[0, 1, 2, 3], [1, 0, 3, 2]]) ** 2, np.full(4, 1 - k ** 2), 'transmitted power', tol=1e-9)
            ctx.close(np.real(S[0, 1] * np.conj(S[0, 2])), 0, 'quadrature', tol=1e-9)
            ctx.ev('design frequency')
        else:
            ctx.ok(np.abs(S[0, 2]) <= k + 1e-9, 'coupled off the design frequency more than at it')
        if 0 < k < 1:
            ctx.close(S, elems.coupler_S(dict(kw, kc=k), x), 'even/odd mode solution', tol=1e-6 / min(1, np.sqrt(1 - k * k)))
        ctx.close(o.getS(x), S, 'scalar against vector call', tol=1e-12)
    z = logu(rng, 3, 500)
    T = o.getS(f, Zbase=z)
    monitors(ctx, T, 'coupler at another impedance')
    A, B = elems.from_S(o.getS(f), Z)
    ctx.close(T, elems.AB_to_S(A, B, z), 'renormalised coupler', tol=1e-7)
    ctx.nontrivial(sorted(kw), round(k, 4), round(Z))


def equivalent(ctx, rng):
    """the ways to specify the same device"""
    f = prog.freqs(rng, 1)[0]
    k = float(rng.uniform(.01, .99))
    d = 20 * np.log10(k)
    f0 = f * float(rng.uniform(.4, 2))
    Z = logu(rng, 5, 200)
    R = ctx.rf.rfCoupler
    a = R(kc=k, f0Hz=f0, Zbase=Z)
    for kw in (dict(kcdB=d, f0Hz=f0), dict(kcdB=-d, f0Hz=f0), dict(kc=k, Lc=C0 / 4 / f0), dict(kcdB=-d, Lc=C0 / 4 / f0)):
        b = R(Zbase=Z, **kw)
        for x in (f, f0, 1.3 * f):
            ctx.close(b.getS(x), a.getS(x), f'{sorted(kw)} against kc, f0Hz', tol=1e-8)
            ctx.ev('equivalent specifications')
    ctx.close(np.abs(R().getS(f)[0]) ** 2, [0, .5, .5, 0], 'default coupler is a 3 dB hybrid', tol=1e-9)
    ctx.raises(lambda: R(kc=k, kcdB=d), 'both kc and kcdB')
    ctx.raises(lambda: R(f0Hz=f, Lc=1.), 'both f0Hz and Lc')
    ctx.raises(lambda: R(ports=['a', 'b', 'c']), 'three ports')
    ctx.desc(kc=k, f0Hz=f0, Zbase=Z)
    ctx.nontrivial(round(k, 3), round(Z))


def incircuit(ctx, rng):
    """hybrid with loads: power splitting, combining, isolation resistor"""
    f = prog.freqs(rng, 1)[0]
    kw, k, f0, Z = draw(rng, f)
    if 'f0Hz' in kw:
        kw['f0Hz'] = f
    if 'Lc' in kw:
        kw['Lc'] = C0 / 4 / f
    o = ctx.rf.rfCoupler(**kw)
    P = list(o.ports)
    c = ctx.rf.rfCircuit(Zbase=logu(rng, 5, 200))
    c.addblock('H', o)
    i = int(rng.integers(4))
    thru, cpl, iso = {0: (1, 2, 3), 1: (0, 3, 2), 2: (3, 0, 1), 3: (2, 1, 0)}[i]
    for j in (thru, cpl, iso):
        c.terminate('H.' + P[j], Z=Z)
    a = complex(cplx(rng))
    S = c.getS(f, Zbase=Z)
    ctx.close(S, np.zeros((1, 1)), 'matched coupler input', tol=1e-8)
    s = c.Solution(f, {'H.' + P[i]: a}, Zbase=Z)
    pw = lambda p: abs(s['H.' + P[p]][0]) ** 2 / Z
    p0 = abs(a) ** 2 / Z
    ctx.close(np.array([pw(cpl), pw(thru), pw(iso)]) / p0, [k ** 2, 1 - k ** 2, 0], 'power at the ports', tol=1e-8)
    ctx.close(s['H.' + P[i]][0] - a, 0, 'reflected wave', tol=1e-8 * max(1, abs(a)))
    # other loads: random circuit with the coupler
    sp = dict(kind='circ', Zbase=float(logu(rng, 5, 200)), Portnames=None, Id=None,
              ops=[('add', 'H', dict(kind='cpl', n=4, kw=dict(kw, Zbase=Z, kc=k)), None, 0., None)])
    sp['ops'][0][2]['kw'].pop('kcdB', None)
    if not 1e-6 < k < 1 - 1e-6:
        sp['ops'][0][2]['kw']['kc'] = k = .3
    for j in rng.permutation(4)[:int(rng.integers(0, 4))]:
        sp['ops'].append(('term', 'H.' + P[j], prog.gen_load(rng, 'passive', sp['Zbase'])))
    m, d = prog.Model(sp), prog.build(ctx.rf, sp)
    for x in (f, 1.2 * f, .3 * f):
        compS(ctx, d, m, x)
    ctx.ev('circuits with couplers')
    ctx.desc(coupler=kw, f=f)
    ctx.nontrivial(sorted(kw), i)


SCENARIOS = [('coupler', coupler, 3), ('equivalent', equivalent, 1), ('incircuit', incircuit, 2)]
MIN_EVENTS = {'invariants monitored': 1000, 'design frequency': 500, 'equivalent specifications': 300,
              'circuits with couplers': 100}
