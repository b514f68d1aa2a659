"""C06: line sections solve the telegrapher's equations"""
import numpy as np
from ..core import Skip
from ..elems import logu, pick, cplx, AB_to_S, names
from .. import line, prog
from ..line import C0, W

RULE = ('random line descriptions (L/C/R/G, Z0 with velocity or materials, coax geometry with materials and '
        'losses, attenuation; constant, piecewise linear over the length or at given nodes, callables in x, w '
        'or both) are interrogated; S and the voltages/currents at every sample point are compared with an '
        'independent integration of the equations (4th order Magnus); cutting, mirroring and zero length are '
        'monitored on the real objects alone; non-trivial: length over 2% of the wavelength; distinct by '
        'description and layout of the profiles')
ASSUMPTIONS = ['zero frequency only for lines described neither by their attenuation nor by logarithms of the frequency', 'a list of step positions for dx is documented as not implemented and not covered']
QUICK, THOROUGH = 3000, 14000


def opts(rng, f):
    kw = {}
    if rng.random() < .5:
        kw['Zbase'] = logu(rng, 5, 300)
    if rng.random() < .3:
        kw['ports'] = names(rng, 2)
    if rng.random() < .3:
        kw['dx'] = int(rng.integers(20, 120))
    elif rng.random() < .4:
        kw['dx'] = float(pick(rng, [1, -1]) * rng.uniform(.003, .05) * C0 / f)
    return kw


def sig(l, kw):
    return sorted((k, np.ndim(p.arg) if not callable(p.arg) else 'f' + p.text.split(':')[0], p.x)
                  for k, p in l.P.items()), type(kw.get('dx')).__name__


def start(ctx, rng, **g):
    f = prog.freqs(rng, 1)[0]
    l = line.gen(rng, f, **g)
    kw = opts(rng, f)
    ctx.desc(line=l.text(), options=kw, f=f)
    ctx.ev('varying lines' if l.varies else 'uniform lines')
    for p in l.P.values():
        ctx.ev('profile callable' if callable(p.arg) else f'profile rank {np.ndim(p.arg)}')
    ctx.nontrivial(sig(l, kw))
    return f, l, kw, ctx.rf.rfTRL(**l.args(), **kw)


def tol(l):
    return 1e-5 if l.varies else 1e-8         # (the integrator at the bends of a profile)


def smat(ctx, rng):
    """S-matrix, scalar, vector, at other impedances"""
    f, l, kw, o = start(ctx, rng)
    ctx.ok(len(o) == 2 and list(o.ports) == list(kw.get('ports', ['1', '2'])), 'ports of the line', got=o.ports)
    Z = o.Zbase
    ctx.ok(Z == kw.get('Zbase', 50.), 'reference impedance', got=Z)
    fs = [f] + [f * float(x) for x in rng.uniform(.5, 1.5, int(rng.integers(0, 2)))]
    want = [l.S(x, Z) for x in fs]
    got = o.getS(fs if rng.random() < .5 else np.array(fs))
    ctx.close(got, np.array(want), 'S-matrix', tol=tol(l))
    ctx.close(o.getS(fs[-1]), want[-1], 'S-matrix (scalar)', tol=tol(l))
    z = logu(rng, 3, 300)
    ctx.close(o.getS(f, Zbase=z), l.S(f, z), 'S-matrix at another impedance', tol=2 * tol(l))
    ctx.ev('S-matrices compared', 2 + len(fs))


def waves(ctx, rng):
    """standing waves"""
    f, l, kw, o = start(ctx, rng)
    Zr = None if rng.random() < .5 else logu(rng, 5, 300)
    Z = Zr or o.Zbase
    a = cplx(rng, 2)
    if rng.random() < .2:
        a[int(rng.integers(2))] = 0
    E = {p: complex(v) for p, v in zip(o.ports, a)}
    S = l.S(f, Z)
    b = S @ a
    V, I = a + b, (a - b) / Z
    xs, r = o.VISWs(f, E) if Zr is None else o.VISWs(f, E, Zbase=Zr)
    Vs, Is = np.asarray(r[0]), np.asarray(r[1])
    ctx.ok(len(xs) == len(Vs) == len(Is) >= 2, 'lengths of positions, voltages and currents',
           got=[len(xs), len(Vs), len(Is)])
    ctx.ok(abs(xs[0]) <= 1e-12 and abs(xs[-1] - l.L) <= 1e-9 * l.L and np.all(np.diff(xs) > 0),
           'the positions do not cover the section', first=xs[0], last=xs[-1], L=l.L)
    d = o.dx
    if isinstance(d, int):
        x = np.linspace(0, l.L, 20)
        lam = [W / abs(np.imag(np.sqrt(np.prod(l.zy(W * f, t))))) for t in x]
        ctx.ok(np.max(np.diff(xs)) <= 2.1 * max(lam) / d, 'the section is sampled too coarsely',
               step=np.max(np.diff(xs)), wavelength=max(lam), dx=d)
    else:
        ctx.ok(np.max(np.diff(xs)) <= max(2.01 * abs(d), 0), 'step larger than asked', step=np.max(np.diff(xs)), dx=d)
    M = l.transfer(f, xs)
    w = M @ np.array([V[0], I[0]])
    sc = max(np.abs(w[:, 0]).max(), 50 * np.abs(w[:, 1]).max(), 1)
    ctx.close(Vs, w[:, 0], 'voltage standing wave', tol=0, atol=1e-5 * sc)
    ctx.close(50 * Is, -50 * w[:, 1], 'current standing wave', tol=0, atol=1e-5 * sc)
    ctx.close([Vs[0], Vs[-1]], V, 'end voltages against the S-matrix', tol=0, atol=1e-5 * sc)
    ctx.close([-50 * Is[0], 50 * Is[-1]], 50 * I, 'end currents against the S-matrix', tol=0, atol=1e-5 * sc)
    ctx.ev('standing wave points', len(xs))
    # solveVI from given end values
    v0, i0 = cplx(rng, 2)
    i0 = i0 / 50
    x2, V2, I2 = o.solveVI(f, v0, i0)
    ctx.close(x2, xs, 'positions of solveVI', tol=1e-12)
    w = M @ np.array([v0, -i0])
    sc = max(np.abs(w[:, 0]).max(), 50 * np.abs(w[:, 1]).max(), 1)
    ctx.close(V2, w[:, 0], 'solveVI: voltages', tol=0, atol=1e-5 * sc)
    ctx.close(50 * I2, -50 * w[:, 1], 'solveVI: currents', tol=0, atol=1e-5 * sc)
    _, V3, _ = o.solveVI(f, V0=v0)
    ctx.close(V3, (M @ np.array([v0, 0]))[:, 0], 'solveVI: given voltage only', tol=0, atol=1e-5 * sc)
    _, _, I3 = o.solveVI(f, I0=i0)
    ctx.close(50 * I3, -50 * (M @ np.array([0, -i0]))[:, 1], 'solveVI: given current only', tol=0, atol=1e-5 * sc)


def cut(ctx, rng):
    """pieces in cascade, as the library composes them"""
    f, l, kw, o = start(ctx, rng)
    kw.pop('ports', None)
    n = int(rng.integers(2, 4))
    xc = [0.] + sorted(float(v) * l.L for v in rng.uniform(.05, .95, n - 1)) + [l.L]
    c = ctx.rf.rfCircuit(Zbase=o.Zbase)
    for k in range(n):
        c.addblock(f'P{k}', ctx.rf.rfTRL(**l.piece(xc[k], xc[k + 1]).args(), **dict(kw, Zbase=logu(rng, 10, 200))),
                   ports=['a', 'b'], relpos=xc[k])
        if k:
            c.connect(f'P{k - 1}.b', f'P{k}.a')
    S = c.getS(f)
    ix = [c.ports.index('P0.a'), c.ports.index(f'P{n - 1}.b')]
    want = o.getS(f)
    ctx.close(S[np.ix_(ix, ix)], want, 'section cut into pieces', tol=4 * tol(l))
    a = cplx(rng, 2)
    s = c.Solution(f, dict(zip(['P0.a', f'P{n - 1}.b'], a)))
    _, (Vs, Is, _) = o.VISWs(f, dict(zip(o.ports, a)))
    sc = max(1, np.abs(Vs).max())
    ctx.close([s['P0.a'][0], s[f'P{n-1}.b'][0]], [Vs[0], Vs[-1]], 'end voltages of the pieces', tol=0, atol=1e-5 * sc)
    M = l.transfer(f, xc)
    for k in range(1, n):
        v = M[k] @ np.array([Vs[0], -Is[0]])
        ctx.close(s[f'P{k}.a'][0], v[0], 'voltage at a cut', tol=0, atol=1e-5 * sc)
        ctx.close(50 * s[f'P{k}.a'][1], 50 * v[1], 'current at a cut', tol=0, atol=2e-5 * sc)
        ctx.ev('cuts')


def mirror(ctx, rng):
    f, l, kw, o = start(ctx, rng)
    r = ctx.rf.rfTRL(**l.mirrored().args(), **kw)
    S, T = o.getS(f), r.getS(f)
    ctx.close(T[::-1, ::-1], S, 'section reversed with mirrored parameters', tol=4 * tol(l))
    ctx.close(S.T, S, 'reciprocity of a section', tol=4 * tol(l))
    ctx.ev('mirrored sections')


def zero(ctx, rng):
    """zero length is a through, however described"""
    f = prog.freqs(rng, 1)[0]
    l = line.gen(rng, f)
    a = l.args()
    if any(np.ndim(v) == 1 and len(v) > 1 and not callable(v) for v in a.values()):
        for k, v in list(a.items()):
            if not callable(v) and np.ndim(v) == 1:
                a[k] = float(v[0])
    a['L'] = pick(rng, [0., 0])
    kw = opts(rng, f)
    o = ctx.rf.rfTRL(**a, **kw)
    ctx.desc(line=l.text(), L=a['L'])
    ctx.close(o.getS(f), [[0, 1], [1, 0]], 'S of a zero-length section', tol=1e-9)
    E = dict(zip(o.ports, cplx(rng, 2)))
    xs, (Vs, Is, _) = o.VISWs(f, E)
    v = sum(E.values())
    ctx.close(Vs, np.full(len(xs), v), 'voltage of a zero-length section', tol=1e-9)
    ctx.close(xs, np.zeros(len(xs)), 'positions of a zero-length section', tol=1e-9)
    ctx.close(o.maxV(f, E)[0], abs(v), 'maximum voltage of a zero-length section', tol=1e-9)
    ctx.ev('zero-length sections')
    ctx.nontrivial(sig(l, kw))


def negative(ctx, rng):
    """a uniform section of negative length removes the one of positive length"""
    f, l, kw, o = start(ctx, rng, vary=False)
    kw.pop('dx', None)
    a = dict(l.args(), L=-l.L)
    q = ctx.rf.rfTRL(**a, **kw)
    M = np.linalg.inv(l.transfer(f, [0., l.L])[1])
    A, B = np.array([[M[0, 0], -1], [M[1, 0], 0]]), np.array([[M[0, 1], 0], [M[1, 1], 1]])
    z = logu(rng, 3, 300)
    for Z in (o.Zbase, z, o.Zbase):
        want = AB_to_S(A * np.array([[1], [Z]]), B * np.array([[1], [Z]]), Z)
        ctx.close(q.getS(f) if Z == o.Zbase else q.getS(f, Zbase=Z), want, 'S of a section of negative length', tol=1e-7, Zbase=Z)
    c = ctx.rf.rfCircuit(Zbase=z)
    c.addblock('P', o, ports=['a', 'b'])
    c.addblock('N', q, ports=['a', 'b'])
    c.connect('P.b', 'N.a')
    ctx.close(c.getS(f), np.array([[0, 1], [1, 0]]), 'a section and its inverse', tol=1e-6)
    ctx.ev('negative lengths')


def closed(ctx, rng):
    """closed form of uniform lines: quarter and half wave, input impedance, matched attenuation"""
    f = prog.freqs(rng, 1)[0]
    z0, vr = logu(rng, 5, 200), float(rng.uniform(.3, 1))
    lam = vr * C0 / f
    eps = 1 / vr ** 2
    k = int(rng.integers(1, 6))
    kw = pick(rng, [dict(Z0TL=z0, vr=vr), dict(Z0TL=z0, epsr=eps), dict(LTL=z0 / vr / C0, CTL=1 / z0 / vr / C0),
                    dict(Z0TL=z0, LTL=z0 / vr / C0), dict(CTL=1 / z0 / vr / C0, vr=vr),
                    dict(Z0TL=lambda: z0, vr=[vr])])
    S = ctx.rf.rfTRL(L=k * lam / 4, Zbase=z0, **kw).getS(f)
    ctx.close(S, np.array([[0, 1], [1, 0]]) * (-1j) ** k, 'quarter waves of a matched line', tol=1e-8)
    o = ctx.rf.rfTRL(L=float(rng.uniform(.1, 2)) * lam, Zbase=50., **kw)
    S = o.getS(f)
    rl = cplx(rng) / 3
    zl = 50 * (1 + rl) / (1 - rl)
    t = np.tan(W * o.L / lam)
    zin = z0 * (zl + 1j * z0 * t) / (z0 + 1j * zl * t)
    r = S[0, 0] + S[0, 1] * S[1, 0] * rl / (1 - S[1, 1] * rl)
    ctx.close(r, (zin - 50) / (zin + 50), 'input impedance of a loaded line', tol=1e-7)
    a = float(rng.uniform(0, 2)) / o.L
    o = ctx.rf.rfTRL(L=o.L, Zbase=50., **kw, **pick(rng, [dict(A=a), dict(AdB=a * 20 / np.log(10))]))
    z = [o.getS(f, Zbase=zz) for zz in (50., 20.)]
    # eigenvalues of the transfer matrix are exp(+-gamma L)
    for S, zz in zip(z, (50., 20.)):
        A = ((1 + S[0, 0]) * (1 - S[1, 1]) + S[0, 1] * S[1, 0]) / 2 / S[1, 0]
        D = ((1 - S[0, 0]) * (1 + S[1, 1]) + S[0, 1] * S[1, 0]) / 2 / S[1, 0]
        ev = (A + D) / 2
        ev = ev + np.sqrt(ev ** 2 - 1), ev - np.sqrt(ev ** 2 - 1)
        ctx.close(max(np.log(np.abs(ev))), a * o.L, 'attenuation of the line', tol=1e-6)
    ctx.desc(line={k: repr(v) for k, v in kw.items()}, f=f, L=o.L)
    ctx.ev('closed forms')
    ctx.nontrivial(sorted(kw), k)


def dc(ctx, rng):
    """zero frequency: the limit for small frequencies; a line without losses is a through"""
    f = prog.freqs(rng, 1)[0]
    for _ in range(100):
        l = line.gen(rng, f)
        if not {'A', 'AdB'} & set(l.P) and not any('log(' in p.text for p in l.P.values()):
            break
    else:
        raise Skip('no such line')
    kw = opts(rng, f)
    ctx.desc(line=l.text(), options=kw, f=0)
    o = ctx.rf.rfTRL(**l.args(), **kw)
    want = l.S(1e-5, o.Zbase)
    if rng.random() < .3:
        o.getS(f)
    if rng.random() < .5:
        got = o.getS(pick(rng, [0., 0]))
    else:
        got = o.getS([0., f])
        ctx.close(got[1], l.S(f, o.Zbase), 'S-matrix after zero frequency', tol=tol(l))
        got = got[0]
    ctx.close(got, want, 'S-matrix at zero frequency', tol=max(tol(l), 1e-6))
    z = logu(rng, 3, 300)
    ctx.close(o.getS(0., Zbase=z), l.S(1e-5, z), 'S-matrix at zero frequency and another impedance', tol=2 * max(tol(l), 1e-6))
    a = cplx(rng, 2)
    V = a + want @ a
    vmax, where, (xs, U) = o.maxV(0., {p: complex(v) for p, v in zip(o.ports, a)})
    ctx.close(np.array([U[0], U[-1]]), np.abs(V), 'voltages at zero frequency', tol=1e-5)
    ctx.close(vmax, max(np.abs(V)), 'maximum voltage at zero frequency', tol=1e-5)
    for full in (0, 1):
        ctx.ok(isinstance(o.asstr(full), str), 'text')
    ctx.ev('zero frequency')
    ctx.ev('zero frequency (losses)' if set(l.P) & {'rTL', 'gTL', 'sigma', 'tand', 'rho'} else 'zero frequency (no losses)')
    ctx.nontrivial(sig(l, kw), 'dc')


SCENARIOS = [('smat', smat, 4), ('waves', waves, 4), ('cut', cut, 2), ('mirror', mirror, 1),
             ('zero', zero, 1), ('closed', closed, 2), ('negative', negative, 1), ('dc', dc, 1)]
MIN_EVENTS = {'S-matrices compared': 400, 'varying lines': 150, 'standing wave points': 5000, 'profile callable': 60,
              'profile rank 1': 60, 'profile rank 2': 60, 'cuts': 60,
              'zero frequency': 60, 'zero frequency (losses)': 15}
