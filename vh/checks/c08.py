"""C08: lumped elements and arcs"""
import numpy as np
from .. import elems, prog
from ..common import *
from ..elems import pick, logu, INF, W

RULE = ('all 64 subsets of the six elements, with values from tiny to huge, explicit zeros/infinities, at zero and '
        'other frequencies (scalar, vector, integer), any reference impedance, stand-alone, through parameters and '
        'inside circuits, against the branch equations of the diagram; arcs likewise; non-trivial: at least one '
        'element; distinct by subset, frequency kind and scenario')
ASSUMPTIONS = ['Rp, Lp, Cs > 0 and Rs finite (the other limits are the absent elements)']
QUICK, THOROUGH = 20000, 150000
DEF = dict(Rs=0., Ls=0., Cs=INF, Rp=INF, Lp=INF, Cp=0.)
KEYS = list(DEF)


def subset(rng, k, f, wide=True):
    w = W * (f or 1e6)
    lo, hi = (1e-3, 1e5) if wide else (1, 500)
    v = dict(Rs=logu(rng, lo, hi), Ls=logu(rng, lo, hi) / w, Cs=1 / logu(rng, lo, hi) / w, Rp=logu(rng, lo, hi),
             Lp=logu(rng, lo, hi) / w, Cp=1 / logu(rng, lo, hi) / w)
    kw = {n: v[n] for i, n in enumerate(KEYS) if k >> i & 1}
    for n in KEYS:
        if n not in kw and rng.random() < .15:
            kw[n] = DEF[n] if rng.random() < .7 or np.isinf(DEF[n]) else int(DEF[n])
    if rng.random() < .1 and 'Rs' in kw:
        kw['Rs'] = int(kw['Rs']) + 1
    return dict(pick(rng, [[x for x in kw.items()], [x for x in reversed(kw.items())]]))


def want(kw, f, Z):
    A, B = elems.rlc_ref(kw, f)
    return elems.AB_to_S(A, B, Z)


def rlc(ctx, rng):
    f = prog.freqs(rng, 1)[0]
    k = int(rng.integers(64))
    kw = subset(rng, k, f)
    Z = 50. if rng.random() < .3 else logu(rng, 1, 500)
    extra = {} if Z == 50. else dict(Zbase=Z)
    if rng.random() < .3:
        extra['ports'] = elems.names(rng, 2)
    o = ctx.rf.rfRLC(**kw, **extra)
    ctx.desc(elements=kw, Zbase=Z, f=f)
    ctx.ok(list(o.ports) == list(extra.get('ports', ['s', 'p'])) and len(o) == 2, 'ports', got=o.ports)
    t = lambda S: 1e-8 * max(1, np.abs(S).max())
    fs = [0., f, 2 * f] if rng.random() < .5 else [f, 0, int(f)]
    for arg in (fs, np.array(fs), tuple(fs)):
        Ss = o.getS(arg)
        ctx.ok(len(Ss) == len(fs), 'number of S-matrices')
        for x, S in zip(fs, Ss):
            ctx.close(S, want(kw, x, Z), f'S at {"zero frequency" if x == 0 else "f"}', tol=1e-6, f=x)
    for x in (0., f, float(f * rng.uniform(.01, 100)), 0):
        z = logu(rng, 1, 1000)
        ctx.close(o.getS(x), want(kw, x, Z), 'S', tol=1e-6, f=x)
        ctx.close(o.getS(x, Zbase=z), want(kw, x, z), 'S at another impedance', tol=1e-6, f=x, Zbase=z)
        ctx.ev('S-matrices compared', 2)
        ctx.ev('zero frequency' if x == 0 else 'frequency > 0')
    ctx.ev(f'subset {k}')
    if k:
        ctx.nontrivial(k, sorted(kw))


def incircuit(ctx, rng):
    """ladders of elements and arcs: branch equations of the whole"""
    f = prog.freqs(rng, 1)[0]
    n = int(rng.integers(1, 4))
    sp = dict(kind='circ', Zbase=float(logu(rng, 5, 200)), Portnames=None, Id=None, ops=[])
    for i in range(n):
        kw = subset(rng, int(rng.integers(64)), f, wide=False)
        sp['ops'].append(('add', f'E{i}', dict(kind='rlc', n=2, kw=dict(kw, Zbase=float(logu(rng, 5, 200)))),
                          None, 0., None))
        if i:
            sp['ops'].append(('con', (f'E{i - 1}.p', f'E{i}.s')))
    if rng.random() < .6:
        kw = {} if rng.random() < .2 else dict(Larc=pick(rng, [INF, 0., logu(rng, .1, 500) / W / f]))
        sp['ops'].append(('add', 'arc', dict(kind='arc', n=1, kw=dict(kw, Zbase=float(logu(rng, 5, 200)))), None, 0., None))
        sp['ops'].append(('con', (f'E{n - 1}.p', 'arc.1', *(['end'] if rng.random() < .5 else []))))
    m = prog.Model(sp)
    c = prog.build(ctx.rf, sp)
    ctx.desc(program=prog.text(sp), f=f)
    for x in (f, 0.):
        compS(ctx, c, m, x)
        ctx.ev('circuits compared')
    ctx.nontrivial(prog.shape(sp))


def arc(ctx, rng):
    f = prog.freqs(rng, 1)[0]
    Z = 50. if rng.random() < .3 else logu(rng, 1, 500)
    L = pick(rng, [None, INF, 0., 0, logu(rng, 1e-3, 1e4) / W / f, logu(rng, 1, 500) / W / f])
    args, kw = (), {} if Z == 50. else dict(Zbase=Z)
    if L is not None:
        if rng.random() < .4:
            args = (L,)
        else:
            kw['Larc'] = L
    if rng.random() < .3:
        kw['ports'] = [pick(rng, ['a', 'arc', '7'])]
    o = ctx.rf.rfArcObj(*args, **kw)
    ctx.desc(Larc=L, Zbase=Z, f=f)
    ctx.ok(list(o.ports) == kw.get('ports', ['1']) and len(o) == 1, 'port of an arc', got=o.ports)
    def w(x, z, L):
        if L is None or np.isinf(L):
            return np.array([[1.]])
        return np.array([[(1j * W * x * L - z) / (1j * W * x * L + z)]])
    def look(L):
        for x in (f, 0., 3. * f):
            z = logu(rng, 1, 500)
            ctx.close(o.getS(x), w(x, Z, L), 'S of an arc', f=x, Larc=L)
            ctx.close(o.getS(x, Zbase=z), w(x, z, L), 'S of an arc at another impedance', f=x, Larc=L, Zbase=z)
        ctx.close(np.array(o.getS([f, 2. * f])), np.array([w(f, Z, L), w(2 * f, Z, L)]), 'S of an arc (vector)')
        ctx.ev('arcs compared')
    look(L)
    L2 = pick(rng, [INF, 0., logu(rng, 1, 500) / W / f])
    ctx.ok(o.set(Larc=L2) == (L2 != (INF if L is None else L)), 'return value of set(Larc)')
    look(L2)
    c = ctx.rf.rfCircuit(Zbase=Z)
    c.addblock('arc', o)
    ctx.close(c.getS(f), w(f, Z, L2), 'arc in a circuit')
    a = complex(cplx(rng))
    ctx.close(o.maxV(f, {o.ports[0]: a})[0], abs(a * (1 + w(f, Z, L2)[0, 0])), 'voltage of an arc')
    ctx.nontrivial(str(L is None or (L if L in (0., INF) else 'L')), len(args), 'ports' in kw, str(L2))


def values(ctx, rng):
    """set and params have the effect of the values"""
    f = prog.freqs(rng, 1)[0]
    kw = subset(rng, int(rng.integers(64)), f)
    o = ctx.rf.rfRLC(**kw)
    cur = dict(kw)
    for _ in range(5):
        new = subset(rng, int(rng.integers(1, 64)), f)
        x = pick(rng, [f, 0., 1.7 * f])
        if rng.random() < .5:
            o.set(**new)
            cur.update(new)
            ctx.close(o.getS(x), want(cur, x, 50.), 'S after set', tol=1e-6)
        else:
            cur.update(new)
            ctx.close(o.getS(x, params=new), want(cur, x, 50.), 'S with params', tol=1e-6)
        a = cplx(rng, 2)
        z = logu(rng, 3, 300)
        v, _, (_, vs) = o.maxV(x, dict(zip(o.ports, a)), Zbase=z)
        V = a + want(cur, x, z) @ a
        ctx.close(v, np.abs(V).max(), 'maximum voltage', tol=1e-7)
        ctx.close(vs, np.abs(V), 'port voltages', tol=1e-7)
        ctx.ev('values changed')
    ctx.desc(elements=cur, f=f)
    ctx.nontrivial(sorted(cur))


SCENARIOS = [('rlc', rlc, 5), ('incircuit', incircuit, 2), ('arc', arc, 1), ('values', values, 1)]
MIN_EVENTS = dict({'S-matrices compared': 2000, 'zero frequency': 500, 'arcs compared': 100},
                  **{f'subset {k}': 3 for k in range(64)})
