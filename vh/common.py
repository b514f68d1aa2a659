"""helpers shared by the checks on circuits"""
import numpy as np
from . import prog, elems
from .core import Skip
from .elems import pick, logu, cplx

ASSUME = ['zero frequency only for uniform lines and lumped or constant elements',
          'networks one of whose levels is ill-conditioned (condition > 1e7) are left undecided',
          'the reference models in vh/elems.py, vh/net.py, vh/prog.py']


def check_ports(ctx, c, m, what='external ports'):
    ctx.ok(sorted(c.ports) == sorted(m.free), f'{what}: wrong set of ports',
           got=c.ports, want=m.free)
    if m.spec.get('Portnames'):
        ctx.ok(list(c.ports) == list(m.spec['Portnames']), f'{what}: not in the announced order',
               got=c.ports, want=m.spec['Portnames'])
    ctx.ok(len(c) == len(c.ports), f'{what}: len() differs from the number of ports')


def compS(ctx, c, m, f, Zb=None, what='S-matrix', tol=1e-7, S=None):
    """the S-matrix returned by the real circuit (at Zb) against the model"""
    want0 = m.S(f, Zb)                       # may skip the case
    got = np.asarray((c.getS(f) if Zb is None else c.getS(f, Zbase=Zb)) if S is None else S)
    check_ports(ctx, c, m)
    o = m.order()
    ix = [o.index(p) for p in c.ports]
    ctx.close(got, want0[np.ix_(ix, ix)], what, tol=tol, f=f, Zbase=Zb, ports=c.ports)
    return got


def excite(rng, ports, zeros=True):
    E = {p: complex(v) for p, v in zip(ports, cplx(rng, len(ports)))}
    if zeros and len(ports) > 1 and rng.random() < .3:
        E[ports[int(rng.integers(len(ports)))]] = 0.
    if rng.random() < .3:
        E = {p: E[p] for p in reversed(list(E))}
    return E


def comp_sol(ctx, sol, want, what='Solution', tol=1e-6, only=None):
    """voltages, currents and waves of all nodes against the model"""
    sc = max([1.] + [abs(v[0]) for v in want.values()])
    for p, w in want.items():
        if only is not None and p not in only:
            continue
        ctx.ok(p in sol, f'{what}: node {p} is missing', nodes=list(sol))
        g = sol[p]
        for k, n in enumerate(['V', 'I', 'Vf', 'Vr']):
            s = sc if n != 'I' else sc / 50
            ctx.ev('oracle_verdicts')
            ctx.ev('node quantities')
            if not abs(g[k] - w[k]) <= tol * s:
                ctx.fail(f'{what}: {n} at {p} differs', got=complex(g[k]), want=complex(w[k]))
            ctx.maxerr = max(ctx.maxerr, float(abs(g[k] - w[k]) / (tol * s)))


def fforms(rng, fs):
    """several ways of passing frequencies: (argument, list of frequencies or None)"""
    u = int(rng.integers(5))
    if u == 0:
        return list(fs)
    if u == 1:
        return np.array(fs)
    if u == 2:
        return tuple(fs)
    if u == 3:
        return [fs[0]]
    return list(fs) + [fs[0]]


def rebase(spec, rng, p=.7):
    """the same physical network described at other reference impedances
    (circuit levels, constant arrays and reflection coefficients are re-expressed)"""
    import copy
    Zo, Zn = spec['Zbase'], spec['Zbase']
    if rng.random() < p:
        Zn = float(logu(rng, 3, 400))
    new = dict(spec, Zbase=Zn, ops=[])
    new.pop('share', None)
    for op in spec['ops']:
        if op[0] == 'add':
            ch = op[2]
            if ch['kind'] == 'circ':
                ch = rebase(ch, rng, p)
            else:
                ch = copy.deepcopy(ch)
                ch.pop('share', None)
                if ch['kind'] == 'arr':
                    A, B = elems.from_S(ch['S'], Zo)
                    ch['S'] = elems.AB_to_S(A, B, Zn)
                elif ch['kind'] in ('base', 'obj') and rng.random() < p:
                    z = float(logu(rng, 3, 400))
                    ch['Ss'] = np.array([elems.AB_to_S(*elems.from_S(S, ch['kw']['Zbase']), z)
                                         for S in ch['Ss']])
                    ch['kw']['Zbase'] = z
                elif ch['kind'] in ('rlc', 'trl', 'arc') and rng.random() < p:
                    ch['kw']['Zbase'] = float(logu(rng, 3, 400))
            op = (op[0], op[1], ch, *op[3:])
        elif op[0] == 'term':
            kw = op[2]
            if 'RC' in kw or not kw:
                rc = kw.get('RC', 0.)
                if abs(1 - rc) < 1e-12:
                    kw = {'Y': 0.}
                else:
                    kw = {'Z': Zo * (1 + rc) / (1 - rc)}
            if rng.random() < .3:
                k, v = list(kw.items())[0]
                if k == 'Z' and v != 0:
                    kw = {'Y': 1 / v}
                elif k == 'Y' and v != 0:
                    kw = {'Z': 1 / v}
            op = ('term', op[1], kw)
        new['ops'].append(op)
    return new
