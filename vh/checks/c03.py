"""C03: the reference impedance is a presentation choice"""
import copy
import numpy as np
from .. import prog, elems
from ..common import *
from ..elems import pick

RULE = ('elements and circuits are interrogated at random reference impedances and built a second time with '
        'the reference impedances of the elements and of every circuit level changed (data that is only '
        'meaningful at a reference impedance re-expressed): port relation, solution voltages and currents '
        'have to be those of the same physical network; non-trivial: the reference impedances differ')
ASSUMPTIONS = ASSUME
QUICK, THOROUGH = 10000, 80000


def zz(rng):
    return float(pick(rng, [50., 30., 75.])) if rng.random() < .2 else float(logu(rng, 1, 1000))


def element(ctx, rng):
    fs = prog.freqs(rng, 2)
    sp = elems.negate(rng, elems.gen(rng, fs, pick(rng, elems.KINDS[1:]), pick(rng, ['passive', 'any'])))
    o = elems.make(ctx.rf, sp)
    ctx.desc(element=elems.describe(sp), freqs=fs)
    z0 = sp['kw']['Zbase']
    for f in fs:
        A, B = elems.ref(sp, f, 50.)
        ctx.close(o.getS(f), elems.AB_to_S(A, B, z0), 'S at the own reference impedance', kind=sp['kind'])
        for z in (zz(rng), z0, zz(rng)):
            ctx.close(o.getS(f, Zbase=z), elems.AB_to_S(A, B, z), f'S at {z} Ohm', kind=sp['kind'])
            ctx.ev('S-matrices compared')
    z = zz(rng)
    Ss = np.asarray(o.getS(list(fs), Zbase=z))
    for f, S in zip(fs, Ss):
        ctx.close(S, elems.AB_to_S(*elems.ref(sp, f, 50.), z), f'S at {z} Ohm (vector call)', kind=sp['kind'])
    ctx.close(o.getS(fs[0]), elems.AB_to_S(*elems.ref(sp, fs[0], 50.), z0), 'S afterwards', kind=sp['kind'])
    ctx.nontrivial(sp['kind'], sp['n'], sorted(sp['kw']))


def tocircuit(ctx, rng):
    """an element in a circuit of another reference impedance, request at a third one"""
    fs = prog.freqs(rng, 2)
    ch = elems.negate(rng, elems.gen(rng, fs, pick(rng, elems.KINDS), 'passive'))
    sp = dict(kind='circ', Zbase=zz(rng), Portnames=None, Id=None, ops=[('add', 'X', ch, None, 0., None)])
    for _ in range(int(rng.integers(3))):
        sp = dict(kind='circ', Zbase=zz(rng), Portnames=None, Id=None, ops=[('add', 'Y', sp, None, 0., None)])
    m, c = prog.Model(sp), prog.build(ctx.rf, sp)
    ctx.desc(program=prog.text(sp))
    for f in fs:
        for Z in (None, zz(rng), sp['Zbase']):
            compS(ctx, c, m, f, Z)
            ctx.ev('S-matrices compared')
    ctx.nontrivial(prog.shape(sp))


def request(ctx, rng):
    """any circuit at any requested impedance, renormalised by the definition"""
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=1)
    m, c = prog.Model(spec), prog.build(ctx.rf, spec)
    ctx.desc(program=prog.text(spec))
    for f in fs:
        m.check(f)
        S0 = c.getS(f)
        for _ in range(3):
            Z = zz(rng)
            n = len(S0)
            # V = (1+S)a, I = (1-S)a/Z0 -> waves at Z
            V, I = np.eye(n) + S0, (np.eye(n) - S0) / m.Zbase
            want = (V - Z * I) @ np.linalg.inv(V + Z * I)
            S = c.getS(f, Zbase=Z)
            if np.linalg.cond(V + Z * I) < 1e6:
                ctx.close(S, want, 'renormalised S', tol=1e-6, Zbase=Z)
            compS(ctx, c, m, f, Z, S=S, tol=1e-6)
            ctx.ev('S-matrices compared')
        internal(ctx, rng, c, m, f, Z)
        Ss = np.asarray(c.getS(fforms(rng, fs), Zbase=Z))
        compS(ctx, c, m, fs[0], Z, S=Ss[0], tol=1e-6)
        compS(ctx, c, m, f, tol=1e-6)
    ctx.nontrivial(prog.shape(spec))


def internal(ctx, rng, c, m, f, Z):
    """scattering matrices between nodes at any requested impedance"""
    P = list(c.ports)
    ctx.close(c.Get_internalSmatrix(f, P, Z), m.S(f, Z, P), 'internal S-matrix of the external ports', tol=1e-6, Zbase=Z)
    if m.ambiguous():
        return
    deep = list(m.all())
    nodes = [deep[i] for i in rng.permutation(len(deep))[:len(P)]]
    s = [m.solution(f, {q: float(p == q) for q in m.order()}, Z) for p in m.order()]
    A, B = (np.array([[x[q][j] for x in s] for q in nodes]) for j in (2, 3))
    if np.linalg.svd(A, compute_uv=False)[-1] < 1e-3:
        return
    ctx.close(c.Get_internalSmatrix(f, list(nodes), Zbase=Z), B @ np.linalg.inv(A), 'internal S-matrix', tol=1e-5, Zbase=Z, nodes=nodes)
    ctx.ev('internal S-matrices')


def rebased(ctx, rng):
    """the same network with other reference impedances at all levels"""
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=2, kinds=['arr', 'base', 'obj', 'rlc', 'trl', 'trl', 'arc', 'cpl'])
    twin = rebase(spec, rng)
    m, mt = prog.Model(spec), prog.Model(twin)
    m.check(fs[0]), mt.check(fs[0])
    c, d = prog.build(ctx.rf, spec), prog.build(ctx.rf, twin)
    ctx.desc(program=prog.text(spec), twin=prog.text(twin))
    f, Z = fs[0], zz(rng)
    compS(ctx, c, m, f, Z, tol=1e-6)
    S, T = c.getS(f, Zbase=Z), d.getS(f, Zbase=Z)
    ix = [d.ports.index(p) for p in c.ports]
    ctx.close(T[np.ix_(ix, ix)], S, 'S of the re-based circuit', tol=1e-6)
    ctx.ev('S-matrices compared')
    E = excite(rng, m.order())
    want = m.solution(f, E, Z)
    for x, nm in ((c, 'circuit'), (d, 're-based circuit')):
        comp_sol(ctx, x.Solution(f, E, Zbase=Z), want, f'Solution of the {nm}')
    # the same physical excitation given at another impedance
    Z2 = zz(rng)
    E2 = {p: (want[p][0] + Z2 * want[p][1]) / 2 for p in E}
    s2 = d.Solution(f, E2, Zbase=Z2)
    comp_sol(ctx, s2, {p: (v, i, (v + Z2 * i) / 2, (v - Z2 * i) / 2) for p, (v, i, *_) in want.items()},
             'Solution for the excitation given at another impedance')
    v1 = c.maxV(f, E, Zbase=Z)[0]
    ctx.close(v1, d.maxV(f, E, Zbase=Z)[0], 'maximum voltage of the re-based circuit', tol=1e-5)
    ctx.close(v1, c.maxV(f, E2, Zbase=Z2)[0], 'maximum voltage for another reference impedance', tol=1e-5)
    if spec['Zbase'] != twin['Zbase']:
        ctx.nontrivial(prog.shape(spec))


def line(ctx, rng):
    """lines of any kind: own reference impedance, standing waves and maxV of equivalent excitations"""
    f = prog.freqs(rng, 1)[0]
    kw = dict(L=float(rng.uniform(.05, 1.) * elems.C0 / f))
    kw['Z0TL'] = [float(v) for v in rng.uniform(10, 90, 3)] if rng.random() < .3 else float(logu(rng, 5, 200))
    if rng.random() < .4:
        kw['rTL'] = float(rng.uniform(.01, 1))
    if rng.random() < .2:
        kw = dict(L=kw['L'], OD=.2, ID=.1, rho=2e-8, epsr=float(rng.uniform(1, 3)))
    z1, z2, Z = zz(rng), zz(rng), zz(rng)
    a, b = ctx.rf.rfTRL(Zbase=z1, **kw), ctx.rf.rfTRL(Zbase=z2, **kw)
    ctx.desc(line=kw, Zbases=[z1, z2, Z])
    S1, S2 = a.getS(f, Zbase=Z), b.getS(f, Zbase=Z)
    ctx.close(S2, S1, 'S of lines with different reference impedances', tol=1e-6)
    ctx.close(ctx.rf.ConvertGeneral(Z, b.getS(f), z2), S1, 'renormalised S of a line', tol=1e-6)
    E = excite(rng, ['1', '2'], zeros=False)
    A = np.array([E['1'], E['2']])
    Bv = S1 @ A
    V, I = A + Bv, (A - Bv) / Z
    ref = None
    for o, z in ((a, Z), (b, Z), (a, None), (b, zz(rng))):
        zr = z or o.Zbase
        e = dict(zip(['1', '2'], (V + zr * I) / 2))
        xs, (vs, is_, _) = o.VISWs(f, e, Zbase=z)
        ctx.close([vs[0], vs[-1]], V, 'end voltages of the standing wave', tol=1e-5, Zbase=z)
        ctx.close([50 * is_[0], 50 * is_[-1]], [-50 * I[0], 50 * I[1]], 'end currents of the standing wave',
                  tol=1e-5, Zbase=z)
        mv = o.maxV(f, e, Zbase=z)[0]
        ref = mv if ref is None else ref
        ctx.close(mv, ref, 'maximum voltage', tol=1e-5, Zbase=z)
        ctx.ev('standing waves compared')
    ctx.nontrivial(sorted(kw), round(z1), round(z2))


def table(ctx, rng):
    """convert2newZbase keeps the network"""
    fs = prog.freqs(rng, 3)
    sp = elems.gen(rng, fs, 'obj')
    o = elems.make(ctx.rf, sp)
    f = sp['fs'][0]
    if rng.random() < .5:
        o.getS(f * 1.01)
    z = zz(rng)
    o.convert2newZbase(z)
    ctx.ok(o.Zbase == z, 'Zbase after convert2newZbase')
    for f in sp['fs']:
        A, B = elems.ref(sp, f, 50.)
        ctx.close(o.getS(f), elems.AB_to_S(A, B, z), 'S after convert2newZbase')
        z3 = zz(rng)
        ctx.close(o.getS(f, Zbase=z3), elems.AB_to_S(A, B, z3), 'S at another impedance after convert2newZbase')
        ctx.ev('S-matrices compared')
    # maxV of a one element analysis is independent of the impedance of the excitation
    f, n = sp['fs'][0], sp['n']
    A = cplx(rng, n)
    S = o.getS(f)
    V, I = A + S @ A, (A - S @ A) / z
    ref = np.abs(V).max()
    for zr in (z, zz(rng)):
        e = dict(zip(o.ports, (V + zr * I) / 2))
        ctx.close(o.maxV(f, e, Zbase=zr)[0], ref, 'maximum voltage of tabulated data', tol=1e-6)
    ctx.desc(element=elems.describe(sp), Zbase=z)
    ctx.nontrivial(sp['n'], round(z))


def single(ctx, rng):
    """maxV of single elements for equivalent excitations"""
    fs = prog.freqs(rng, 1)
    sp = elems.gen(rng, fs, pick(rng, ['base', 'rlc', 'cpl', 'arc', 'obj', 'trl']))
    o = elems.make(ctx.rf, sp)
    f, n, z0 = fs[0], sp['n'], zz(rng)
    A = cplx(rng, n)
    S = elems.AB_to_S(*elems.ref(sp, f, 50.), z0)
    V, I = A + S @ A, (A - S @ A) / z0
    ref = None
    for zr in (z0, sp['kw']['Zbase'], None, zz(rng)):
        z = zr or sp['kw']['Zbase']
        e = dict(zip(o.ports, [complex(v) for v in (V + z * I) / 2]))
        v = (o.maxV(f, e, Zbase=zr) if zr else o.maxV(f, e))[0]
        if sp['kind'] != 'trl':
            ctx.close(v, np.abs(V).max(), f'maximum voltage of {sp["kind"]}', tol=1e-6, Zbase=zr)
        ref = v if ref is None else ref
        ctx.close(v, ref, f'maximum voltage of {sp["kind"]}', tol=1e-5, Zbase=zr)
    ctx.desc(element=elems.describe(sp), Zbase=z0)
    ctx.nontrivial(sp['kind'], n, round(z0))


def data(ctx, rng):
    """circuits described by touchstone data, alone and inside a circuit"""
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=int(rng.integers(0, 2)), share=0, maxext=4)
    spec = prog.with_data(rng, spec, fs, False, 1.)
    sp = spec['data']
    c = prog.build(ctx.rf, spec)
    t = ctx.rf.rfCircuit(Zbase=zz(rng))
    t.addblock('C', c)
    ctx.desc(program=prog.text(spec), Zt=t.Zbase)
    O = list(sp['kw']['ports'])
    for _ in range(4):
        o, pre = (c, '') if rng.random() < .6 else (t, 'C.')
        f, Z = pick(rng, fs), zz(rng) if rng.random() < .6 else None
        vec = rng.random() < .3
        S = np.asarray((o.getS([f] if vec else f) if Z is None else o.getS([f] if vec else f, Zbase=Z)))
        want = elems.AB_to_S(*elems.ref(sp, f, 50.), Z or o.Zbase)
        ix = [O.index(p[len(pre):]) for p in o.ports]
        ctx.close(S[0] if vec else S, want[np.ix_(ix, ix)], 'S-matrix of a circuit described by data', tol=1e-6, f=f, Zbase=Z)
        ctx.ev('S-matrices compared')
        if rng.random() < .5:
            E = excite(rng, list(o.ports))
            z = Z or o.Zbase
            a = np.array([E[pre + O[i]] for i in range(len(O))])
            b = elems.AB_to_S(*elems.ref(sp, f, 50.), z) @ a
            s = o.Solution(f, dict(E), Zbase=z, flags={})
            comp_sol(ctx, s, {pre + p: (x + y, (x - y) / z, x, y) for p, x, y in zip(O, a, b)}, 'described by data: Solution')
    ctx.nontrivial(prog.shape(spec), round(sp['kw']['Zbase']))


SCENARIOS = [('data', data, 1), ('element', element, 3), ('tocircuit', tocircuit, 2), ('request', request, 3),
             ('rebased', rebased, 3), ('line', line, 1), ('table', table, 1), ('single', single, 1)]
MIN_EVENTS = {'internal S-matrices': 120, 'S-matrices compared': 2000, 'standing waves compared': 100}
