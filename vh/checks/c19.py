"""C19: de-embedding is the inverse of embedding"""
import copy
import numpy as np
from .. import prog, elems, line
from ..core import Skip
from ..common import *
from ..elems import pick, logu, names, rand_S, AB_to_S, from_S, C0, W

RULE = ('random devices are embedded in random invertible fixtures (matrices, tables, lines, RLC, couplers, whole '
        'circuits; several ports at once, several fixtures side by side or one behind the other) by the independent '
        'network model; the real circuit of measurement and fixture is de-embedded and has to answer like the '
        'device, alone, after further wiring, nested, after modifications of the fixture, and in its solution; '
        'line lengths are embedded in and removed from real tables in all forms; non-trivial: the fixture is no '
        'matched through; distinct by device size, fixture structure and forms')
ASSUMPTIONS = ['fixtures whose transmission is invertible (conditioning below 1e4)', 'frequencies > 0',
               'the description of a line to remove is a length, (length, impedance) or the line\'s own attributes']
QUICK, THOROUGH = 4000, 36000


def fixture(rng, fs, k):
    """spec of a 2k-port with (external, internal) ports"""
    u = int(rng.integers(6))
    if u < 3 or k > 2:
        kind = pick(rng, ['arr', 'base', 'obj']) if k > 1 or u == 0 else pick(rng, ['trl', 'rlc', 'trl', 'base', 'obj'])
        if kind in ('trl', 'rlc'):
            sp = elems.gen(rng, fs, kind)
            if kind == 'trl' and sp['kw']['L'] == 0:
                sp['kw']['L'] = .05
        else:
            sp = dict(kind=kind, n=2 * k, kw={})
            n = 2 * k
            if kind == 'arr':
                sp['S'] = rand_S(rng, n, pick(rng, ['passive', 'lossless', 'recip']))
            else:
                sp['fs'] = list(fs) + ([fs[0] * 3 + 1.] if len(fs) < 2 else [])
                c = pick(rng, ['passive', 'lossless', 'losslessrecip', 'any'])
                sp['Ss'] = np.array([rand_S(rng, n, c) for _ in sp['fs']])
                sp['kw'] = dict(Zbase=float(logu(rng, 5, 300)), ports=names(rng, n))
    elif k == 2 and rng.random() < .4:
        sp = elems.gen(rng, fs, 'cpl')
    else:
        # a circuit of two-ports in cascade and shunt elements
        sp = dict(kind='circ', Zbase=float(logu(rng, 5, 200)), Portnames=None, Id=None, ops=[])
        ends = []
        for j in range(k):
            last = None
            for i in range(int(rng.integers(1, 4))):
                e = elems.gen(rng, fs, pick(rng, ['trl', 'rlc']))
                sp['ops'].append(('add', f'B{j}{i}', e, ['x', 'y'], 0., None))
                if last:
                    if rng.random() < .3:
                        sh = dict(kind='arr', n=1, S=rand_S(rng, 1), kw={})
                        sp['ops'].append(('add', f'S{j}{i}', sh, ['x'], 0., None))
                        sp['ops'].append(('con', (last, f'S{j}{i}.x', f'B{j}{i}.x')))
                    else:
                        sp['ops'].append(('con', (last, f'B{j}{i}.x')))
                last = f'B{j}{i}.y'
        if rng.random() < .4:
            m = prog.Model(sp)
            sp['Portnames'] = [m.free[i] for i in rng.permutation(len(m.free))]
    return sp


def cports(sp):
    return prog.Model(sp).order() if sp['kind'] == 'circ' else elems.port_names(sp) or [str(i + 1) for i in range(sp['n'])]


class Case:
    """device X, fixtures at some of its ports, what is measured"""
    def __init__(self, ctx, rng, nfix=None):
        self.rng, self.ctx = rng, ctx
        self.fs = fs = prog.freqs(rng, int(rng.integers(1, 4)))
        n = int(rng.integers(1, 5))
        self.Z = float(logu(rng, 5, 200))
        zx = float(logu(rng, 5, 200))
        fx = list(fs) + ([fs[0] * 3 + 1.] if len(fs) < 2 else [])
        self.X = dict(kind='base', n=n, fs=fx, Ss=np.array([rand_S(rng, n) for _ in fx]),
                      kw=dict(Zbase=zx, ports=[f'x{i}' for i in range(n)]))
        ops = [('add', 'X', self.X, None, 0., None)]
        plane = [f'X.x{i}' for i in range(n)]
        self.fix = []          # (name, spec, ext ports, int ports, device ports)
        for j in range(nfix or int(rng.integers(1, 3))):
            k = int(rng.integers(1, min(2, n) + 1))
            sel = [int(i) for i in rng.permutation(n)[:k]]
            for _ in range(20):
                sp = fixture(rng, fs, k)
                if len(cports(sp)) == 2 * k:
                    break
            P = cports(sp)
            order = [int(i) for i in rng.permutation(2 * k)] if sp['kind'] not in ('circ', 'cpl') and rng.random() < .5 else \
                (list(range(2 * k)))
            if sp['kind'] == 'circ':
                # x ends outside, y ends inside, chain by chain
                m = prog.Model(sp)
                e = [p for p in P if p.endswith('.x')]
                i = [[p for p in P if p.endswith('.y') and p[1] == q[1]][0] for q in e]
            elif sp['kind'] == 'cpl':
                e, i = [P[0], P[2]], [P[1], P[3]]
            else:
                e, i = [P[t] for t in order[:k]], [P[t] for t in order[k:]]
            nm = f'F{j}'
            ops.append(('add', nm, sp, None, 0., None))
            for a, t in zip(i, sel):
                ops.append(('con', (plane[t], f'{nm}.{a}')))
            for a, t in zip(e, sel):
                plane[t] = f'{nm}.{a}'
            self.fix.append((nm, sp, e, i, sel))
        self.plane = plane
        emb = prog.Model(dict(kind='circ', Zbase=self.Z, Portnames=plane, Id=None, ops=ops))
        self.meas = np.array([self.S_of(emb, f) for f in fs])
        self.n = n
        for f in fs:
            self.conditioned(f)

    def S_of(self, m, f):
        return m.S(f, self.Z, m.order())

    def conditioned(self, f):
        for nm, sp, e, i, sel in self.fix:
            m = prog.Model(dict(kind='circ', Zbase=self.Z, Portnames=[f'{nm}.{p}' for p in [*e, *i]], Id=None,
                                ops=[('add', nm, sp, None, 0., None)]))
            S = m.S(f, self.Z)
            k = len(e)
            for T in (S[:k, k:], S[k:, :k]):
                if not np.linalg.cond(T) < 200 or np.linalg.norm(T, 2) < .02:
                    raise Skip('fixture hardly transmits')

    def measured(self):
        """the measured object of the real circuit"""
        rng, rf = self.rng, self.ctx.rf
        P = [f'm{t}' for t in range(self.n)]
        u = int(rng.integers(3))
        z = float(logu(rng, 5, 200)) if rng.random() < .5 else self.Z
        Ss = [AB_to_S(*from_S(S, self.Z), z) for S in self.meas]
        if u == 0:
            o = rf.rfObject(ports=P, Zbase=z)
            for f, S in zip(self.fs, Ss):
                o.setS(f, S)
            if len(self.fs) == 1:
                o.setS(self.fs[0] * 2 + 1., Ss[0])
            return o, None
        if u == 1 and len(self.fs) == 1:
            return self.meas[0].copy(), P          # at the circuit's impedance
        fx = list(self.fs) + ([self.fs[0] * 2 + 1.] if len(self.fs) == 1 else [])
        return rf.rfBase(ports=P, Zbase=z, fs=fx, Ss=np.array(Ss + Ss[:1] * (len(fx) - len(Ss)))), None

    def circuit(self, Zc=None, forms=True):
        """the real circuit: measurement + fixtures, de-embedded; external names of the device's ports"""
        rng, rf = self.rng, self.ctx.rf
        c = rf.rfCircuit(Zbase=self.Z)
        mo, P = self.measured()
        blocks = [('M', mo, P)] + [(nm, prog.build(rf, sp), None) for nm, sp, *_ in self.fix]
        for t in rng.permutation(len(blocks)):
            nm, o, P = blocks[t]
            c.addblock(nm, o, **({} if P is None else dict(ports=P)))
        at = [f'M.m{t}' for t in range(self.n)]
        self.log = []
        side = []
        for nm, sp, e, i, sel in reversed(self.fix):
            new = [f'{nm}i{t}' for t in sel]
            ints = {f'{nm}.{p}': q for p, q in zip(i, new)}
            exts = {}
            for p, t in zip(e, sel):
                a, b = f'{nm}.{p}', at[t]
                if rng.random() < .5:
                    a, b = b, a
                exts[a] = b
            for t, q in zip(sel, new):
                at[t] = q
            if rng.random() < .3:
                ints = {q: ints[q] for q in [list(ints)[s] for s in rng.permutation(len(ints))]}
            I = ints if rng.random() < .5 else list(ints.items())
            X = exts if rng.random() < .5 else list(exts.items())
            bI, bX = copy.deepcopy(I), copy.deepcopy(X)
            c.deembed(IntPorts=I, ExtPorts=X) if rng.random() < .5 else c.deembed(I, X)
            self.ctx.same([I, X], [bI, bX], 'the caller\'s description of what to remove was modified')
            self.log.append(f'deembed({bI}, {bX})')
            self.ctx.ev('de-embedding calls')
        self.at = at
        return c

    def want(self, f, Z):
        i = self.X['fs'].index(f)
        return AB_to_S(*from_S(self.X['Ss'][i], self.X['kw']['Zbase']), Z)

    def describe(self):
        self.ctx.desc(device=self.n, fixtures=[(nm, prog.text(sp) if sp['kind'] == 'circ' else elems.describe(sp), e, i, sel)
                                               for nm, sp, e, i, sel in self.fix], freqs=self.fs, Zbase=self.Z)

    def sig(self):
        return self.n, [(prog.shape(sp) if sp['kind'] == 'circ' else (sp['kind'], sorted(sp['kw'])), len(e), sel)
                        for _, sp, e, _, sel in self.fix]


TOL = 5e-6


def answer(ctx, cs, c, f, Z=None, what='de-embedded circuit'):
    S = np.asarray(c.getS(f) if Z is None else c.getS(f, Zbase=Z))
    ctx.ok(sorted(c.ports) == sorted(cs.at), f'{what}: remaining ports', got=c.ports, want=cs.at)
    ix = [cs.at.index(p) for p in c.ports]
    ctx.close(S, cs.want(f, Z or cs.Z)[np.ix_(ix, ix)], f'{what}: response of the device', tol=TOL, f=f, Zbase=Z, log=cs.log)
    ctx.ev('responses compared')


def circuit(ctx, rng):
    cs = Case(ctx, rng)
    cs.describe()
    c = cs.circuit()
    ctx.ok(sorted(c.ports) == sorted(cs.at), 'remaining ports', got=c.ports, want=cs.at)
    if rng.random() < .3:
        order = [cs.at[i] for i in rng.permutation(cs.n)]
        c.Portnames = list(order)
        c.getS(cs.fs[0])
        ctx.ok(list(c.ports) == order, 'announced order of the remaining ports', got=c.ports, want=order)
    for f in cs.fs:
        answer(ctx, cs, c, f, None if rng.random() < .5 else float(logu(rng, 5, 200)))
    got = np.asarray(c.getS(cs.fs))
    ix = [cs.at.index(p) for p in c.ports]
    ctx.close(got, np.array([cs.want(f, cs.Z)[np.ix_(ix, ix)] for f in cs.fs]), 'vector of frequencies', tol=TOL)
    ctx.nontrivial(cs.sig())


def solution(ctx, rng):
    """waves at the de-embedded ports, at the plane of the measurement and in the fixture"""
    cs = Case(ctx, rng, 1)
    cs.describe()
    c = cs.circuit()
    f = pick(rng, cs.fs)
    Z = float(logu(rng, 5, 200))
    E = excite(rng, cs.at)
    a = np.array([E[p] for p in cs.at])
    S = cs.want(f, Z)
    V, I = a + S @ a, (a - S @ a) / Z
    sol = c.Solution(f, dict(E), Z)
    sc = max(1., np.abs(V).max())
    def node(p, v, i, sc=sc):
        ctx.ok(p in sol, f'{p} is not in the solution', got=list(sol))
        ctx.close([sol[p][0], 50 * sol[p][1]], [v, 50 * i], f'voltage and current at {p}', tol=0, atol=1e-5 * sc)
        ctx.ev('node quantities')
    for p, v, i in zip(cs.at, V, I):
        node(p, v, i)
    nm, sp, e, ii, sel = cs.fix[0]
    m = prog.Model(dict(kind='circ', Zbase=cs.Z, Portnames=[f'{nm}.{p}' for p in [*e, *ii]], Id=None,
                        ops=[('add', nm, sp, None, 0., None)]))
    Sf = m.S(f, cs.Z)
    k = len(e)
    # in the fixture: [Ve, Vi], [Ie, Ii] with Vi, Ii = V, -I of the device
    A, B = from_S(Sf, cs.Z)
    vi, ii_ = V[sel], -I[sel]
    x = np.linalg.solve(np.hstack([A[:, :k], B[:, :k]]), -(A[:, k:] @ vi + B[:, k:] @ ii_))
    s2 = max(sc, np.abs(x[:k]).max(), 50 * np.abs(x[k:]).max())
    for j in range(k):
        node(f'{nm}.{e[j]}', x[j], x[k + j], s2)
        node(f'M.m{sel[j]}', x[j], x[k + j], s2)
        node(f'{nm}.{ii[j]}', vi[j], ii_[j], s2)
    for t in range(cs.n):
        if t not in sel:
            node(f'M.m{t}', V[t], I[t])
    ctx.nontrivial(cs.sig())


def wired(ctx, rng):
    """the de-embedded circuit is built on: further blocks, junctions and terminations, or nested"""
    cs = Case(ctx, rng)
    cs.describe()
    c = cs.circuit()
    nest = rng.random() < .5
    spec = dict(kind='circ', Zbase=cs.Z, Portnames=None, Id=None, ops=[])
    dev = cs.X
    spec['ops'].append(('add', 'X', dev, None, 0., None))
    mp = {f'X.x{t}': cs.at[t] for t in range(cs.n)}
    if nest:
        top = ctx.rf.rfCircuit(Zbase=float(cs.Z))
        top.addblock('D', c)
        mp = {k: f'D.{v}' for k, v in mp.items()}
    else:
        top = c
    m = prog.Model(spec)
    def op(*o):
        spec['ops'].append(o)
        m.apply(o)
        if o[0] == 'con':
            o = ('con', tuple(mp.get(p, p) for p in o[1]))
        elif o[0] == 'term':
            o = ('term', mp.get(o[1], o[1]), o[2])
        prog.do(ctx.rf, top, o)
        ctx.ev('building steps after de-embedding')
    for k in range(int(rng.integers(1, 4))):
        u = int(rng.integers(3))
        if u == 0:
            sp = elems.gen(rng, cs.fs, pick(rng, ['rlc', 'trl', 'base']), nmax=3, xpos=False)
            op('add', f'L{k}', sp, [f'l{j}' for j in range(sp['n'])], 0., None)
            op('con', (pick(rng, m.free[:-sp['n']] or m.free), f'L{k}.l0'))
        elif u == 1 and len(m.free) > 2:
            ps = [m.free[i] for i in rng.permutation(len(m.free))[:2]]
            op('con', (*ps, f'J{k}') if rng.random() < .6 else tuple(ps))
        elif len(m.free) > 1:
            op('term', pick(rng, m.free), prog.gen_load(rng, 'passive', cs.Z))
        if not m.free:
            raise Skip('no port left')
    if not m.free:
        raise Skip('no port left')
    for f in cs.fs:
        w = m.S(f)
        S = np.asarray(top.getS(f))
        inv = {v: k for k, v in mp.items()}
        got = [inv.get(p, p) for p in top.ports]
        ctx.ok(sorted(got) == sorted(m.free), 'ports after further wiring', got=top.ports, want=m.free)
        o = m.order()
        ix = [o.index(p) for p in got]
        ctx.close(S, w[np.ix_(ix, ix)], 'device wired further', tol=10 * TOL, program=prog.text(spec), nested=nest)
        ctx.ev('responses compared')
    ctx.nontrivial(cs.sig(), prog.shape(spec), nest)


def modified(ctx, rng):
    """the fixture is modified: the same measurement then belongs to another device"""
    for _ in range(10):
        cs = Case(ctx, rng, 1)
        nm, sp, e, i, sel = cs.fix[0]
        if sp['kind'] in ('trl', 'rlc'):
            break
    else:
        raise Skip('no fixture with attributes')
    cs.describe()
    c = cs.circuit()
    f = cs.fs[0]
    if rng.random() < .7:
        answer(ctx, cs, c, f)
    a, v = (('L', float(rng.uniform(.05, .4) * C0 / f)) if sp['kind'] == 'trl' else
            pick(rng, [('Rs', logu(rng, 1, 100)), ('Ls', logu(rng, 1, 100) / W / f), ('Cp', 1 / (logu(rng, 5, 200) * W * f))]))
    c.set(f'{nm}.{a}', v)
    sp2 = copy.deepcopy(sp)
    sp2['kw'][a] = v
    # what the measurement says about the device now
    cs.fix[0] = (nm, sp2, e, i, sel)
    cs.conditioned(f)
    A, B = elems.ref(sp2, f, cs.Z)
    P = cports(sp2)
    ie, ii = P.index(e[0]), P.index(i[0])
    t = sel[0]
    Am, Bm = from_S(cs.meas[0], cs.Z)
    # V_m[t], I_m[t] are V_e, I_e ; with V_x = V_i, I_x = -I_i
    Q = -np.linalg.solve(np.array([A[:, ie], B[:, ie]]).T, np.array([A[:, ii], -B[:, ii]]).T)   # (Ve, Ie) = Q (Vx, Ix)
    Ax, Bx = Am.copy(), Bm.copy()
    Ax[:, t] = Am[:, t] * Q[0, 0] + Bm[:, t] * Q[1, 0]
    Bx[:, t] = Am[:, t] * Q[0, 1] + Bm[:, t] * Q[1, 1]
    if np.linalg.cond(Bx / cs.Z - Ax) > 1e5:
        raise Skip('ill-conditioned')
    want = AB_to_S(Ax, Bx, cs.Z)
    S = np.asarray(c.getS(f))
    ix = [cs.at.index(p) for p in c.ports]
    ctx.close(S, want[np.ix_(ix, ix)], 'de-embedded with the modified fixture', tol=1e-5, modified=(a, v), log=cs.log)
    ctx.ev('modified fixtures')
    ctx.nontrivial(cs.sig(), a)


UN = {'Hz': 1., 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9}


def embed_lines(rng, Ss, fs, Z, lines):
    """S at Z of the device with line sections (spec) in front of ports {k: trl spec}"""
    res = []
    for f, S in zip(fs, Ss):
        A, B = from_S(S, Z)
        A, B = A.copy(), B.copy()
        for k, kw in lines.items():
            if isinstance(kw, line.Line):
                # device at its beginning; (V, -I) of the device = M^-1 (V, -I) outside
                M = np.linalg.inv(kw.transfer(f, [0., kw.L])[1])
                a, b = A[:, k].copy(), B[:, k].copy()
                A[:, k] = a * M[0, 0] - b * M[1, 0]
                B[:, k] = -a * M[0, 1] + b * M[1, 1]
                continue
            g, zc = elems.line_gz(kw, f)
            c, s = np.cosh(g * kw['L']), np.sinh(g * kw['L'])
            # V_dev = c V - zc s I ; I_dev = -s/zc V + c I   (outer V, I)
            a, b = A[:, k].copy(), B[:, k].copy()
            A[:, k] = a * c - b * s / zc
            B[:, k] = -a * zc * s + b * c
        res.append(AB_to_S(A, B, Z))
    return np.array(res)


def table(ctx, rng):
    """rfObject.deembed in all forms, several rounds, several ports at once"""
    n = int(rng.integers(1, 5))
    unit = pick(rng, ['Hz', 'Hz', 'kHz', 'MHz', 'GHz'])
    fs = sorted({float(np.round(x)) for x in logu(rng, 1e6, 1e9) * rng.uniform(.5, 2, int(rng.integers(1, 6)))})
    Z = 50. if rng.random() < .3 else float(logu(rng, 5, 200))
    ports = names(rng, n)
    Ss = np.array([rand_S(rng, n, pick(rng, ['passive', 'recip', 'lossless'])) for _ in fs])
    o = ctx.rf.rfObject(ports=list(ports), Zbase=Z, funit=unit)
    for k in rng.permutation(len(fs)):
        o.setS(fs[k] / UN[unit], Ss[k].copy())
    cur = Ss
    log = []
    ctx.desc(ports=ports, freqs=fs, unit=unit, Zbase=Z, log=log)
    lam = C0 / fs[0]
    tolr = 1e-7

    def look(what):
        ctx.ok(list(o.ports) == ports, f'ports {what}', got=o.ports)
        for k, f in enumerate(fs):
            ctx.close(np.asarray(o.getS(f / UN[unit])), cur[k], f'{what}', tol=tolr, f=f, log=log)
        ctx.ev('responses compared', len(fs))

    if rng.random() < .5:
        look('new')
    und = []
    for _ in range(int(rng.integers(1, 4))):
        sel = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
        arg, eff, back = {}, {}, {}
        for k in sel:
            L = float(rng.uniform(-.6, .6) * lam)
            zl = float(logu(rng, 5, 200))
            u = int(rng.integers(5))
            if u == 0:
                arg[ports[k]], back[ports[k]] = L, -L
                eff[k] = dict(L=-L, Z0TL=Z)
            elif u == 1:
                arg[ports[k]], back[ports[k]] = (L, zl), (-L, zl)
                eff[k] = dict(L=-L, Z0TL=zl)
            elif u == 2:
                L = abs(L)
                vr = float(rng.uniform(.4, 1))
                kw = dict(L=L, LTL=zl / vr / C0, CTL=1 / (zl * vr * C0), rTL=.05 * zl / L)
                eff[k] = dict(kw)
                if rng.random() < .5:
                    kw['Zbase'] = float(logu(rng, 5, 200))       # not the line's own impedance: no influence
                arg[ports[k]], back[ports[k]] = kw, None
            elif u == 4:
                ln = line.gen(rng, fs[0], vary=rng.random() < .8, maxlam=.7)
                eff[k] = ln
                arg[ports[k]], back[ports[k]] = ln.args(), None
                tolr = max(tolr, 1e-5)
                ctx.ev('attached sections with varying parameters')
            else:
                i = int(np.sign(L))
                arg[ports[k]], back[ports[k]] = i, -i            # whole metres
                eff[k] = dict(L=float(-i), Z0TL=Z)
        call = {p: dict(v) if isinstance(v, dict) else v for p, v in arg.items()}
        log.append(f'deembed({arg})')
        before = cur
        cur = embed_lines(rng, cur, fs, Z, eff)
        if not np.all(np.isfinite(cur)) or np.abs(cur).max() > 1e3:
            raise Skip('ill-conditioned')
        # what small errors grow to (resonances)
        q = embed_lines(rng, before * (1 + 1e-7 * rng.uniform(-1, 1, before.shape)), fs, Z, eff)
        grow = max(1., np.max(np.abs(q - cur)) / 1e-7 / max(1, np.max(np.abs(before))))
        if grow > 1e3:
            raise Skip('ill-conditioned')
        tolr = tolr * max(1., grow)
        if tolr > 1e-3:
            raise Skip('ill-conditioned')
        o.deembed(call)
        ctx.same(call, arg, 'the caller\'s description was modified')
        ctx.ev('de-embedding calls')
        if rng.random() < .7:
            look('after embedding or removing lines')
        if all(v is not None for v in back.values()) and rng.random() < .5:
            o.deembed(dict(back))
            cur = before
            log.append('and back')
            look('lines attached and removed again')
            ctx.ev('there and back')
    look('at the end')
    if rng.random() < .4:        # the object as a block of a circuit
        c = ctx.rf.rfCircuit(Zbase=Z)
        if unit == 'Hz':
            c.addblock('T', o)
            ctx.close(np.asarray(c.getS(fs[0])), cur[0], 'as a block', tol=tolr)
    ctx.nontrivial(n, [sorted(map(str, l.split("'"))) for l in log][:1], len(log))


def lengths(ctx, rng):
    """line lengths attached by the library's own circuit are removed from the table it fills"""
    n = int(rng.integers(1, 4))
    fs = sorted({float(np.round(x)) for x in logu(rng, 1e6, 1e9) * rng.uniform(.5, 2, int(rng.integers(1, 4)))})
    Z = float(logu(rng, 5, 200))
    ports = [f'p{k}' for k in range(n)]
    Ss = np.array([rand_S(rng, n) for _ in fs])
    X = ctx.rf.rfObject(ports=list(ports), Zbase=Z)
    for f, S in zip(fs, Ss):
        X.setS(f, S.copy())
    lens = {ports[int(k)]: (float(rng.uniform(.02, .7) * C0 / fs[0]), Z if rng.random() < .4 else float(logu(rng, 5, 200)))
            for k in rng.permutation(n)[:int(rng.integers(1, n + 1))]}
    c = ctx.rf.rfCircuit(Zbase=Z)
    c.addblock('X', X)
    out = []
    for p in ports:
        if p in lens:
            c.addblock('T' + p, ctx.rf.rfTRL(L=lens[p][0], Z0TL=lens[p][1]), ports=['out', 'in'])
            c.connect(f'T{p}.in', f'X.{p}')
            out.append(f'T{p}.out')
        else:
            out.append(f'X.{p}')
    c.Portnames = list(out)
    Y = ctx.rf.rfObject(ports=list(ports), Zbase=Z)
    for f, S in zip(fs, c.getS(fs)):
        Y.setS(f, S)
    ctx.desc(lengths=lens, freqs=fs, Zbase=Z, ports=n)
    Y.deembed({p: (v[0] if v[1] == Z and rng.random() < .5 else v) for p, v in lens.items()})
    for k, f in enumerate(fs):
        ctx.close(np.asarray(Y.getS(f)), Ss[k], 'attached lengths removed', tol=1e-7)
        ctx.close(np.asarray(X.getS(f)), Ss[k], 'the device itself', tol=1e-12)
    ctx.ev('de-embedding calls')
    ctx.ev('responses compared', len(fs))
    ctx.nontrivial(n, sorted(lens), len(fs))


SCENARIOS = [('circuit', circuit, 3), ('solution', solution, 2), ('wired', wired, 2), ('modified', modified, 1),
             ('table', table, 3), ('lengths', lengths, 1)]
MIN_EVENTS = {'de-embedding calls': 500, 'responses compared': 1000, 'node quantities': 300, 'there and back': 30,
              'building steps after de-embedding': 150, 'modified fixtures': 20, 'attached sections with varying parameters': 60}
