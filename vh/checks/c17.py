"""C17: the reported maximum voltage is the true maximum over the whole network"""
import re
import numpy as np
from .. import prog, elems, line, hist
from ..core import Skip
from ..common import *
from ..elems import pick, logu

RULE = ('random (nested, shared, renamed, modified) circuits are excited; the value returned by maxV is compared '
        'with the largest |V| of an independent solution over all nodes of all levels and a dense exact sampling '
        'of the inside of every line section (also sections with varying parameters); the place it names is '
        'looked up in that solution; every entry of the standing wave data is compared with the voltage at that '
        'node or that point of that section; scaled excitations scale everything; non-trivial: a line section or '
        'a nested level; distinct by program structure and by the kind of place holding the maximum')
ASSUMPTIONS = ASSUME + ['the inside of a section is sampled by the library: its maximum is compared to 0.5 %',
                        'rfObject reports the maximum of its ports only']
QUICK, THOROUGH = 3000, 30000
TOL = 5e-3      # at the default spacing: up to half a step of 1/36 of the wavelength


def inside(leaf, f, V0, I0, xs):
    """exact |V| at the local positions xs of a line leaf from the values at its first port"""
    if leaf['kind'] == 'trl':
        g, zc = elems.line_gz(leaf['kw'], f)
        return np.abs(V0 * np.cosh(g * xs) - zc * I0 * np.sinh(g * xs))
    M = leaf['line'].transfer(f, xs)
    return np.abs(M[:, 0, 0] * V0 + M[:, 0, 1] * I0)


def length(leaf):
    return leaf['kw']['L'] if leaf['kind'] == 'trl' else leaf['line'].L


class Truth:
    """all voltages of the network"""
    def __init__(self, m, f, E, Zb):
        self.m, self.f = m, f
        m.check(f)
        self.V, self.I = m.raw(f, E, Zb)
        self.node = {p: abs(self.V[t]) for p, (t, _) in m.all().items()}
        self.own = list(self.node.items())       # also by the elements' own port names
        self.leaf = {}
        self.lines = {}
        for path, leaf, _, ts in m.net.leaves:
            self.leaf[path] = leaf, ts
            for p, t in zip(elems.port_names(leaf) or [], ts):
                self.own.append((f'{path}.{p}', abs(self.V[t])))
            if leaf['kind'] in ('trl', 'line') and length(leaf) > 0:
                n = 1500 if leaf['kind'] == 'trl' else 400
                xs = np.linspace(0, length(leaf), n)
                self.lines[path] = xs, inside(leaf, f, self.V[ts[0]], self.I[ts[0]], xs)
        self.nodemax = max([v for _, v in self.own] + [abs(self.V[t]) for _, ts in self.leaf.values() for t in ts])
        self.max = max([self.nodemax] + [v.max() for _, v in self.lines.values()])
        # accuracy of the voltages: sections with varying parameters are integrated numerically
        self.tol = 1e-4 if any(lf['kind'] == 'line' for lf, _ in self.leaf.values()) else 1e-6
        self.inline = self.max > self.nodemax * (1 + TOL)


def subseq(a, b):
    it = iter(b)
    return all(x in it for x in a)


def place(ctx, T, where, vmax, start):
    """does the text name a place where the voltage is the maximum"""
    sc = T.max
    mt = re.match(r'(.*) node: (.*) @ *(-?[0-9.]+) *m$', where)
    if mt:
        path, x = [s.strip() for s in mt[1].rstrip('. ').split('.')], float(mt[3])
        best = [l for l in T.lines if subseq(l.split('.'), path) and l.split('.')[-1] == path[-1]]
        if not best:
            best = [l for l, (lf, _) in T.leaf.items() if lf['kind'] in ('trl', 'line')
                    and l.split('.')[-1] == path[-1]]      # zero length: the port itself
            ctx.ok(any(abs(abs(T.V[T.leaf[l][1][0]]) - sc) <= TOL * sc for l in best),
                   'the named line section does not hold the maximum', where=where, max=sc)
            return 'line'
        for l in best:
            leaf, ts = T.leaf[l]
            for x0 in {0., leaf['kw'].get('xpos', 0.) or 0., start.get(l, 0.)}:
                d = np.linspace(-6e-4, 6e-4, 13) + x - x0
                d = np.clip(d, 0, length(leaf)) if d[-1] >= 0 and d[0] <= length(leaf) else d[:0]
                if len(d) and np.any(np.abs(inside(leaf, T.f, T.V[ts[0]], T.I[ts[0]], np.unique(d)) - sc) <= TOL * sc):
                    return 'line'
        ctx.fail('the maximum is not at the position named on the line', where=where, max=sc,
                 at=[float(T.lines[l][0][np.argmax(T.lines[l][1])]) for l in best if l in T.lines])
    w = where.split('.')
    c = [(p, v) for p, v in T.own if subseq(p.split('.'), w) and p.split('.')[-1] == w[-1]]
    ctx.ok(c, 'the place named does not exist', where=where, nodes=list(T.node))
    n = max(len(set(p.split('.'))) for p, _ in c)       # (names are repeated on the way down)
    c = [e for e in c if len(set(e[0].split('.'))) == n]
    ctx.ok(any(abs(v - sc) <= TOL * sc for _, v in c), 'the place named does not hold the maximum',
           where=where, max=sc, there=c, largest=max(T.node, key=T.node.get))
    return 'node'


def walk(ctx, T, m, d, prefix='', off=0., start=None):
    """the standing wave data of one level against the solution"""
    sc = T.max
    def at(xv, v, x, what):
        ctx.ok(isinstance(xv, tuple) and len(xv) == 2 and len(xv[0]) == len(xv[1]) == 1,
               f'standing wave data of {what}: format', got=repr(xv))
        ctx.close(float(xv[1][0]), v, f'standing wave data: voltage of {what}', tol=0, atol=T.tol * sc)
        ctx.close(float(xv[0][0]), x, f'standing wave data: position of {what}', tol=1e-9)
        ctx.ev('node voltages in standing wave data')
    for p in m.ports:
        ctx.ok(p in d, f'standing wave data: node {prefix + p} is missing', nodes=list(d))
        at(d[p], T.node[prefix + p], off + m.pos[p], f'node {prefix + p}')
    for b, (child, _, relpos) in m.blocks.items():
        child = T.leaf[prefix + b][0] if prefix + b in T.leaf else child
        k = child['kind']
        if k == 'arr':
            continue
        ctx.ok(b in d, f'standing wave data: block {prefix + b} is missing', blocks=list(d))
        v = d[b]
        if k == 'circ':
            ctx.ok(isinstance(v, dict), f'standing wave data of block {prefix + b}: not a dict')
            walk(ctx, T, m.subs[b], v, f'{prefix}{b}.', off + relpos, start)
            continue
        names, xs = elems.port_names(child), elems.port_xpos(child)
        ts = T.leaf[prefix + b][1]
        if k in ('trl', 'line'):
            ctx.ok(isinstance(v, tuple) and len(v) == 2 and len(v[0]) == len(v[1]) >= 1, 'line data: format')
            x = np.asarray(v[0], float) - off - relpos - xs[0]
            L = length(child)
            ctx.close([x[0], x[-1]], [0, L], f'range of positions on line {prefix + b}', tol=1e-9)
            ctx.ok(np.all(np.diff(x) >= 0), f'positions on line {prefix + b} do not ascend')
            want = inside(child, T.f, T.V[ts[0]], T.I[ts[0]], np.clip(x, 0, L))
            ctx.close(np.asarray(v[1]), want, f'standing wave on line {prefix + b}', tol=0, atol=max(T.tol, 1e-5) * max(sc, 1e-3))
            if L > 0:
                full = T.lines[prefix + b][1].max()
                ctx.ok(full - np.max(v[1]) <= TOL * sc, f'standing wave on line {prefix + b} misses its maximum',
                       got=np.max(v[1]), want=full)
                start[prefix + b] = off + relpos + xs[0]
            ctx.ev('line samples', len(x))
        elif k == 'obj':
            ctx.close(float(np.max(v[1])), max(abs(T.V[t]) for t in ts), f'maximum of the ports of {prefix + b}',
                      tol=0, atol=T.tol * sc)
        elif isinstance(v, dict):
            ctx.ok(sorted(v) == sorted(names), f'standing wave data of {prefix + b}: wrong ports', got=list(v), want=names)
            for p, x, t in zip(names, xs, ts):
                at(v[p], abs(T.V[t]), off + relpos + x, f'port {p} of {prefix + b}')
        else:
            ctx.close(np.asarray(v[1]), np.abs(T.V[ts]), f'voltages at the ports of {prefix + b}', tol=0, atol=T.tol * sc)
            ctx.close(np.asarray(v[0], float), np.array(xs, float) + off + relpos,
                      f'positions of the ports of {prefix + b}', tol=1e-9)
            ctx.ev('element voltages in standing wave data', len(ts))


def judge(ctx, rng, c, m, f, E, Zb=None, positions=True):
    T = Truth(m, f, E, Zb)
    if T.max < 1e-9:
        raise Skip('nothing excited')
    kw = {}
    Id = c.Id
    if rng.random() < .3:
        Id = kw['Id'] = 'top level'
    r = c.maxV(f, dict(E), **kw) if Zb is None else c.maxV(f, dict(E), Zb, **kw)
    ctx.ok(len(r) == 3, 'maxV: three results')
    vmax, where, VSW = float(r[0]), r[1], r[2]
    ctx.ev('oracle_verdicts')
    ctx.ev('maxima compared')
    lim = (TOL if T.lines else T.tol) * T.max
    if not T.nodemax * (1 - T.tol) <= vmax or abs(vmax - T.max) > lim:
        ctx.fail('maximum voltage', got=vmax, want=T.max, where=where, nodes=T.nodemax)
    ctx.ok(isinstance(VSW, dict) and list(VSW) == [Id], 'standing wave data: top level', got=list(VSW), want=[Id])
    start = {}
    if positions:
        walk(ctx, T, m, VSW[Id], start=start)
    kind = place(ctx, T, where, vmax, start)
    ctx.ev(f'maximum at a {kind}' + (' of a nested level' if where.count('.') > 2 else ''))
    # homogeneous in the excitation
    if rng.random() < .5:
        s = complex(*rng.normal(size=2)) * float(pick(rng, [10, 1, 1, logu(rng, 1e-13, 1e13)]))
        r2 = c.maxV(f, {p: s * v for p, v in E.items()}, **dict(kw, **({} if Zb is None else dict(Zbase=Zb))))
        ctx.close(float(r2[0]), abs(s) * vmax, 'maximum for a scaled excitation', tol=1e-6, atol=0.)
        scaled(ctx, VSW, r2[2], abs(s), abs(s) * T.max)
        ctx.ev('scaled excitations')
    return kind, T


def scaled(ctx, a, b, s, sc):
    if isinstance(a, dict):
        ctx.ok(list(a) == list(b), 'scaled excitation: keys of the standing wave data')
        for k in a:
            scaled(ctx, a[k], b[k], s, sc)
    else:
        ctx.close(np.asarray(b[0], float), np.asarray(a[0], float), 'scaled excitation: positions', tol=1e-9)
        ctx.close(np.asarray(b[1]), s * np.asarray(a[1]), 'scaled excitation: voltages', tol=0, atol=1e-7 * sc)


def zb(rng):
    return None if rng.random() < .4 else float(logu(rng, 3, 300))


def circuit(ctx, rng, **kw):
    fs = prog.freqs(rng)
    kw.setdefault('kinds', None if rng.random() < .5 else ['trl', 'trl', 'rlc', 'base', 'arr', 'cpl', 'obj'])
    spec = prog.gen_circuit(rng, fs, **kw)
    m = prog.Model(spec)
    if m.ambiguous():
        raise Skip('ambiguous node names')
    prog.observe(ctx, spec)
    m.check(fs[0])
    c = prog.build(ctx.rf, spec)
    ctx.desc(program=prog.text(spec), freqs=fs)
    for f in fs[:2]:
        E, Z = excite(rng, m.order()), zb(rng)
        ctx.desc(f=f, E=E, Zbase=Z)
        kind, T = judge(ctx, rng, c, m, f, E, Z)
        if T.lines or m.subs or kind == 'node':
            ctx.nontrivial(prog.shape(spec), kind)


def flat(ctx, rng):
    circuit(ctx, rng, depth=0)


def matrices(ctx, rng):
    """the maximum is at a node inside that only the circuit itself knows of"""
    circuit(ctx, rng, depth=int(rng.integers(2)), kinds=['arr', 'arr', 'arr', 'rlc'], maxext=int(rng.integers(1, 3)), pterm=.4)


def nested(ctx, rng):
    circuit(ctx, rng, depth=2, force_nested=True)


def shorted(ctx, rng):
    """cascades of line sections that resonate between reactive loads: the maximum is inside"""
    f = prog.freqs(rng, 1)[0]
    Zb = float(logu(rng, 10, 100))
    spec = dict(kind='circ', Zbase=Zb, Portnames=None, Id=None, ops=[])
    n = int(rng.integers(1, 4))
    prev = None
    for k in range(n):
        if rng.random() < .5:
            sp = elems.gen(rng, [f], 'trl', 'passive')
            sp['kw']['L'] = float(rng.uniform(.05, .9) * elems.C0 / f)
        else:
            ln = line.gen(rng, f, vary=True, losses=True)
            sp = dict(kind='line', n=2, line=ln, kw=dict(Zbase=Zb))
            if rng.random() < .4:
                sp['kw']['xpos'] = float(np.round(rng.uniform(-2, 2), 3))
        spec['ops'].append(('add', f'L{k}', sp, ['a', 'b'] if rng.random() < .5 else None,
                            float(np.round(rng.uniform(-3, 3), 2)), None))
        p = prog.Model(dict(spec, ops=spec['ops'][-1:])).free
        if rng.random() < .5:
            p = p[::-1]
        if prev:
            spec['ops'].append(('con', (prev, p[0])))
        prev = p[1]
    u = rng.random()
    spec['ops'].append(('term', prev, {'Z': 0} if u < .4 else {'Y': 0} if u < .6 else
                        {'Z': complex(logu(rng, 1, 30), logu(rng, 1, 100))}))
    if rng.random() < .4:        # the same one level down
        spec = dict(kind='circ', Zbase=float(logu(rng, 10, 100)), Portnames=None, Id='outer',
                    ops=[('add', 'in', spec, ['p'], float(np.round(rng.uniform(-3, 3), 2)), None)])
    m = prog.Model(spec)
    m.check(f)
    prog.observe(ctx, spec)
    c = prog.build(ctx.rf, spec)
    ctx.desc(program=prog.text(spec), f=f)
    E = excite(rng, m.order(), False)
    kind, T = judge(ctx, rng, c, m, f, E, zb(rng))
    ctx.nontrivial(prog.shape(spec), kind)


def history(ctx, rng):
    """after modifications, with other calls in between"""
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=1, share=0)
    h = hist.Hist(ctx, rng, fs, spec)
    ctx.desc(program=prog.text(spec), freqs=fs, log=h.log)
    for _ in range(int(rng.integers(2, 5))):
        if rng.random() < .7:
            h.modify(['set', 'reterm', 'direct', 'set'])
        if rng.random() < .5:
            h.query()
        m = h.model()
        if m.ambiguous():
            raise Skip('ambiguous node names')
        judge(ctx, rng, h.c, m, pick(rng, fs), excite(rng, m.order()), zb(rng), positions=False)
    ctx.nontrivial(prog.shape(spec), [l.split()[0] for l in h.log])


def element(ctx, rng):
    """the elements' own maxV"""
    f = prog.freqs(rng, 1)[0]
    k = pick(rng, ['trl', 'rlc', 'base', 'obj', 'arc', 'cpl', 'line'])
    if k == 'line':
        sp = dict(kind='line', n=2, line=line.gen(rng, f), kw=dict(Zbase=float(logu(rng, 5, 300))))
    else:
        sp = elems.gen(rng, [f], k)
    o = elems.make(ctx.rf, sp)
    ports = elems.port_names(sp)
    Z0 = sp['kw'].get('Zbase', 50.)
    Z = None if rng.random() < .4 else float(logu(rng, 3, 300))
    ctx.desc(element=elems.describe(sp), f=f, Zbase=Z)
    E = excite(rng, ports)
    a = np.array([E[p] for p in ports])
    A, B = elems.ref(sp, f, 50.)
    S = elems.AB_to_S(A, B, Z or Z0)
    b = S @ a
    V, I = np.abs(a + b), (a - b) / (Z or Z0)
    want = V.max()
    r = o.maxV(f, dict(E)) if Z is None else o.maxV(f, dict(E), Zbase=Z) if rng.random() < .5 else o.maxV(f, dict(E), Z)
    ctx.ok(len(r) == 3, 'maxV: three results')
    if k in ('trl', 'line'):
        x = np.linspace(0, length(sp), 1000 if k == 'trl' else 300)
        if length(sp):
            want = max(want, inside(sp, f, (a + b)[0], I[0], x).max())
        ctx.ok(abs(float(r[0]) - want) <= TOL * want, f'maxV of a {k}', got=r[0], want=want)
        xs, vs = r[2]
        ctx.close(np.asarray(vs), inside(sp, f, (a + b)[0], I[0], np.asarray(xs, float) - xs[0]),
                  'standing wave', tol=0, atol=1e-5 * max(want, 1e-3))
        ctx.close(xs[-1] - xs[0], length(sp), 'length covered', tol=1e-9)
    else:
        ctx.close(float(r[0]), want, f'maxV of a {k}', tol=1e-7)
        p = r[1].split('.')[-1]
        ctx.ok(p in ports and abs(V[ports.index(p)] - want) <= 1e-7 * max(want, 1e-9), f'place of the maximum of a {k}',
               got=r[1], want=dict(zip(ports, V)))
    ctx.ev('element maxima')
    ctx.nontrivial(k, len(ports), sorted(sp['kw']), Z is None)


def sampled(ctx, rng):
    """the maximum of a sampled curve"""
    n = int(rng.integers(1, 60))
    even = rng.random() < .6
    xs = np.linspace(0, 1, n) if even else np.cumsum(rng.uniform(.3, 1., n))
    xs = float(rng.uniform(-3, 3)) + logu(rng, .01, 100) * (xs - xs[0]) / (xs[-1] - xs[0] or 1)
    u = rng.random()
    x0, x1 = xs[0], xs[-1]
    L = x1 - x0
    fun = top = None
    if u < .3 and L:
        xv, q, c = x0 + L * rng.uniform(-.5, 1.5), rng.choice([-1, 1]) * logu(rng, .01, 100) / L**2, rng.uniform(-2, 50)
        fun = lambda x: c + q * (x - xv)**2
        k = np.searchsorted(xs, xv)
        found = q < 0 and n > 2 and 0 < k < n and 0 < np.argmax(fun(xs)) < n - 1
        top = c if found else max(fun(x0), fun(x1))
        tol = 1e-6
        kind = 'parabola'
    elif u < .65 and L:
        n = max(n, 8)
        xs = np.linspace(x0, x1, n)
        w = n / L * rng.uniform(.02, .35)            # radians per sample
        b, ph = complex(*rng.uniform(-.9, .9, 2)), rng.uniform(0, 7)
        fun = lambda x: np.abs(np.exp(-.5j * w * x) + b * np.exp(1j * ph + .5j * w * x))
        top, tol, kind, even = fun(np.linspace(x0, x1, 20001)).max(), 8e-3, 'standing wave', True
    else:
        kind = 'samples'
        ys = rng.uniform(-1, 5, n) if rng.random() < .5 else rng.integers(0, 4, n).astype(float)
    if fun:
        ys = fun(xs)
    form = pick(rng, ['array', 'list'])
    a, b_ = (xs.copy(), ys.copy()) if form == 'array' else (xs.tolist(), ys.tolist())
    r = ctx.rf.maxfun(a, b_)
    ctx.desc(kind=kind, xs=xs, ys=ys, form=form)
    ctx.same([list(a), list(b_)], [list(xs), list(ys)], 'arguments of maxfun')
    ctx.ok(len(r) == 2, 'maxfun: place and value', got=r)
    x, y = float(r[0]), float(r[1])
    R = max(np.ptp(ys), 1e-9)
    ctx.ok(x0 - 1e-9 * (L + abs(x0)) <= x <= x1 + 1e-9 * (L + abs(x1)), 'maxfun: place inside the data', got=r)
    ctx.ok(y >= ys.max() - 1e-7 * R, 'maxfun: below the largest sample', got=r, want=ys.max())
    if even:
        ctx.ok(y <= ys.max() + np.abs(np.diff(ys)).max(initial=0) / 8 + 1e-7 * R, 'maxfun: above what the data allow', got=r, want=ys.max())
    if fun:
        ctx.close(y, top, f'maxfun of a {kind}', atol=tol * R + 1e-9 * abs(top), tol=0)
        ctx.close(fun(x), top, f'maxfun of a {kind}: at its place', atol=3 * tol * R + 1e-9 * abs(top), tol=0)
    elif y <= ys.max() + 1e-9 * R:
        k = np.argmin(np.abs(xs - x))
        ctx.ok(abs(xs[k] - x) > 1e-6 * L or abs(ys[k] - ys.max()) <= 1e-6 * R, 'maxfun: place of the largest sample', got=r)
    ctx.ev('sampled curves')
    ctx.nontrivial(kind, n, form, even)


SCENARIOS = [('sampled', sampled, 2), ('matrices', matrices, 2), ('flat', flat, 3), ('nested', nested, 3), ('shorted', shorted, 2), ('history', history, 2), ('element', element, 2)]
MIN_EVENTS = {'sampled curves': 100, 'maxima compared': 400, 'line samples': 5000, 'node voltages in standing wave data': 2000,
              'maximum at a line': 30, 'maximum at a node': 100, 'element maxima': 60, 'scaled excitations': 100}
