"""C18: positions are consistent through every level of a circuit"""
import copy
import numpy as np
from .. import prog, elems, hist
from ..core import Skip
from ..common import *
from ..elems import pick, logu

RULE = ('random programs with block offsets and element port positions on all levels are built; after every '
        'single building step, after queries, announced orders, further terminations, de-embedding and '
        'resolve_xpos the positions reported for every node of every level (getpos), of the external ports '
        '(xpos against the port list of that moment) and of the standing wave data are compared with the sum of '
        'offsets of an independent model; non-trivial: at least one offset and one junction, termination or '
        'nested level; distinct by program structure')
ASSUMPTIONS = ASSUME + ['positions are those at the time of building: changing the length of a line or exchanging a '
                        'block afterwards is not followed', 'a port created by a junction is placed where the first '
                        'existing port of that junction is']
QUICK, THOROUGH = 10000, 60000


def directed(spec, rng, seen=None):
    """gives some lines explicit positions for both ends, in either direction and at another scale"""
    seen = set() if seen is None else seen
    for o in spec['ops']:
        if o[0] == 'add':
            ch = o[2]
            if ch['kind'] == 'circ':
                directed(ch, rng, seen)
            elif ch['kind'] == 'trl' and ch['kw']['L'] > 0 and id(ch) not in seen and rng.random() < .4:
                ch['kw']['xpos'] = [float(v) for v in np.round(rng.uniform(-3, 3, 2), 3)]
            seen.add(id(ch))
    return spec


def cmp_ports(ctx, c, m, what):
    ctx.ok(sorted(c.ports) == sorted(m.free), f'ports ({what})', got=c.ports, want=m.free)
    ctx.ok(len(c.xpos) == len(c.ports), f'number of positions ({what})', got=c.xpos, ports=c.ports)
    ctx.close(np.array(c.xpos, float), np.array([m.pos[p] for p in c.ports], float),
              f'positions of the external ports ({what})', tol=1e-9, ports=list(c.ports))
    ctx.ev('external port positions', len(c.ports))


def cmp_all(ctx, c, m, what, amb):
    cmp_ports(ctx, c, m, what)
    for p, x in (dict(m.pos) if amb else m.allpos()).items():
        ctx.close(float(c.getpos(p)), x, f'position of {p} ({what})', tol=1e-9)
        ctx.ev('node positions')
    if not m.nested:
        return
    ctx.ev('nested node positions', len(m.nested))


def steps(ctx, rng, **kw):
    fs = prog.freqs(rng)
    spec = directed(prog.gen_circuit(rng, fs, **kw), rng)
    full = prog.Model(spec)
    amb = full.ambiguous()
    prog.observe(ctx, spec)
    ctx.desc(program=prog.text(spec))
    c = build(ctx, spec, amb, probe=rng.random() < .5)
    # queries
    log = []
    try:
        full.check(fs[0])
        E = excite(rng, full.order())
        for _ in range(int(rng.integers(1, 4))):
            u = int(rng.integers(5))
            log.append(u)
            if u == 0:
                c.getS(pick(rng, fs))
            elif u == 1:
                c.Solution(fs[0], dict(E))
            elif u == 2:
                c.maxV(fs[0], dict(E))
            elif u == 3:
                c.getS(fs)
            else:
                c.resolve_xpos()
            cmp_all(ctx, c, full, f'after query {u}', amb)
            ctx.ev('positions after queries')
    except Skip:
        pass
    c.resolve_xpos()
    cmp_all(ctx, c, full, 'after resolve_xpos', amb)
    ctx.ev('resolve_xpos')
    n = prog.size(spec)
    if (any(full.allpos().values())) and n[2] + n[3] + n[4]:
        ctx.nontrivial(prog.shape(spec))


def build(ctx, spec, amb, probe=True):
    """builds step by step (all levels), comparing after every step"""
    env = {}

    def obj(sp):
        key = sp.get('share')
        if key is not None and key in env:
            return env[key]
        if sp['kind'] != 'circ':
            o = elems.make(ctx.rf, sp)
        else:
            kw = {k: (list(sp[k]) if k == 'Portnames' else sp[k]) for k in ('Portnames', 'Id') if sp.get(k)}
            o = ctx.rf.rfCircuit(Zbase=sp['Zbase'], **kw)
            m = prog.Model(dict(sp, ops=[]))
            for op in sp['ops']:
                if op[0] == 'add':
                    _, name, child, ports, relpos, params = op
                    ch = obj(child)
                    k = {}
                    if ports is not None:
                        k['ports'] = copy.deepcopy(ports)
                    if relpos:
                        k['relpos' if ctx.cases % 3 else 'xpos'] = relpos
                    o.addblock(name, ch, **k)
                else:
                    prog.do(ctx.rf, o, op)
                m.apply(op)
                if probe:
                    cmp_all(ctx, o, m, f'after {op[0]} {op[1]}', amb)
                    ctx.ev('building steps observed')
        if key is not None:
            env[key] = o
        return o
    return obj(spec)


def flat(ctx, rng):
    steps(ctx, rng, depth=0)


def nested(ctx, rng):
    steps(ctx, rng, depth=int(rng.integers(1, 4)), force_nested=True)


def later(ctx, rng):
    """further terminations and announced orders after the circuit has been used"""
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=1, share=0, portnames=0, minext=2)
    h = hist.Hist(ctx, rng, fs, spec)
    amb = h.model().ambiguous()
    prog.observe(ctx, spec)
    ctx.desc(program=prog.text(spec), log=h.log)
    cmp_all(ctx, h.c, h.model(), 'built', amb)
    n = 0
    for _ in range(int(rng.integers(3, 8))):
        if rng.random() < .6:
            n += bool(h.modify(['term', 'Portnames', 'reterm', 'Portnames']))
        else:
            h.query()
            n += 1
        cmp_all(ctx, h.c, h.model(), f'after {h.log[-4:]}', amb)
        ctx.ev('positions during a history')
    if n > 1:
        ctx.nontrivial(prog.shape(spec), [l.split()[0] for l in h.log])


def used(ctx, rng):
    """a circuit that has been used, re-ordered and terminated is placed in another one: its positions count
    as they are then, each for its own port"""
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=1, share=0, portnames=0, minext=2, maxext=4)
    h = hist.Hist(ctx, rng, fs, spec)
    if h.model().ambiguous():
        raise Skip('ambiguous node names')
    for _ in range(int(rng.integers(1, 5))):
        h.modify(['term', 'Portnames', 'reterm', 'Portnames']) if rng.random() < .6 else h.query()
    m = h.model()
    m.check(fs[0])
    h.c.getS(fs[0])
    x0 = float(np.round(rng.uniform(-5, 5), 3))
    n = len(m.free)
    ren = None if rng.random() < .4 else [f'e{k}' for k in rng.permutation(n)]
    top = dict(kind='circ', Zbase=50., Portnames=None, Id=None,
               ops=[('add', 'TOP', dict(h.spec, Portnames=list(h.c.ports)), ren, x0, None)])
    mt = prog.Model(top)
    if mt.ambiguous():
        raise Skip('ambiguous node names')
    c = ctx.rf.rfCircuit()
    c.addblock('TOP', h.c, relpos=x0, **({} if ren is None else dict(ports=list(ren))))
    ctx.desc(program=prog.text(h.spec), log=h.log, relpos=x0, ports=ren)
    cmp_all(ctx, c, mt, 'placed after use', False)
    E = excite(rng, c.ports)
    _, _, V = c.maxV(fs[0], dict(E))
    V = V[c.Id]
    for p in mt.pos:
        ctx.close(float(V[p][0][0]), mt.pos[p], f'standing wave data: position of {p}', tol=1e-9)
    for p in m.pos:
        ctx.close(float(V['TOP'][p][0][0]), x0 + m.pos[p], f'standing wave data: position of TOP.{p}', tol=1e-9)
        ctx.ev('standing wave positions')
    compS(ctx, c, mt, fs[0], what='response of the circuit placed')
    ctx.nontrivial(prog.shape(h.spec), [l.split()[0] for l in h.log], ren is None)


def waves(ctx, rng):
    """standing wave data of lines and ports on several levels"""
    fs = prog.freqs(rng, 1)
    spec = prog.gen_circuit(rng, fs, depth=2, kinds=['trl', 'trl', 'trl', 'rlc', 'base', 'arr', 'cpl'], force_nested=rng.random() < .7)
    directed(spec, rng)
    m = prog.Model(spec)
    m.check(fs[0])
    c = prog.build(ctx.rf, spec)
    ctx.desc(program=prog.text(spec), f=fs[0])
    E = excite(rng, m.order())
    V = c.maxV(fs[0], dict(E))[2][c.Id]

    def walk(m, d, off, prefix):
        for p, x in m.pos.items():
            ctx.close(float(d[p][0][0]), off + x, f'standing wave data: position of {prefix}{p}', tol=1e-9)
            ctx.ev('standing wave positions')
        for b, (child, _, relpos) in m.blocks.items():
            x0 = off + relpos
            if child['kind'] == 'circ':
                walk(m.subs[b], d[b], x0, f'{prefix}{b}.')
            elif child['kind'] == 'trl':
                xs, a = np.asarray(d[b][0], float), elems.port_xpos(child)
                ctx.close([xs[0], xs[-1]], [x0 + a[0], x0 + a[1]], f'ends of line {prefix}{b}', tol=1e-9)
                ctx.ok(np.all(np.diff(xs) * np.sign(a[1] - a[0]) >= 0), f'order of the samples of line {prefix}{b}')
                if len(xs) > 2:
                    ctx.close(np.diff(xs), np.full(len(xs) - 1, (xs[-1] - xs[0]) / (len(xs) - 1)),
                              f'spacing of the samples of line {prefix}{b}', tol=1e-9)
                # each sample at its place
                t, ts = next((lf, ts) for p, lf, _, ts in top.net.leaves if p == prefix + b)
                g, zc = elems.line_gz(t['kw'], fs[0])
                s = (xs - xs[0]) * (t['kw']['L'] / (a[1] - a[0]) if a[1] != a[0] else 0)
                want = np.abs(Vt[ts[0]] * np.cosh(g * s) - zc * It[ts[0]] * np.sinh(g * s))
                if a[1] != a[0]:
                    ctx.close(np.asarray(d[b][1]), want, f'voltages along line {prefix}{b}', tol=0, atol=1e-5 * max(1., np.abs(Vt).max(), want.max()))
                ctx.ev('lines in reverse', a[1] < a[0])
                ctx.ev('lines placed')
            elif child['kind'] in ('base', 'cpl') and isinstance(d[b], dict):
                for p, x in zip(elems.port_names(child), elems.port_xpos(child)):
                    ctx.close(float(d[b][p][0][0]), x0 + x, f'position of port {p} of {prefix}{b}', tol=1e-9)
                    ctx.ev('element ports placed')
    top = m
    Vt, It = m.raw(fs[0], E)
    walk(m, V, 0., '')
    if any(m.allpos().values()):
        ctx.nontrivial(prog.shape(spec))


def deembed(ctx, rng):
    """positions of the ports left by de-embedding"""
    n = int(rng.integers(2, 6))
    x = [float(v) for v in np.round(rng.uniform(-5, 5, n), 3)]
    S = elems.rand_S(rng, n)
    names = elems.names(rng, n)
    x0 = float(np.round(rng.uniform(-5, 5), 3))
    c = ctx.rf.rfCircuit()
    c.addblock('D', ctx.rf.rfBase(ports=list(names), xpos=list(x), fs=[1e6], Ss=S[None]), relpos=x0)
    pos = {f'D.{p}': x0 + v for p, v in zip(names, x)}
    k = int(rng.integers(1, n))
    free = [f'D.{p}' for p in names]
    sel = [free[i] for i in rng.permutation(n)]
    ints = {p: f'i{j}' for j, p in enumerate(sel[:k])}
    rest = sel[k:]
    ext = [(rest[0], rest[1])] if len(rest) > 2 and rng.random() < .5 else []
    ctx.desc(positions=pos, IntPorts=ints, ExtPorts=ext)
    c.deembed(dict(ints) if rng.random() < .5 else list(ints.items()),
              dict(ext) if rng.random() < .5 else ext)
    want = {**{p: pos[p] for p in rest if not any(p in t for t in ext)}, **{q: pos[p] for p, q in ints.items()}}
    ctx.ok(sorted(c.ports) == sorted(want), 'ports left', got=c.ports, want=want)
    ctx.close(np.array(c.xpos, float), np.array([want[p] for p in c.ports]), 'positions of the ports left', tol=1e-9, ports=c.ports)
    for p, v in {**pos, **want}.items():
        ctx.close(float(c.getpos(p)), v, f'position of {p} after de-embedding', tol=1e-9)
    ctx.ev('de-embedded circuits')
    ctx.nontrivial(n, k, len(ext))


def element(ctx, rng):
    """the elements' own positions"""
    fs = prog.freqs(rng, 3)
    sp = elems.gen(rng, fs, pick(rng, ['base', 'obj', 'rlc', 'trl', 'arc', 'cpl']))
    if sp['kind'] == 'trl' and rng.random() < .3:
        a = float(np.round(rng.uniform(-3, 3), 3))
        sp['kw']['xpos'] = [a, a + float(np.round(rng.uniform(0, 3), 3))]
    o = elems.make(ctx.rf, sp)
    ports, xs = elems.port_names(sp), elems.port_xpos(sp)
    ctx.desc(element=elems.describe(sp))
    pos = dict(zip(ports, xs))
    def look(what):
        ctx.ok(sorted(o.ports) == sorted(pos) and len(o.xpos) == len(o.ports), f'ports and positions ({what})', got=o.xpos)
        ctx.close(np.array(o.xpos, float), np.array([pos[p] for p in o.ports], float), f'positions ({what})', tol=1e-9)
        ctx.ev('element positions')
    look('new')
    for _ in range(int(rng.integers(1, 5))):
        u = int(rng.integers(4))
        if u == 0:
            o.getS(fs[0])
        elif u == 1 and sp['kind'] == 'trl' and not isinstance(sp['kw'].get('xpos'), list):
            L = float(rng.uniform(.1, 3))
            o.set(L=L)
            pos[ports[1]] = pos[ports[0]] + L
        elif u == 2 and sp['kind'] == 'obj':
            o.sortports([ports[i] for i in rng.permutation(len(ports))])
        elif u == 3 and sp['kind'] == 'obj':
            o.deembed({pick(rng, ports): .1})
        look(f'after step {u}')
    # where the voltages are reported
    if sp['kind'] in ('base', 'cpl', 'rlc', 'arc'):
        P, Z0 = list(o.ports), sp['kw'].get('Zbase', 50.)
        E = excite(rng, P)
        S = elems.AB_to_S(*elems.ref(sp, fs[0], 50.), Z0)
        ix = [ports.index(p) for p in P]
        a = np.array([E[p] for p in P])
        V = np.abs(a + S[np.ix_(ix, ix)] @ a)
        here = [pos[p] for p in P]
        if sp['kind'] != 'rlc':
            u = int(rng.integers(4))
            dx = float(np.round(rng.uniform(-5, 5), 2))
            own = [float(v) for v in np.round(rng.uniform(-5, 5, len(P)), 2)]
            kw = [{}, dict(xpos=dx), dict(xpos=own), dict(xpos=np.array(own))][u]
            where = here if u == 0 else [x + dx for x in here] if u == 1 else own
            d = o.maxV(fs[0], dict(E), Zbase=Z0, Id='me', **kw)[2]
            ctx.ok(list(d) == ['me'] and sorted(d['me']) == sorted(P), 'ports of which voltages are reported', got=d)
            got = [(float(d['me'][p][0][0]), float(d['me'][p][1][0])) for p in P]
            ctx.raises(lambda: o.maxV(fs[0], dict(E), Zbase=Z0, xpos=own + [0.]), 'positions of other than the ports')
        else:
            where = here
            d = o.maxV(fs[0], dict(E), Zbase=Z0)[2]
            got = list(zip(d[0], d[1]))
        ctx.close(np.array([g[0] for g in got], float), np.array(where), 'positions of the reported voltages', tol=1e-9)
        ctx.close(np.array([abs(g[1]) for g in got], float), V, 'reported voltages', tol=1e-6)
        ctx.ev('reported voltages', len(P))
    # placed
    c = ctx.rf.rfCircuit()
    x0 = float(np.round(rng.uniform(-3, 3), 3))
    c.addblock('E', o, relpos=x0)
    for p in o.ports:
        ctx.close(float(c.getpos(f'E.{p}')), x0 + pos[p], f'position of {p} when placed', tol=1e-9)
    if any(pos.values()):
        ctx.nontrivial(sp['kind'], sorted(sp['kw']), len(ports))


SCENARIOS = [('flat', flat, 2), ('nested', nested, 3), ('later', later, 2), ('used', used, 2), ('waves', waves, 2),
             ('deembed', deembed, 1), ('element', element, 2)]
MIN_EVENTS = {'lines in reverse': 20, 'node positions': 5000, 'nested node positions': 2000, 'building steps observed': 1000,
              'standing wave positions': 2000, 'lines placed': 150, 'de-embedded circuits': 50, 'element positions': 300, 'reported voltages': 100}
