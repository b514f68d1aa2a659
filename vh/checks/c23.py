"""C23: a refused operation leaves no trace"""
import copy, os
import numpy as np
from .. import prog, elems, hist
from ..core import Skip
from ..common import *
from ..elems import pick, logu, W
from . import c10

RULE = ('random circuits are built and lived with (queries, settings, replacements, terminations on any level) while '
        'invalid requests of every kind are made in between to the circuit, to its sub-circuits and to its elements; each '
        'has to be refused, to leave ports, positions and block lists as they were and every later question and operation '
        'has to come out as in the reference model and in a twin that never saw the refused requests; the same for tables, '
        'single elements, constructions and files that are written (an existing file stays as it was); non-trivial: refused requests followed by further valid operations')
ASSUMPTIONS = ASSUME + ['only requests the library checks for are refused (e.g. equal port names in one list are not)']
QUICK, THOROUGH = 6500, 100000

ERR = (ValueError, TypeError, KeyError, AttributeError, IndexError, RuntimeError, NotImplementedError, OSError)


def dummy(ctx, rng, n):
    """an object with n ports"""
    rf = ctx.rf
    k = int(rng.integers(4))
    if k == 0:
        return np.zeros((n, n))
    if k == 1:
        return rf.rfBase(Ss=np.zeros((1, n, n)), fs=[1e6], ports=[f'q{i}' for i in range(n)])
    if k == 2:
        c = rf.rfCircuit(Zbase=77.)
        c.addblock('D', np.zeros((n, n)))
        return c
    o = rf.rfObject(ports=[f'q{i}' for i in range(n)])
    o.setS(1e6, np.zeros((n, n)))
    return o


def newblock(ctx, rng, m):
    """requests for a new block (valid name) that have to be refused: [(what, function of the circuit)]"""
    n = int(rng.integers(1, 4))
    o, a = dummy(ctx, rng, n), np.zeros((n, n))
    name = 'NEWB'
    cp = ctx.rf.rfBase(Ss=np.zeros((1, n, n)), fs=[1e6])
    bad = ctx.rf.rfCircuit(Portnames=['D.1', 'nope'])
    bad.addblock('D', np.zeros((2, 2)))
    return [('list of ports too long', lambda c: c.addblock(name, o, ports=[f'z{i}' for i in range(n + 1)])),
            ('list of ports too short', lambda c: c.addblock(name, o, ports=[f'z{i}' for i in range(n - 1)])),
            ('unknown port in mapping', lambda c: c.addblock(name, cp, ports={'1': 'x', 'nope': 'y'})),
            ('mapping for an array', lambda c: c.addblock(name, a, ports={'1': 'x'})),
            ('ports of a wrong type', lambda c: c.addblock(name, o, ports=5)),
            ('pattern without number', lambda c: c.addblock(name, o, ports='abc')),
            ('no object', lambda c: c.addblock(name, 5.)),
            ('invalid position', lambda c: c.addblock(name, o, relpos='abc')),
            ('announced ports of the block do not match', lambda c: c.addblock(name, bad)),
            ('unknown block', lambda c: c.addblock(f'{name}.x', o))]


def oldblock(ctx, rng, m):
    """invalid replacements"""
    name = pick(rng, list(m.blocks))
    child, ports, _ = m.blocks[name]
    res = [('replacement with another number of ports',
            lambda c: c.addblock(name, dummy(ctx, rng, len(ports) + int(rng.integers(1, 3))))),
           ('replacement without ports', lambda c: c.addblock(name, None))]
    if len(ports) > 1:
        res.append(('replacement with less ports', lambda c: c.addblock(name, dummy(ctx, rng, len(ports) - 1))))
    if child['kind'] != 'circ':
        res.append(('block of an element', lambda c: c.addblock(name + '.x', dummy(ctx, rng, 1))))
    else:
        path, sub = pick(rng, [(f'{name}.{p}', s) for p, s in hist.paths(child)])
        n = n_of(sub)
        res += [('nested replacement with another number of ports',
                 lambda c: c.addblock(path, dummy(ctx, rng, n + 1)))] * 3
        res.append(('unknown nested block', lambda c: c.addblock(f'{name}.nope.x', dummy(ctx, rng, 1))))
        if sub['kind'] != 'circ':
            res.append(('block of a nested element', lambda c: c.addblock(path + '.x', dummy(ctx, rng, 1))))
    return res


def n_of(sp):
    return len(prog.Model(sp).order()) if sp['kind'] == 'circ' else sp['n']


def wiring(ctx, rng, m, free=True):
    used = [p for p in m.ports if p not in m.free]
    f = pick(rng, m.free) if m.free else None
    g = [m.free[i] for i in rng.permutation(len(m.free))]
    res = [('two new ports', lambda c: c.connect('new1', 'new2')),
           ('only a new port', lambda c: c.connect('new1')),
           ('nothing', lambda c: c.connect())]
    if f:
        res += [('two new ports and an old one', lambda c: c.connect(f, 'new1', 'new2')),
                ('new port with a dot', lambda c: c.connect(f, 'new.1')),
                ('the same port twice', lambda c: c.connect(f, f)),
                ('the same port twice and a new one', lambda c: c.connect(f, 'new1', f)),
                ('not a port', lambda c: c.connect(f, 3)),
                ('new ports twice', lambda c: c.connect(f, 'new1', 'new1'))]
    if used:
        u = pick(rng, used)
        res += [('used port', lambda c: c.connect(u)), ('used port and a new one', lambda c: c.connect(u, 'new1')),
                ('used ports', lambda c: c.connect(*used))]
        if f:
            res += [('used port last', lambda c: c.connect(*g, u))] * 2
            res += [('used port first', lambda c: c.connect(u, *g)),
                    ('new port and used port last', lambda c: c.connect('new1', *g, u))]
    return res


def loads(ctx, rng, m):
    joined = [p for p in m.ports if p not in m.free and p not in m.termd]
    res = [('unknown port', lambda c: c.terminate('nope', Z=5.)), ('unknown nested port', lambda c: c.terminate('Q.1', RC=0.))]
    for p in joined[:2]:
        res.append(('joined port', lambda c, p=p: c.terminate(p, Z=5.)))
    for p in ([pick(rng, m.free)] * 2 if m.free else []) + ([pick(rng, list(m.termd))] if m.termd else []):
        res += [('two loads', lambda c, p=p: c.terminate(p, Z=5., Y=1.)),
                ('unknown keyword', lambda c, p=p: c.terminate(p, R=5.)),
                ('load and unknown keyword', lambda c, p=p: c.terminate(p, Z=5., foo=1.)),
                ('load of a wrong type', lambda c, p=p: c.terminate(p, Z='a')),
                ('reflection coefficient of a wrong type', lambda c, p=p: c.terminate(p, RC='a')),
                ('reflection coefficient with a wrong size', lambda c, p=p: c.terminate(p, RC=[.1, .2])),
                ('Y of a wrong type', lambda c, p=p: c.terminate(p, Y='a'))]
    return res


def settings(ctx, rng, m, spec):
    leaves = hist.settables(spec)
    res = [('unknown block', lambda c: c.set('nope.L', 3.)), ('unknown block (dict)', lambda c: c.set({'nope': {'L': 3.}})),
           ('odd number of arguments', lambda c: c.set('nope'))]
    if leaves:
        path, leaf = pick(rng, leaves)
        q, leaf2 = pick(rng, leaves)
        v = dict([hist.newvalue(rng, leaf, 1e7, same=0)])
        w = dict([hist.newvalue(rng, leaf2, 1e7, same=0)])
        a = list(v)[0]
        for k, fun in hist.set_forms(path, dict(v, nope=3.)):
            # (several separate calls are not one operation)
            if k != 'dotted attr':
                res.append((f'unknown attribute ({k})', fun))
        res += [('unknown attribute', lambda c: c.set(f'{path}.nope', 3.)),
                ('valid, then unknown attribute elsewhere', lambda c: c.set({path: dict(v), q: dict(w, nope=1.)})),
                ('valid, then unknown block', lambda c: c.set((f'{path}.{a}', v[a]), ('nope.L', 3.))),
                ('valid, then unknown block (dict)', lambda c: c.set({path: dict(v), 'nope': {'L': 3.}})),
                ('attribute of an attribute', lambda c: c.set(f'{path}.{a}.x', 3.)),
                ('element: unknown attribute', lambda c: c.object(path).set(**dict(v, nope=3.)))] * 2
    return res


def asking(ctx, rng, m, spec, f, nested):
    """invalid questions (these end the building)"""
    o = m.order()
    leaves = hist.settables(spec)
    E = {p: 1. for p in o}
    res = [('excitation without ports', lambda c: c.Solution(f, {})), ('maxV without excitation', lambda c: c.maxV(f, {})),
           ('excitation of unknown ports', lambda c: c.Solution(f, {'nope': 1.})),
           ('maxV of unknown ports', lambda c: c.maxV(f, {'nope': 1.})),
           ('position of an unknown node', lambda c: c.getpos('nope')),
           ('position of an unknown nested node', lambda c: c.getpos(pick(rng, list(m.blocks)) + '.nope')),
           ('unknown block', lambda c: c.object('nope')),
           ('unknown internal node', lambda c: c.Get_internalSmatrix(f, ['nope'])),
           ('too many nodes', lambda c: c.Get_internalSmatrix(f, o + [pick(rng, list(m.ports))])),
           ('invalid Zbase', lambda c: c.getS(f, Zbase='a')),]
    if len(o) > 1:
        res += [('incomplete excitation', lambda c: c.Solution(f, {p: 1. for p in o[:-1]})),
                ('incomplete excitation (maxV)', lambda c: c.maxV(f, {p: 1. for p in o[:-1]})),]
    if leaves:
        path, leaf = pick(rng, leaves)
        q, _ = pick(rng, leaves)
        v = dict([hist.newvalue(rng, leaf, f, same=0)])
        res += [('params with an unknown attribute', lambda c: c.getS(f, params=hist.as_kwargs(path, dict(v, nope=3.)))),
                ('params with an unknown attribute elsewhere',
                 lambda c: c.getS([f], params=merge(hist.as_kwargs(path, dict(v)), hist.as_kwargs(q, {'nope': 1.}))))] * 2
    # frequencies that are not available
    if any(s['kind'] == 'base' for _, s in hist.paths(spec)):
        res += [('frequency not available', lambda c: c.getS(f * 1.2345)),
                ('frequency not available (maxV)', lambda c: c.maxV(f * 1.2345, dict(E)))] * 2

    def order(c, l):
        old = c.Portnames
        c.Portnames = l
        try:
            c.getS(f)
        finally:
            c.Portnames = old
    res += [('wrong announced order', lambda c: order(c, o + ['nope'])),
            ('wrong announced names', lambda c: order(c, [*o[:-1], 'nope']))]
    return res


def merge(a, b):
    a = dict(a)
    for k, v in b.items():
        a[k] = merge(a[k], v) if k in a else v
    return a


def removal(ctx, rng, m):
    """invalid de-embedding requests (for circuits that are being built)"""
    o = list(m.free)
    used = [p for p in m.ports if p not in m.free]
    res = [('unknown port', lambda c: c.deembed([('nope', 'x')])), ('not a list of pairs', lambda c: c.deembed([('a',)])),
           ('not a list', lambda c: c.deembed('abc')), ('unknown ports joined', lambda c: c.deembed([], [('nope', 'nope2')]))]
    if o:
        p = pick(rng, o)
        res += [('existing port as new one', lambda c: c.deembed([(p, pick(rng, list(m.ports)))])),
                ('one port twice', lambda c: c.deembed([(p, 'x'), (p, 'y')])),
                ('valid, then unknown', lambda c: c.deembed([(p, 'x'), ('nope', 'y')])),
                ('valid, then unknown pair', lambda c: c.deembed({p: 'x'}, {'nope': 'y'})),
                ('port joined with itself', lambda c: c.deembed({}, [(p, p)])),
                ('port joined after removal', lambda c: c.deembed({p: 'x'}, [(p, 'x')]))]
    if len(o) > 1:
        res += [('new port twice', lambda c: c.deembed([(o[0], 'x'), (o[1], 'x')])),
                ('joined, then unknown', lambda c: c.deembed([], [(o[0], o[1]), (o[0], 'nope')]))]
    if used and o:
        u = pick(rng, used)
        res += [('used port', lambda c: c.deembed([(u, 'x')])), ('used port joined', lambda c: c.deembed([], [(o[0], u)]))]
    return res


def look(c, m):
    """the observable state that does not require an answer"""
    return dict(ports=list(c.ports), n=len(c), xpos=[float(x) for x in c.xpos], blocks=list(c.listBlocks()),
                pos={p: float(c.getpos(p)) for p in m.allpos()})


def refuse(ctx, rng, c, m, reqs, log, n=1, where=''):
    for _ in range(n):
        what, fun = pick(rng, reqs)
        before = look(c, m)
        ctx.raises(lambda: fun(c), f'{where}{what}', ERR)
        log.append(f'refused: {where}{what}')
        ctx.same(look(c, m), before, f'ports, blocks or positions changed by the refused request: {where}{what}', log=log[-5:])


def building(ctx, rng):
    """refused requests between the steps of building"""
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=int(rng.integers(0, 2)), maxext=4)
    full = prog.Model(spec)
    prog.observe(ctx, spec)
    full.check(fs[0])
    log = []
    ctx.desc(program=prog.text(spec), log=log)
    names = set(full.ports) | set(full.blocks)
    if {'new1', 'new2', 'NEWB', 'nope', 'x', 'y'} & names:
        raise Skip('name in use')

    def hook(c, k):
        if any(c is s for s in shared):
            return
        m = prog.Model(spec, k + 1)
        log.append(' '.join(map(str, spec['ops'][k][:2])))
        for _ in range(int(rng.integers(0, 4))):
            reqs = [newblock(ctx, rng, m), oldblock(ctx, rng, m), wiring(ctx, rng, m), wiring(ctx, rng, m), loads(ctx, rng, m),
                    loads(ctx, rng, m), removal(ctx, rng, m), settings(ctx, rng, m, dict(spec, ops=spec['ops'][:k + 1]))]
            refuse(ctx, rng, c, m, pick(rng, reqs), log)
    shared = []
    c = ctx.rf.rfCircuit(Zbase=spec['Zbase'], **({'Portnames': list(spec['Portnames'])} if spec['Portnames'] else {}))
    env = {}
    # requests before the first block
    m0 = prog.Model(spec, 0)
    refuse(ctx, rng, c, m0, newblock(ctx, rng, m0) + wiring(ctx, rng, m0) + loads(ctx, rng, m0) + removal(ctx, rng, m0), log,
           int(rng.integers(0, 3)))
    for k, op in enumerate(spec['ops']):
        prog.do(ctx.rf, c, op, env)
        hook(c, k)
    d = prog.build(ctx.rf, spec)
    ctx.same(look(c, full), look(d, full), 'state after building with refused requests')
    f = fs[0]
    S, T = c.getS(fs), d.getS(fs)
    ctx.same(list(c.ports), list(d.ports), 'ports after building with refused requests')
    ctx.close(np.asarray(S), np.asarray(T), 'S-matrices after building with refused requests', tol=1e-9)
    compS(ctx, c, full, f, what='built with refused requests')
    E = excite(rng, full.order())
    comp_sol(ctx, c.Solution(f, dict(E)), full.solution(f, E), 'Solution after refused requests')
    n = sum(l.startswith('refused') for l in log)
    ctx.ev('refused while building', n)
    if n:
        ctx.nontrivial(prog.shape(spec), [l for l in log if l.startswith('refused')])


def living(ctx, rng):
    """refused requests between questions and modifications"""
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=int(rng.integers(0, 3)), maxext=4, share=0)
    h = hist.Hist(ctx, rng, fs, spec)
    prog.observe(ctx, spec)
    ctx.desc(program=prog.text(spec), log=h.log)
    n = 0
    for _ in range(int(rng.integers(3, 9))):
        u = rng.random()
        if u < .25:
            h.modify()
        elif u < .45:
            h.query()
        else:
            m = h.model()
            m.check(fs[0])
            if m.ambiguous():
                raise Skip('ambiguous node names')
            if {'new1', 'new2', 'NEWB', 'nope', 'x', 'y'} & (set(m.ports) | set(m.blocks)):
                raise Skip('name in use')
            nested = hist.paths(h.spec, kinds=('circ',))
            where, c, mm, sp = '', h.c, m, h.spec
            if nested and rng.random() < .3:
                path, sp = pick(rng, nested)
                where, c, mm = path + ': ', h.c.object(path), prog.Model(sp)
                mm.check(fs[0])
            reqs = [newblock(ctx, rng, mm), oldblock(ctx, rng, mm), oldblock(ctx, rng, mm), wiring(ctx, rng, mm),
                    loads(ctx, rng, mm), settings(ctx, rng, mm, sp), settings(ctx, rng, mm, sp)]
            ask = asking(ctx, rng, mm, sp, fs[0], bool(where))
            if not where:
                if not h.solved:
                    reqs.append(removal(ctx, rng, mm))
                r = pick(rng, reqs + [ask] * 2)
                if r is ask:
                    h.query(['S'])     # an order of the ports is found by the first question
            else:
                r = pick(rng, reqs)
            refuse(ctx, rng, c, mm, r, h.log, 1, where)
            n += 1
            if rng.random() < .3:
                h.query(['S'])
    h.final()
    if n:
        ctx.nontrivial(prog.shape(h.spec), h.log)
    ctx.ev('refused while living', n)


def answers(o, fs, E):
    res = dict(S=np.asarray(o.getS(fs)), ports=list(o.ports), xpos=list(o.xpos), n=len(o), Z=o.Zbase,
               T=np.asarray(o.getS(fs[0], Zbase=33.)))
    res['maxV'] = float(o.maxV(fs[0], dict(E))[0])
    return res


def elements(ctx, rng):
    """single elements"""
    fs = prog.freqs(rng)
    k = pick(rng, ['rlc', 'trl', 'arc', 'cpl', 'base'])
    sp = elems.gen(rng, fs, k)
    o, d = elems.make(ctx.rf, sp), elems.make(ctx.rf, sp)
    ctx.desc(element=elems.describe(sp))
    f = fs[0]
    E = excite(rng, list(o.ports))
    log = []

    def reqs():
        res = [('unknown attribute', lambda: o.set(nope=1.)),
               ('unknown attribute in params', lambda: o.getS(f, params={'nope': 1.})),
               ('excitation of unknown ports', lambda: o.maxV(f, {'nope': 1.})),
               ('invalid Zbase', lambda: o.getS(f, Zbase='a'))]
        if len(o.ports) > 1:
            res.append(('an unknown port in place of another', lambda: o.maxV(f, {(p if i else 'nope'): E[p] for i, p in enumerate(o.ports)})))
        if k in ('arc', 'cpl'):
            res.append(('unknown port', lambda: o.maxV(f, dict(E, nope=1.))))
        if k in ('cpl', 'rlc'):
            res.pop(1)        # (unknown params are ignored)
        if k in ('rlc', 'trl', 'arc'):
            a, v = hist.newvalue(rng, sp, f, same=0)
            res += [('valid and unknown attribute', lambda: o.set(**{a: v, 'nope': 1.})),
                    ('unknown and valid attribute', lambda: o.set(**{'nope': 1., a: v})),
                    ] * 2
            if k != 'rlc':
                res += [('valid and unknown attribute in params', lambda: o.getS([f], params={a: v, 'nope': 1.}))] * 2
        if k == 'base':
            res += [('unknown frequency', lambda: o.getS(f * 1.234)), ('unknown frequencies', lambda: o.getS([f, f * 1.234])),
                    ('unknown port', lambda: o.maxV(f, dict(E, nope=1.))),
                    ('unknown keyword', lambda: o.tsf2str(nope=1)),
                    ('unknown format', lambda: o.tsf2str(tfmt='# MHz S XY'))]
        return res
    n = int(rng.integers(1, 5))
    for _ in range(n):
        if rng.random() < .4:
            ctx.same(answers(o, fs, E), answers(d, fs, E), 'answers after ' + '; '.join(log[-4:]))
        if k in ('rlc', 'trl', 'arc') and rng.random() < .4:
            a, v = hist.newvalue(rng, sp, f)
            r = o.set(**{a: v})
            ctx.ok(bool(r) == bool(d.set(**{a: v})), 'outcome of set after ' + '; '.join(log[-4:]))
            log.append('set')
        what, fun = pick(rng, reqs())
        ctx.raises(fun, f'{k}: {what}', ERR)
        log.append(what)
        ctx.ev('refused by elements')
    ctx.same(answers(o, fs, E), answers(d, fs, E), 'answers after ' + '; '.join(log[-4:]))
    ctx.nontrivial(k, log)


def table(ctx, rng):
    """tables"""
    n = int(rng.integers(1, 4))
    o, t, kw = c10.newobj(ctx, rng, n)
    f0 = logu(rng, 1e5, 1e9)
    fun = c10.smooth(rng, n, f0, f0)
    log = []
    ctx.desc(options=kw, log=log)
    left = [float(f0 * (1 + .1 * i)) for i in rng.permutation(12)]

    def reqs():
        ports, k = list(o.ports), len(t.d)
        X = np.zeros((n + 1, n + 1))
        Y = np.zeros((n, n))
        res = [('S of a wrong size', lambda: o.setS(f0 * 7, X if ports else np.zeros((2, n, n)))),
               ('more frequencies than S', lambda: o.setS([f0 * 7, f0 * 8], Y)),
               ('less frequencies than S', lambda: o.setS([f0 * 7], np.zeros((2, n, n)))),
               ('S not square', lambda: o.setS(f0 * 7, np.zeros((1, n, n + 1)))),
               ('wrong number of names', lambda: o.setS(f0 * 7, Y, [f'r{i}' for i in range(n + 1)])),
               ('file that does not exist', lambda: o.read_tsf('does_not_exist.s2p'))]
        if ports:
            res += [('names again', lambda: o.setS(f0 * 7, Y, [f'r{i}' for i in range(n)])),
                    ('order of unknown ports', lambda: o.sortports(['nope'])),
                    ('deembed an unknown port', lambda: o.deembed({'nope': 1.})),
                    ('deembed with invalid data', lambda: o.deembed({ports[0]: 'a'})),
                    ('deembed, invalid tuple', lambda: o.deembed({ports[-1]: (1., 2., 3.)})),
                    ('deembed a valid and an unknown port', lambda: o.deembed({ports[0]: .2, 'nope': 1.}))]
        if len(ports) > 1 and k:
            res += [('duplicate ports in order', lambda: o.sortports([ports[0], ports[0]])),
                    ('deembed valid and invalid data', lambda: o.deembed({ports[0]: .2, ports[1]: 'a'})),
                    ('deembed valid and invalid keywords', lambda: o.deembed({ports[0]: .2, ports[1]: {'nope': 1.}}))] * 2
        if k:
            q = float(pick(rng, t.fs()))
            res += [('excitation of unknown ports', lambda: o.maxV(q, {'nope': 1.})), ('invalid Zbase', lambda: o.getS(q, Zbase='a')),
                    ('invalid new Zbase', lambda: o.convert2newZbase('a')),
                    ('entry that does not exist', lambda: o.__setitem__(k + 3, (f0 * 7, Y))),
                    ('entry of a wrong size', lambda: o.__setitem__(int(rng.integers(k)), (f0 * 7, X) if n > 1 else (f0 * 7, np.zeros((3, 1))))),
                    ('entry without S', lambda: o.__setitem__(0, (f0 * 7,)))]
        return res
    k = 0
    for _ in range(int(rng.integers(4, 12))):
        u = rng.random()
        if u < .35 and left:
            c10.insert(rng, o, t, [left.pop() for _ in range(min(len(left), int(rng.integers(1, 3))))], fun, not t.d)
            log.append('insert')
        elif u < .55 and t.d:
            c10.ask(ctx, rng, o, t, between=rng.random() < .6, what='query after ' + '; '.join(log[-5:]))
            log.append('query')
        else:
            st = state(o)
            what, r = pick(rng, reqs())
            ctx.raises(r, what, ERR)
            log.append('refused: ' + what)
            ctx.same(state(o), st, 'table changed by the refused request: ' + what)
            ctx.ev('refused by tables')
            k += 1
    if left:
        c10.insert(rng, o, t, left[:3], fun, not t.d)
    c10.ask(ctx, rng, o, t, what='query after ' + '; '.join(log[-8:]))
    ctx.ok(len(o) == n and len(o.ports) == n and len(o.xpos) == n, 'number of ports')
    ctx.ok(sorted(o.fs) == t.fs(), 'frequencies', got=o.fs, want=t.fs())
    if k:
        ctx.nontrivial(log)


def construct(ctx, rng):
    """objects that cannot be made"""
    rf, n = ctx.rf, int(rng.integers(1, 4))
    from pyRFtk.rfGTL import rfGTL
    A = elems.rand_S(rng, n, 'passive')
    fs = [1e6 * (i + 1) for i in range(int(rng.integers(1, 4)))]
    P, Q = [f'p{i}' for i in range(n)], [f'p{i}' for i in range(n + pick(rng, [1, 2]))]
    args = dict(A=A, Ss=[A.tolist() for _ in fs], fs=fs, P=P, Q=Q, R=np.zeros((n, n + 1)), x=[0., 1., 2.], Id='X', z=[[1., 2.], [3.]])
    T = dict(nope='nope.s%dp' % n, empty='empty.s%dp' % n)
    for f in ('empty.s%dp' % n, 'bad.mod'):
        with open(f, 'w') as h:
            h.write('' if f[0] == 'e' else "{'bad': {'GTL': {'A': {'ports': ['Q'")
    a = copy.deepcopy(args)
    reqs = [('rfBase: wrong number of ports', lambda: rf.rfBase(Ss=a['A'], ports=a['Q'])),
            ('rfBase: more S than frequencies', lambda: rf.rfBase(Ss=a['Ss'] * 2, fs=a['fs'], ports=a['P'])),
            ('rfBase: S not square', lambda: rf.rfBase(Ss=a['R'], fs=a['fs'][:1])),
            ('rfObject: wrong number of ports', lambda: rf.rfObject(a['A'], ports=a['Q'], Id=a['Id'])),
            ('rfObject: S not square', lambda: rf.rfObject(a['R'], ports=a['P'])),
            ('rfObject: a vector', lambda: rf.rfObject(a['x'])),
            ('rfObject: a number', lambda: rf.rfObject(5.)),
            ('rfObject: too many arguments', lambda: rf.rfObject(a['A'], a['A'], a['A'])),
            ('rfObject: unknown unit', lambda: rf.rfObject(funit='XX', ports=a['P'])),
            ('rfObject: no such file', lambda: rf.rfObject(touchstone=T['nope'], ports=a['P'])),
            ('rfObject: data and file', lambda: rf.rfObject(a['A'], touchstone=T['empty'])),
            ('rfTRL: unknown keyword', lambda: rf.rfTRL(L=1., Z0TL=30., nope=3, ports=a['P'])),
            ('rfTRL: positions', lambda: rf.rfTRL(L=1., Z0TL=30., xpos=a['x'])),
            ('rfTRL: parameter', lambda: rf.rfTRL(L=1., Z0TL=a['z'])),
            ('rfCoupler: ports', lambda: rf.rfCoupler(ports=a['P'])),
            ('rfCoupler: two couplings', lambda: rf.rfCoupler(kc=.5, kcdB=3.)),
            ('rfCoupler: two lengths', lambda: rf.rfCoupler(Lc=.5, f0Hz=3e6)),
            ('rfGTL: no such file', lambda: rfGTL('nope', objkey='A')),
            ('rfGTL: incomplete file', lambda: rfGTL('bad.mod')),
            ('rfCircuit: no such file', lambda: rf.rfCircuit(sNp=T['nope'], Portnames=a['P']))]
    log = []
    ctx.desc(log=log, n=n)
    sp = elems.gen(rng, fs, pick(rng, ['base', 'obj', 'trl', 'rlc', 'cpl', 'arc']), 'passive')
    z = dict(rf.config.rcparams) if hasattr(rf, 'config') else None
    files = sorted(os.listdir('.'))
    for _ in range(int(rng.integers(1, 6))):
        what, r = pick(rng, reqs)
        ctx.raises(r, what, ERR + (SyntaxError, EOFError))
        log.append(what)
        ctx.ev('refused constructions')
        ctx.same(a, args, 'arguments after: ' + what)
        ctx.ok(sorted(os.listdir('.')) == files, 'files after: ' + what)
        if z is not None:
            ctx.same(dict(rf.config.rcparams), z, 'package defaults after: ' + what)
    o = elems.make(rf, sp)
    f = pick(rng, fs)
    Z = sp['kw'].get('Zbase', 50.)
    ctx.close(np.asarray(o.getS(f)), elems.AB_to_S(*elems.ref(sp, f, Z), Z), f'{sp["kind"]} made after ' + '; '.join(log))
    ctx.same(list(o.ports), list(elems.port_names(sp)), 'ports of an object made after ' + '; '.join(log))
    ctx.close(np.array(o.xpos, float), np.array(elems.port_xpos(sp), float), 'positions of an object made after ' + '; '.join(log))
    ctx.nontrivial(sorted(set(log)), sp['kind'])


def undated(t):
    return [l for l in t.split('\n') if not l.startswith('! Date')]


def writing(ctx, rng):
    """files that cannot be written"""
    from pyRFtk.WriteTSF import WriteTSF
    rf = ctx.rf
    fs = prog.freqs(rng, 3)
    sp = elems.gen(rng, fs, 'base', 'passive', xpos=False)
    o = elems.make(rf, sp)
    ob = rf.rfObject(Zbase=sp['kw']['Zbase'], ports=[f'q{i}' for i in range(sp['n'])])
    for f, S in zip(sp['fs'], sp['Ss']):
        ob.setS(f, S)
    n = len(o)
    c = rf.rfCircuit()
    c.addblock('A', o)
    good = dict(tfmt=pick(rng, ['# MHZ S MA R 50', '# HZ S RI R 30', '# KHZ Y DB']))
    gfmt = pick(rng, ['MHZ S DB R 50', 'HZ S RI R 30', 'MHZ Z MA R 50'])
    fn = pick(rng, ['t', 'T 1'])
    full = f'{fn}.s{n}p'
    with_tsf = rng.random() < .5
    log = []
    ctx.desc(log=log, element=elems.describe(sp), good=(good, gfmt), method=with_tsf)
    bad = fs[0] * 1.2345
    if with_tsf:
        write = lambda: o.write_tsf(fn, **good)
        reqs = [('unknown keyword', lambda: o.write_tsf(fn, nope=1)), ('unknown format', lambda: o.write_tsf(fn, tfmt='# MHz S XY R 50')),
                ('invalid reference impedance', lambda: o.write_tsf(fn, tfmt='# MHz S MA R abc')),
                ('missing reference impedance', lambda: o.write_tsf(fn, tfmt='# MHz S MA R')),
                ('unknown frequency', lambda: o.write_tsf(fn, fs=[fs[0], bad])), ('empty format', lambda: o.write_tsf(fn, tfmt=' ')),
                ('comments of a wrong type', lambda: o.write_tsf(fn, comments=5))]
    else:
        x = pick(rng, [o, ob])
        write = lambda: WriteTSF(x, full, fs=list(fs), tsf_format=gfmt)
        reqs = [('two formats', lambda: WriteTSF(x, full, fs=list(fs), tsf_format='MHZ S DB MA R 50')),
                ('no unit', lambda: WriteTSF(x, full, fs=list(fs), tsf_format='S DB R 50')),
                ('no frequencies', lambda: WriteTSF(c, full)), ('unknown frequency', lambda: WriteTSF(o, full, fs=[fs[0], bad])),
                ('unknown frequency of a block', lambda: WriteTSF(c, full, fs=[fs[0], bad])),
                ('invalid number format', lambda: WriteTSF(x, full, fs=list(fs), tsf_format=gfmt, num_format=('9.5f', 'z', '8.4f'))),
                ('comments of a wrong type', lambda: WriteTSF(x, full, fs=list(fs), comments=5))]
    there = rng.random() < .7
    if os.path.exists(full):
        os.remove(full)
    if there:
        write() if rng.random() < .7 else open(full, 'w').write('something else')
        before = open(full).read()
    st = answers(o, fs, excite(rng, list(o.ports))) if rng.random() < .5 else None
    for _ in range(int(rng.integers(1, 4))):
        what, r = pick(rng, reqs)
        ctx.raises(r, what, ERR)
        log.append(what)
        ctx.ev('refused writings')
        ctx.ok(os.path.exists(full) == there, 'the file exists after: ' + what, got=os.path.exists(full))
        if there:
            ctx.same(open(full).read(), before, 'contents of the file after: ' + what)
            ctx.ev('existing files')
    write()
    t = open(full).read()
    os.remove(full)
    ref = o.tsf2str(**good) if with_tsf else WriteTSF(x, None, fs=list(fs), tsf_format=gfmt)
    ctx.same(undated(t), undated(ref), 'file written after ' + '; '.join(log))
    d = elems.make(rf, sp)
    for f in fs:
        ctx.same(np.asarray(o.getS(f)), np.asarray(d.getS(f)), 'answers after ' + '; '.join(log))
    ctx.nontrivial(log, there, with_tsf)


def fixed(ctx, rng):
    """lines that are not uniform refuse to be modified"""
    from ..line import gen, const
    fs = prog.freqs(rng, 3)
    for _ in range(30):
        ln = gen(rng, fs[0], True)
        o = ln.make(ctx.rf) if hasattr(ln, 'make') else ctx.rf.rfTRL(L=ln.L, **{k: p.arg for k, p in ln.P.items()})
        if not o.constant:
            break
    else:
        raise Skip('uniform')
    d = ctx.rf.rfTRL(L=ln.L, **{k: p.arg for k, p in ln.P.items()})
    log = []
    ctx.desc(line=ln.text(), log=log, freqs=fs)
    E = excite(rng, list(o.ports))
    c = ctx.rf.rfCircuit()
    c.addblock('A', o)
    for _ in range(int(rng.integers(1, 4))):
        f = pick(rng, fs)
        what, r = pick(rng, [('set', lambda: o.set(L=ln.L * 1.5)), ('params', lambda: o.getS(f, params=dict(L=ln.L * 1.5))),
                             ('set on the circuit', lambda: c.set('A.L', ln.L * 1.5)),
                             ('params of the circuit', lambda: c.getS(f, params={'A': dict(L=ln.L * 1.5)}))])
        if rng.random() < .5:
            o.getS(f)
        ctx.raises(r, 'line that is not uniform: ' + what, ERR)
        log.append(what)
        ctx.ev('refused by lines')
        ctx.ok(o.L == ln.L and list(o.xpos) == list(d.xpos), 'length after ' + '; '.join(log), got=(o.L, o.xpos))
        ctx.close(np.asarray(o.getS(f)), np.asarray(d.getS(f)), 'answers after ' + '; '.join(log), tol=1e-9)
    ctx.nontrivial(log, sorted(ln.P))


def state(o):
    return dict(ports=list(o.ports), fs=np.array(o.fs), n=len(o), Z=o.Zbase, xpos=list(o.xpos),
                S=np.array([s for _, s in o]))


SCENARIOS = [('building', building, 3), ('living', living, 4), ('elements', elements, 1), ('table', table, 2), ('construct', construct, 1),
             ('writing', writing, 1), ('fixed', fixed, 1)]
MIN_EVENTS = {'refused while building': 200, 'refused while living': 300, 'refused by elements': 80, 'refused by tables': 150,
              'refused constructions': 100, 'refused writings': 100, 'existing files': 50, 'refused by lines': 50}
