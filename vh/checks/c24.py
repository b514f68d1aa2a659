"""C24: caller data and internal state never share storage"""
import copy, io, os
import numpy as np
from .. import prog, elems, hist, line, tsf
from ..core import Skip, deep_equal
from ..common import *
from ..elems import pick, logu
from . import c10

RULE = ('every list, array and dictionary handed to the library (blocks, port lists and mappings, params, positions, profiles, '
        'tables, excitations, node lists, frequencies, settings, variables) is compared with a snapshot after every call and '
        'overwritten afterwards; every returned list, array or dictionary is overwritten after having been read; all later '
        'answers have to be those of the reference models or of an untouched twin; non-trivial: something was overwritten; '
        'distinct by structure and kinds of calls')
ASSUMPTIONS = ASSUME + ['objects (circuits, elements) used as blocks are shared on purpose; attributes (c.ports, ...) are the '
                        'state itself and not results; scaleVSW works in place']
QUICK, THOROUGH = 3000, 60000


def scramble(x, rng, top=True):
    """overwrite in place whatever can be; returns the number of overwritten containers"""
    n = 0
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for v in x.ravel():
                n += scramble(v, rng, False)
        elif x.size and x.flags.writeable and x.dtype.kind in 'fci':
            x[...] = x * 0 - 77
            n += 1
    elif isinstance(x, list):
        for v in x:
            n += scramble(v, rng, False)
        for k in range(len(x)):
            if isinstance(x[k], (int, float, complex, np.number)):
                x[k] = -77.5
            elif isinstance(x[k], str):
                x[k] = 'SCRAMBLED'
        u = rng.random()
        if u < .3:
            x.append('extra' if x and isinstance(x[0], str) else -55.)
        elif u < .5 and x:
            x.pop()
        n += 1
    elif isinstance(x, tuple):
        for v in x:
            n += scramble(v, rng, False)
    elif isinstance(x, dict):
        for v in x.values():
            n += scramble(v, rng, False)
        for k in list(x):
            if isinstance(x[k], (int, float, complex, np.number)):
                x[k] = -33.5
            elif isinstance(x[k], str):
                x[k] = 'SCRAMBLED'
        if x and rng.random() < .3:
            x.pop(list(x)[0])
        x['EXTRA'] = 5.
        n += 1
    return n


class Guard:
    """arguments and results of the library"""
    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.args = ctx, rng, []
        self.kinds, self.seen = [], []

    def texts(self):
        return [o.__str__(1) for o in self.seen[-3:]] if self.rng.random() < .4 else None

    def unchanged(self, before, what):
        """nothing happened but the caller using what is his"""
        if before is not None:
            for a, o in zip(before, self.seen[-3:]):
                self.ctx.ok(o.__str__(1) == a, f'the text of an object changed as the caller overwrote {what}', got=o.__str__(1), want=a)
                self.ctx.ev('texts compared')

    def arg(self, x, what='argument'):
        self.args.append((what, x, copy.deepcopy(x)))
        return x

    def check(self, after=''):
        for what, x, snap in self.args:
            self.ctx.ok(deep_equal(x, snap), f'{what} was modified by the library ({after})', got=x, want=snap)
            self.ctx.ev('arguments checked')

    def scramble(self):
        """the caller goes on using its data"""
        self.check('before being overwritten')
        t = self.texts()
        twins = [(o, o.copy()) for o in self.seen if isinstance(o, self.ctx.rf.rfObject)]
        for what, x, _ in self.args:
            k = scramble(x, self.rng)
            self.ctx.ev('arguments overwritten', k)
        self.unchanged(t, 'the arguments')
        for o, d in twins:
            self.ctx.ok(o == d and d == o, 'tabulated data differ from their copy after the caller overwrote the arguments')
            self.ctx.ev('tables compared with their copies')
        self.args = []

    def res(self, fun, what, again=True):
        """a result; it is overwritten and asked for again"""
        r = fun()
        snap = copy.deepcopy(r)
        self.check(what)
        t = self.texts()
        k = scramble(r, self.rng)
        self.unchanged(t, 'a result')
        self.ctx.ev('results overwritten', k)
        if again:
            r2 = fun()
            self.ctx.same(r2, snap, f'{what}: another result after the first one was overwritten')
            scramble(r2, self.rng)
        self.check(what + ' (again)')
        self.kinds.append(what)
        return snap


def num(rng, fs):
    return pick(rng, [list, np.array])(fs)


def circuits(ctx, rng):
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=int(rng.integers(0, 3)), maxext=4, share=0)
    prog.observe(ctx, spec)
    ctx.desc(program=prog.text(spec))
    g = Guard(ctx, rng)
    early = rng.random() < .5

    def build(sp):
        kw = {}
        if sp.get('Portnames'):
            kw['Portnames'] = g.arg(list(sp['Portnames']), 'announced ports')
        c = ctx.rf.rfCircuit(Zbase=sp['Zbase'], **kw)
        if early and rng.random() < .7:
            g.scramble()
        for op in sp['ops']:
            if op[0] == 'add':
                _, name, child, ports, relpos, params = op
                k = {}
                if child['kind'] == 'circ':
                    o = build(child)
                elif child['kind'] == 'arr':
                    o = g.arg(child['S'].copy() if rng.random() < .7 else child['S'].tolist(), 'array block')
                else:
                    o = make(ctx, rng, g, child)
                if ports is not None:
                    k['ports'] = g.arg(copy.deepcopy(ports), 'ports of a block')
                if relpos:
                    k['relpos'] = relpos
                if params:
                    k['params'] = g.arg(copy.deepcopy(params), 'params of a block')
                c.addblock(name, o, **k)
                if rng.random() < .2:
                    scramble(c.listBlocks(), rng)
            else:
                prog.do(ctx.rf, c, op)
            if early and rng.random() < .3:
                g.scramble()
        return c
    c = build(spec)
    g.seen.append(c)
    h = hist.Hist(ctx, rng, fs, spec, c)
    if early:
        g.scramble()
    for _ in range(int(rng.integers(2, 6))):
        m = h.model()
        f = pick(rng, fs)
        m.check(f)
        ask(ctx, rng, g, h, m, f)
        if rng.random() < .5:
            g.scramble()
        if rng.random() < .3:
            setting(ctx, rng, g, h)
        compS(ctx, c, h.model(), f, what='S-matrix after ' + '; '.join(g.kinds[-6:]))
    if rng.random() < .5:
        d = c.copy()
        g.scramble()
        compS(ctx, d, h.model(), fs[0], what='S-matrix of a copy after ' + '; '.join(g.kinds[-6:]))
    g.scramble()
    m = h.model()
    for f in fs:
        compS(ctx, c, m, f, what='S-matrix at the end after ' + '; '.join(g.kinds[-6:]))
    E = excite(rng, m.order())
    comp_sol(ctx, c.Solution(fs[0], dict(E)), m.solution(fs[0], E), 'Solution at the end')
    if not any(l.startswith(('replace', 'set')) for l in h.log):
        for p, x in m.allpos().items():
            ctx.close(c.getpos(p), x, f'position of {p} at the end', tol=1e-9)
    ctx.nontrivial(prog.shape(spec), g.kinds)


def ask(ctx, rng, g, h, m, f):
    c, o = h.c, m.order()
    Z = float(logu(rng, 3, 300))
    k = int(rng.integers(9))
    E = g.arg(excite(rng, o), 'excitation')
    if k == 0:
        g.res(lambda: c.getS(f), 'getS')
    elif k == 1:
        g.res(lambda: c.getS(f, Zbase=Z), 'getS(Zbase)')
    elif k == 2:
        q = g.arg(num(rng, h.fs), 'frequencies')
        for x in h.fs:
            m.check(x)
        g.res(lambda: c.getS(q, flags=fl), 'getS(vector)') if (fl := g.arg({'sNp': False}, 'flags')) is not None else 0
    elif k == 3:
        r = g.res(lambda: c.Solution(f, E), 'Solution')
        comp_sol(ctx, r, m.solution(f, E), 'Solution after ' + '; '.join(g.kinds[-5:]))
    elif k == 4:
        ns = g.arg([p for p in m.all() if rng.random() < .5], 'list of nodes')
        g.res(lambda: c.Solution(f, E, Zbase=Z, nodes=ns), 'Solution(nodes)')
    elif k == 5:
        g.res(lambda: tuple(c.maxV(f, E, Zbase=Z)), 'maxV')
    elif k == 6:
        ns = g.arg(list(o), 'list of nodes')
        g.res(lambda: c.Get_internalSmatrix(f, ns), 'Get_internalSmatrix')
    elif k == 7:
        c.getS(f)
        g.res(lambda: c.listBlocks(), 'listBlocks')
        p = pick(rng, list(m.all()))
        g.res(lambda: c.getpos(p), 'getpos')
    else:
        leaves = hist.settables(h.spec)
        if leaves:
            path, leaf = pick(rng, leaves)
            v = dict([hist.newvalue(rng, leaf, f)])
            p = g.arg(hist.as_kwargs(path, dict(v)), 'params')
            g.res(lambda: c.getS(f, params=p), 'getS(params)')
            leaf['kw'].update(v)
            h.log.append('set')


def setting(ctx, rng, g, h):
    leaves = hist.settables(h.spec)
    if not leaves:
        return
    path, leaf = pick(rng, leaves)
    v = dict([hist.newvalue(rng, leaf, h.fs[0])])
    u = int(rng.integers(4))
    a = g.arg(dict(v) if u != 2 else hist.as_kwargs(path, dict(v)), 'settings')
    b = g.arg({path: a}, 'settings') if u == 1 else None
    t = g.arg((path, a), 'settings') if u == 3 else None
    if u == 0:
        h.c.set(path, a)
    elif u == 1:
        h.c.set(b)
    elif u == 2:
        h.c.set(a)
    else:
        h.c.set(t)
    g.check('set')
    h.log.append('set')
    leaf['kw'].update(v)
    ctx.ev('settings')


def make(ctx, rng, g, sp):
    """an element from guarded arguments"""
    rf, kw = ctx.rf, {k: (g.arg(list(v), k) if isinstance(v, list) else v) for k, v in sp['kw'].items()}
    k = sp['kind']
    if k == 'base':
        Ss = sp['Ss'].copy() if rng.random() < .6 else [s.copy() for s in sp['Ss']] if rng.random() < .5 else sp['Ss'].tolist()
        fs = num(rng, list(sp['fs']))
        return rf.rfBase(Ss=g.arg(Ss, 'Ss'), fs=g.arg(fs, 'fs'), **kw)
    if k == 'obj':
        o = rf.rfObject(**kw)
        if rng.random() < .4:
            o.setS(g.arg(num(rng, list(sp['fs'])), 'fs'), g.arg(sp['Ss'].copy(), 'Ss'))
        else:
            for f, S in zip(sp['fs'], sp['Ss']):
                o.setS(f, g.arg(S.copy() if rng.random() < .5 else S.tolist(), 'S'))
        return o
    if k == 'line':
        return rf.rfTRL(**{a: g.arg(v, a) if isinstance(v, (list, np.ndarray)) else v for a, v in sp['line'].args().items()}, **kw)
    return {'rlc': rf.rfRLC, 'trl': rf.rfTRL, 'arc': rf.rfArcObj, 'cpl': rf.rfCoupler}[k](**kw)


def element(ctx, rng):
    fs = prog.freqs(rng)
    kind = pick(rng, ['rlc', 'trl', 'arc', 'cpl', 'base', 'obj', 'line', 'line'])
    if kind == 'line':
        ln = line.gen(rng, fs[0], True)
        sp = dict(kind='line', n=2, line=ln, kw=dict(Zbase=float(logu(rng, 5, 200))))
        if rng.random() < .5:
            sp['kw']['xpos'] = 1.5
        if rng.random() < .3:
            sp['kw']['ports'] = ['a', 'b']
    else:
        sp = elems.gen(rng, fs, kind)
    ctx.desc(element=elems.describe(sp))
    g = Guard(ctx, rng)
    o, d = make(ctx, rng, g, sp), elems.make(ctx.rf, copy.deepcopy(sp))
    g.seen.append(o)
    if rng.random() < .6:
        g.scramble()
    names = list(d.ports)
    E0 = excite(rng, names)
    Z = float(logu(rng, 3, 300))

    def answers(x):
        return [np.asarray(x.getS(fs)), np.asarray(x.getS(fs[0])), np.asarray(x.getS(fs[0], Zbase=Z)),
                list(x.ports), [float(v) for v in x.xpos], len(x), float(x.maxV(fs[0], dict(E0))[0])]
    want = answers(d)
    for _ in range(int(rng.integers(1, 6))):
        u = int(rng.integers(7))
        f = pick(rng, fs)
        if u == 0:
            g.res(lambda: o.getS(f), f'{kind}.getS')
        elif u == 1:
            g.res(lambda: o.getS(f, Zbase=Z), f'{kind}.getS(Zbase)')
        elif u == 2:
            q = g.arg(num(rng, fs), 'frequencies')
            g.res(lambda: o.getS(q), f'{kind}.getS(vector)')
        elif u == 3:
            E = g.arg(dict(E0), 'excitation')
            g.res(lambda: tuple(o.maxV(f, E, Zbase=Z)), f'{kind}.maxV')
        elif u == 4 and kind in ('trl', 'line'):
            E = g.arg(dict(E0), 'excitation')
            g.res(lambda: o.VISWs(f, E)[1][:2], 'VISWs')
            g.res(lambda: o.VISWs(f, E, Z)[0], 'VISWs')
            g.res(lambda: tuple(o.solveVI(f, 1., .1j)), 'solveVI')
            g.res(lambda: o.solveVI(f), 'solveVI')
        elif u == 5 and kind in ('rlc', 'trl', 'arc'):
            p = g.arg(dict([hist.newvalue(rng, sp, f)]), 'params')
            g.res(lambda: o.getS(f, params=p), f'{kind}.getS(params)')
            d.getS(f, params=dict(p))
            want = answers(d)
        elif u == 6:
            if kind in ('base', 'obj', 'rlc') and hasattr(o, 'get1S') and kind != 'obj':
                g.res(lambda: o.get1S(f), f'{kind}.get1S')
            if kind == 'obj':
                g.res(lambda: o[0], 'indexing')
                g.res(lambda: list(o), 'iterating')
        if rng.random() < .4:
            g.scramble()
        x = o.copy() if rng.random() < .25 else o
        got = answers(x)
        ctx.same(got[3:6], want[3:6], f'{kind}: ports, positions after {g.kinds[-5:]}')
        for a, b in zip(got[:3] + got[6:], want[:3] + want[6:]):
            ctx.close(a, b, f'{kind}: answers after {g.kinds[-5:]}', tol=1e-9)
    g.scramble()
    got = answers(o)
    ctx.same(got[3:6], want[3:6], f'{kind}: ports, positions at the end')
    for a, b in zip(got[:3] + got[6:], want[:3] + want[6:]):
        ctx.close(a, b, f'{kind}: answers at the end', tol=1e-9)
    ctx.nontrivial(kind, sorted(sp['kw']), g.kinds)


def table(ctx, rng):
    n = int(rng.integers(1, 4))
    kw = dict(Zbase=float(logu(rng, 5, 300)))
    g = Guard(ctx, rng)
    t = c10.Table(n, kw['Zbase'], 'MA', 3, None)
    if rng.random() < .8:
        t.ports = elems.names(rng, n)
        kw['ports'] = g.arg(list(t.ports), 'ports')
        if rng.random() < .6:
            kw['xpos'] = g.arg([float(k) for k in range(n)], 'xpos')
    if rng.random() < .5:
        t.interp = kw['interp'] = pick(rng, ['MA', 'dB', 'RI'])
    if rng.random() < .6:
        t.kind = int(rng.integers(1, 4))
        kw['interpkws'] = g.arg({'kind': t.kind}, 'interpkws')
    xpos = [float(k) for k in range(n)] if 'xpos' in kw else [0.] * n
    o = ctx.rf.rfObject(**kw)
    g.seen.append(o)
    f0 = logu(rng, 1e5, 1e9)
    fun = c10.smooth(rng, n, f0, f0)
    left = [float(f0 * (1 + .1 * i)) for i in rng.permutation(12)]
    ctx.desc(options={k: repr(v) for k, v in kw.items()})
    log = g.kinds

    for _ in range(int(rng.integers(4, 12))):
        u = int(rng.integers(8))
        if u <= 2 and left:
            b = [left.pop() for _ in range(min(len(left), int(rng.integers(1, 4))))]
            S = np.array([fun(f) for f in b])
            k = {}
            if t.ports is None:
                t.ports = elems.names(rng, n)
                k['Portnames'] = g.arg(list(t.ports), 'Portnames')
            if len(b) == 1 and rng.random() < .5:
                o.setS(b[0], g.arg(S[0].copy(), 'S'), **k)
            else:
                o.setS(g.arg(num(rng, list(b)), 'frequencies'), g.arg(S.copy() if rng.random() < .5 else list(S.copy()), 'S'), **k)
            t.d.update(zip(b, S))
            log.append('setS')
            g.check('setS')
        elif u == 3 and t.d:
            q = g.arg(num(rng, t.fs()[::-1]), 'frequencies')
            g.res(lambda: o.getS(q), 'getS(vector)')
        elif u == 4 and t.d:
            f = pick(rng, t.fs())
            g.res(lambda: o.getS(f), 'getS')
            if len(t.d) > 1:
                fm = float(rng.uniform(t.fs()[0], t.fs()[-1]))
                g.res(lambda: o.getS(fm), 'getS between')
        elif u == 5 and t.d:
            g.res(lambda: o[0], 'indexing')
            g.res(lambda: list(o), 'iterating')
        elif u == 6 and t.d and t.ports:
            k = int(rng.integers(len(o.fs)))
            f = float(o.fs[k])
            S = g.arg(elems.rand_S(rng, n), 'S')
            o[k] = g.arg([f, S], 'entry')
            t.d[f] = S.copy()
            log.append('assign')
        elif u == 7 and t.ports and t.d:
            ix = [int(i) for i in rng.permutation(n)]
            o.sortports(g.arg([t.ports[i] for i in ix], 'order of ports'))
            t.ports, xpos = [t.ports[i] for i in ix], [xpos[i] for i in ix]
            t.d = {f: S[np.ix_(ix, ix)] for f, S in t.d.items()}
            log.append('sortports')
        if rng.random() < .6:
            g.scramble()
        if t.d:
            c10.ask(ctx, rng, o, t, between=rng.random() < .6, what='query after ' + '; '.join(log[-5:]))
    g.scramble()
    if t.ports:
        ctx.same(list(o.ports), list(t.ports), 'ports after ' + '; '.join(log[-5:]))
        ctx.same([float(x) for x in o.xpos], xpos, 'positions after ' + '; '.join(log[-5:]))
    if t.d:
        c10.ask(ctx, rng, o, t, between=True, what='query at the end after ' + '; '.join(log[-5:]))
    ctx.nontrivial(n, log)


def convert(ctx, rng):
    """the conversion functions"""
    rf = ctx.rf
    n, nf = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    S = elems.rand_S(rng, n) if rng.random() < .4 else np.array([elems.rand_S(rng, n) for _ in range(nf)])
    if rng.random() < .3:
        S = S.tolist()
    g = Guard(ctx, rng)
    S = g.arg(S, 'matrix')
    u = int(rng.integers(8))
    Zs = lambda: g.arg(float(logu(rng, 5, 200)) if rng.random() < .3 else
                       [complex(logu(rng, 5, 200), rng.uniform(-9, 9)) for _ in range(n)], 'impedances')
    Z = float(logu(rng, 5, 200))
    if u < 3:
        Z1, Z2 = Zs(), Zs()
        if rng.random() < .4:
            Z2 = Z1
        t1, t2 = pick(rng, 'VPG'), pick(rng, 'VPG')
        if rng.random() < .4:
            t1 = t2
        g.res(lambda: rf.ConvertGeneral(Z2, S, Z1, t1, t2), f'ConvertGeneral {t1}{t2}{Z1 is Z2}')
    elif u == 3:
        g.res(lambda: rf.Z_from_S(S, Zbase=Z), 'Z_from_S')
    elif u == 4:
        g.res(lambda: rf.Y_from_S(S, Zbase=Z), 'Y_from_S')
    elif u == 5:
        g.res(lambda: rf.S_from_Z(S, Zbase=Z), 'S_from_Z')
    elif u == 6:
        g.res(lambda: rf.S_from_Y(S, Zbase=Z), 'S_from_Y')
    else:
        VI = g.arg(rng.normal(size=(2, 2, 2)) + 1j * rng.normal(size=(2, 2, 2)), 'VI')
        from_VI = getattr(rf, 'S_from_VI', None)
        if from_VI is None:
            raise Skip('no S_from_VI')
        g.res(lambda: from_VI(VI[:, :, 0], Z), 'S_from_VI')
    ctx.desc(calls=g.kinds)
    ctx.nontrivial(g.kinds, np.shape(S), type(S).__name__)


def resolver(ctx, rng):
    """profiles handed to the parameter resolver"""
    f = logu(rng, 1e6, 1e9)
    ln = line.gen(rng, f, True)
    g = Guard(ctx, rng)
    args = {k: g.arg(v, k) if isinstance(v, (list, np.ndarray)) else v for k, v in ln.args().items()}
    T = ctx.rf.resolveTLparams.TLresolver
    a = T(**args)
    g.scramble()
    b = T(**ln.args())
    w = 2 * np.pi * f
    for x in rng.uniform(0, ln.L, 6):
        for k in ('LTL', 'CTL', 'rTL', 'gTL', 'Z0TL'):
            ctx.close(complex(getattr(a, k)(w, float(x))), complex(getattr(b, k)(w, float(x))), f'resolved {k}', tol=1e-12)
        z, y = ln.zy(w, float(x))
        ctx.close(complex(a.rjwL(w, float(x))), z, 'series impedance', tol=1e-6)
        ctx.ev('resolved parameters')
    ctx.desc(line=ln.text())
    ctx.nontrivial(sorted(ln.P), [type(p.arg).__name__ for p in ln.P.values()])


def files(ctx, rng):
    """reading and writing of touchstone data and dictionaries"""
    rf = ctx.rf
    fs = prog.freqs(rng)
    n = int(rng.integers(1, 4))
    g = Guard(ctx, rng)
    sp = elems.gen(rng, sorted(fs), 'base')
    n = sp['n']
    o = elems.make(rf, sp)
    q = g.arg(num(rng, sorted(fs)), 'frequencies')
    s1 = g.res(lambda: strip(rf.WriteTSF(o, fs=q, tsf_format='MHz S RI R 50')), 'WriteTSF')
    cm = g.arg(['a comment'], 'comments')
    text = rf.WriteTSF(o, fs=sorted(fs), tsf_format='MHz S RI R 50')
    r = g.res(lambda: rf.ReadTSF(text, funit='Hz', Zbase=33., comments=cm), 'ReadTSF')
    k = g.arg(dict(ports=[f'z{i}' for i in range(n)]), 'keywords')
    g.res(lambda: rf.ReadTSF(text, **k), 'ReadTSF(ports)')
    if rng.random() < .5:
        g.res(lambda: strip(o.tsf2str(fs=q)), 'tsf2str')
    x = elems.make(rf, sp)
    ctx.same(np.asarray(o.getS(fs)), np.asarray(x.getS(fs)), 'object after writing')
    g.scramble()
    ctx.same(np.asarray(o.getS(fs)), np.asarray(x.getS(fs)), 'object after writing')
    if rng.random() < .5:
        c = rf.rfCircuit(sNp=text)
        e = rf.rfCircuit(sNp=text)
        for f in fs:
            g.res(lambda: c.getS(f), 'getS of a circuit from data')
        g.res(lambda: c.getS(list(fs)), 'getS of a circuit from data (vector)')
        ctx.same(np.asarray(c.getS(fs)), np.asarray(e.getS(fs)), 'circuit from data')
    ctx.desc(element=elems.describe(sp))
    ctx.nontrivial(g.kinds, n)


def strip(s):
    return '\n'.join(l for l in s.split('\n') if not l.startswith('!'))


SCENARIOS = [('circuits', circuits, 4), ('element', element, 3), ('table', table, 3), ('convert', convert, 1),
             ('resolver', resolver, 1), ('files', files, 1)]
MIN_EVENTS = {'arguments checked': 5000, 'arguments overwritten': 2000, 'results overwritten': 1000, 'settings': 20}
