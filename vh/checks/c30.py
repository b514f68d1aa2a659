"""C30: how a value is passed makes no difference"""
import collections, copy
import numpy as np
from .. import prog, elems, line
from ..core import Skip
from ..common import *
from ..elems import pick, logu

RULE = ('random circuits, elements, line sections and tables are described twice: once with plain arguments (floats, lists, dicts) '
        'and once with the same values passed differently - integers, numpy numbers, tuples, arrays, other orders of dicts and '
        'keywords, positional or keyword arguments - when building as well as when setting, asking and exciting; both have to '
        'answer the same and as the reference model does; non-trivial: a value was passed in another form; distinct by '
        'structure and by the forms')
ASSUMPTIONS = ASSUME + ['numbers: int, float, complex, bool-free numpy scalars of 64 bits (single precision for positions only); sequences: list, tuple, numpy array '
                        '(names of block ports: list only, as the documentation says)']
QUICK, THOROUGH = 4000, 60000


class Forms:
    """passes values in other forms, remembers which"""

    def __init__(self, ctx, rng, p=.7):
        self.ctx, self.rng, self.p, self.used, self.single = ctx, rng, p, set(), False

    def _(self, form, v):
        self.used.add(form)
        self.ctx.ev('values passed in another form')
        return v

    def num(self, v):
        """a real or complex number"""
        rng = self.rng
        if rng.random() > self.p or v is None:
            return v
        if isinstance(v, (complex, np.complexfloating)):
            if v.imag == 0 and rng.random() < .5:
                return self._('real', self.num(float(v.real)))
            return self._('complex128', np.complex128(v))
        v = float(v)
        u = int(rng.integers(4)) if v.is_integer() and abs(v) < 2**60 else 3
        if u == 0:
            return self._('int', int(v))
        if u == 1:
            return self._('int64', np.int64(int(v)))
        return self._('float64', np.float64(v))

    def load(self, v):
        """a number that may be complex"""
        if isinstance(v, (float, int)) and self.rng.random() < .2:
            return self._('complex', complex(v))
        return self.num(v)

    def seq(self, x, arrays=True):
        """a sequence of numbers"""
        u = int(self.rng.integers(5 if arrays else 3))
        x = list(x)
        if u == 0:
            return x
        if u == 1:
            return self._('tuple', tuple(x))
        if u == 2:
            return self._('list of others', [self.num(v) for v in x])
        a = np.array(x)
        if u == 4 and a.dtype.kind == 'f' and a.size and np.all(a == np.round(a)) and np.abs(a).max() < 2**60:
            return self._('int array', a.astype(np.int64))
        return self._('array', a)

    def names(self, x):
        return self._('tuple of names', tuple(x)) if self.rng.random() < .4 else list(x)

    def order(self, x):
        if self.rng.random() < .3:
            return self._('array of names', np.array(list(x)))
        return self.names(x)

    def pos(self, x):
        if isinstance(x, float) and float(np.float32(x)) == x and self.rng.random() < .25:
            return self._('float32', np.float32(x))
        return self.num(x)

    def matrix(self, S):
        S = np.asarray(S)
        u = int(self.rng.integers(4))
        if u == 0:
            return S.copy()
        if u == 1:
            return self._('nested lists', S.tolist())
        if u == 2:
            return self._('fortran order', np.array(S, order='F'))
        return self._('list of arrays', [r.copy() for r in S])

    def dict(self, d, num=True):
        k = list(d)
        k = [k[i] for i in self.rng.permutation(len(k))]
        if k != list(d):
            self.used.add('order of keywords')
        f = self.num if num else (lambda v: v)
        r = {a: f(d[a]) for a in k}
        return self._('OrderedDict', collections.OrderedDict(r)) if self.rng.random() < .2 else r

    def freqs(self, fs):
        u = int(self.rng.integers(4))
        if u == 0:
            return list(fs)
        if u == 1:
            return self._('tuple of frequencies', tuple(self.num(f) for f in fs))
        a = np.array(fs)
        if u == 2 and np.all(a == np.round(a)):
            return self._('int frequencies', a.astype(np.int64))
        return self._('array of frequencies', a)


def rounded(rng, v, p=.5):
    """often a whole number"""
    if isinstance(v, float) and np.isfinite(v) and abs(v) >= 1.5 and abs(v) < 1e15 and rng.random() < p:
        return float(np.round(v))
    return v


ROUND = ('Zbase', 'Rs', 'Rp', 'Z0TL', 'L', 'xpos', 'kcdB', 'Lc', 'f0Hz', 'rTL')


def whole(rng, spec):
    """the spec with more whole numbers (in place)"""
    if spec['kind'] != 'circ':
        kw = spec.get('kw', {})
        for k in ROUND:
            if k in kw:
                if isinstance(kw[k], list):
                    kw[k] = [rounded(rng, x) for x in kw[k]]
                else:
                    kw[k] = rounded(rng, kw[k])
        return spec
    spec['Zbase'] = rounded(rng, spec['Zbase'])
    ops = []
    for o in spec['ops']:
        if o[0] == 'add':
            o = (o[0], o[1], whole(rng, o[2]), o[3], rounded(rng, o[4]), o[5])
        elif o[0] == 'term':
            o = (o[0], o[1], {k: rounded(rng, v) for k, v in o[2].items()})
        ops.append(o)
    spec['ops'] = ops
    return spec


def make(rf, F, sp):
    """an element, the values passed in other forms"""
    k = sp['kind']
    if k == 'arr':
        return F.matrix(sp['S'])
    kw = {a: sp['kw'][a] for a in sp['kw']}
    for a, v in list(kw.items()):
        if a == 'ports':
            kw[a] = F.names(v)
        elif a == 'xpos':
            kw[a] = F.seq(v) if isinstance(v, list) else F.pos(v) if k == 'line' and F.single else F.num(v)
        elif a == 'dx' and isinstance(v, float):
            kw[a] = F._('float64 dx', np.float64(v)) if F.rng.random() < .5 else v
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            kw[a] = F.num(v)
    kw = dict(F.dict(kw, num=False))
    if k == 'base':
        Ss = F.matrix(sp['Ss'])
        return rf.rfBase(Ss=Ss, fs=F.freqs(sp['fs']), **kw)
    if k == 'obj':
        o = rf.rfObject(**kw)
        for i in sp.get('order', range(len(sp['fs']))):
            f, S = F.num(sp['fs'][i]), F.matrix(sp['Ss'][i])
            o.setS(f, S)
        return o
    if k == 'arc' and 'Larc' in kw and F.rng.random() < .3:
        return F._('positional', rf.rfArcObj(kw.pop('Larc'), **kw))
    if k == 'line':
        args = sp['line'].args()
        for a, v in args.items():
            if isinstance(v, (int, float)):
                args[a] = F.num(v)
            elif isinstance(v, list) and v and not isinstance(v[0], list):
                args[a] = F.seq(v)
            elif isinstance(v, list) and v:
                u = int(F.rng.integers(3))
                args[a] = [v, F._('tuples', tuple(tuple(x) for x in v)), F._('2-D array', np.array(v))][u]
        return rf.rfTRL(**args, **kw)
    return dict(rlc=rf.rfRLC, trl=rf.rfTRL, arc=rf.rfArcObj, cpl=rf.rfCoupler)[k](**kw)


def build(rf, F, spec):
    if spec['kind'] != 'circ':
        return make(rf, F, spec)
    kw = dict(Zbase=F.num(spec['Zbase']))
    if spec.get('Portnames'):
        kw['Portnames'] = F.names(spec['Portnames'])
    if spec.get('Id'):
        kw['Id'] = spec['Id']
    c = rf.rfCircuit(**kw)
    for o in spec['ops']:
        if o[0] == 'add':
            _, name, child, ports, relpos, params = o
            kw = {}
            if relpos or F.rng.random() < .2:
                kw['relpos'] = F.num(relpos)
            if params:
                kw['params'] = F.dict(params)
            if ports is not None:
                kw['ports'] = F.dict(ports, num=False) if isinstance(ports, dict) else copy.deepcopy(ports)
            b = build(rf, F, child)
            if 'ports' in kw and F.rng.random() < .3:
                c.addblock(name, b, kw.pop('ports'), **kw)
                F.used.add('positional ports')
            elif F.rng.random() < .2:
                c.addblock(name=name, RFobj=b, **kw)
                F.used.add('all keywords')
            else:
                c.addblock(name, b, **kw)
        elif o[0] == 'con':
            c.connect(*o[1])
        else:
            c.terminate(o[1], **{k: F.load(v) for k, v in o[2].items()})
    return c


def ask(ctx, F, c, d, ports, fs, what, m=None, tol=1e-9):
    """the same questions in several forms to c and (plainly) to its twin d"""
    rng = F.rng
    for _ in range(int(rng.integers(2, 5))):
        u = int(rng.integers(5))
        f = pick(rng, fs)
        Z = None if rng.random() < .4 else rounded(rng, float(logu(rng, 3, 300)), .7)
        kz = {} if Z is None else dict(Zbase=Z)
        if u == 0:
            a = [F.num(f)] + ([] if Z is None else [F.num(Z)])
            if Z is not None and (type(c).__name__ in ('rfObject', 'rfBase', 'rfArcObj', 'rfCoupler') or rng.random() < .5):
                g = np.asarray(c.getS(F.num(f), Zbase=F.num(Z)))
            else:
                g = np.asarray(c.getS(*a))
            w = np.asarray(d.getS(f, **kz))
            ctx.close(g, w, f'{what}: S at {f} and {Z} Ohm', tol=tol)
            ctx.ok(g.dtype == complex, f'{what}: not complex', got=g.dtype)
        elif u == 1:
            q = [pick(rng, fs) for _ in range(int(rng.integers(1, 4)))]
            a = F.freqs(q)
            keep = copy.deepcopy(a)
            g = np.asarray(c.getS(a, **({} if Z is None else dict(Zbase=F.num(Z)))))
            w = np.asarray(d.getS(list(q), **kz))
            ctx.close(g, w, f'{what}: S at {q} and {Z} Ohm', tol=tol)
            ctx.same(a, keep, 'frequencies handed in')
        elif u == 2 and hasattr(c, 'maxV'):
            E = excite(rng, ports)
            if rng.random() < .4:
                E = {p: complex(int(rng.integers(-2, 3)), 0) for p in E}
            E2 = F.dict({p: E[p] for p in E}, num=False)
            E2 = type(E2)((p, F.load(v)) for p, v in E2.items())
            r, s = c.maxV(F.num(f), E2, **({} if Z is None else dict(Zbase=F.num(Z)))), d.maxV(f, dict(E), **kz)
            sc = max(1., float(s[0]))
            ctx.close(float(r[0]), float(s[0]), f'{what}: maximum voltage', atol=1e-9 * sc, tol=0)
            if isinstance(r[2], tuple):
                ctx.close(np.array(r[2][0], float), np.array(s[2][0], float), f'{what}: positions of the standing wave', tol=1e-9)
                ctx.close(np.array(r[2][1], float), np.array(s[2][1], float), f'{what}: standing wave', atol=1e-9 * sc, tol=0)
            else:
                waves(ctx, list(r[2].values())[0], list(s[2].values())[0], sc, what)
        elif u == 3 and hasattr(c, 'Solution'):
            E = excite(rng, ports)
            r = c.Solution(F.num(f), F.dict({p: F.load(v) for p, v in E.items()}, num=False), **({} if Z is None else dict(Zbase=F.num(Z))))
            if m is None:
                s = d.Solution(f, dict(E), **kz)
                ctx.same(sorted(r), sorted(s), f'{what}: nodes of the solution')
                for p in s:
                    ctx.close(np.array(r[p]), np.array(s[p]), f'{what}: solution at {p}', atol=1e-9 * max(1, np.abs(s[p]).max()), tol=0)
            else:
                comp_sol(ctx, r, m.solution(f, E, Z), f'{what}: solution')
        elif u == 4 and hasattr(c, 'VISWs'):
            E = excite(rng, ports)
            xs, (V, I, _) = c.VISWs(F.num(f), {p: F.load(v) for p, v in E.items()}, *([] if Z is None else [F.num(Z)]))
            x2, (V2, I2, _) = d.VISWs(f, dict(E), *([] if Z is None else [Z]))
            ctx.close(xs, x2, f'{what}: VISWs: positions', tol=1e-9)
            ctx.close(np.array([V, I]), np.array([V2, I2]), f'{what}: VISWs', tol=1e-8)
        ctx.ev('questions in other forms')


def waves(ctx, a, b, sc, what, path=''):
    ctx.same(sorted(a), sorted(b), f'{what}: entries of the standing wave data {path}')
    for k in b:
        if isinstance(b[k], dict):
            waves(ctx, a[k], b[k], sc, what, f'{path}.{k}')
        else:
            ctx.close(np.array(a[k][0], float), np.array(b[k][0], float), f'{what}: position of {path}.{k}', tol=1e-9)
            ctx.close(np.array(a[k][1], float), np.array(b[k][1], float), f'{what}: voltage at {path}.{k}', atol=1e-9 * sc, tol=0)


def whole_freqs(rng, n=None):
    return [float(np.round(f)) if rng.random() < .7 else f for f in prog.freqs(rng, n)]


def circuit(ctx, rng, depth=1, **kw):
    fs = whole_freqs(rng)
    spec = whole(rng, prog.gen_circuit(rng, fs, depth=depth, share=0, maxext=4, **kw))
    prog.observe(ctx, spec)
    F = Forms(ctx, rng)
    m = prog.Model(spec)
    for f in fs:
        m.check(f)
    ctx.desc(program=prog.text(spec), freqs=fs)
    c, d = build(ctx.rf, F, spec), prog.build(ctx.rf, copy.deepcopy(spec))
    ctx._desc['forms'] = sorted(F.used)
    for f in fs[:2]:
        compS(ctx, c, m, f, what='S of a circuit built from other forms')
        d.getS(f)
    ctx.same(list(c.ports), list(d.ports), 'ports')
    ctx.close(np.array(c.xpos, float), np.array(d.xpos, float), 'positions of the ports', tol=1e-9)
    for p in m.ports:
        ctx.close(float(c.getpos(p)), float(d.getpos(p)), f'position of {p}', tol=1e-9)
    ask(ctx, F, c, d, m.order(), fs, 'circuit', m)
    # modified
    from ..hist import paths, newvalue
    ch = [(p, l) for p, l in paths(spec, kinds=('rlc', 'trl', 'arc'))]
    if ch:
        p, l = pick(rng, ch)
        a, v = newvalue(rng, prog.eff(l, None), fs[0], .1)
        v = rounded(rng, v)
        u = int(rng.integers(4))
        r = [lambda: c.set(f'{p}.{a}', F.num(v)), lambda: c.set((f'{p}.{a}', F.num(v))), lambda: c.set({p: {a: F.num(v)}}),
             lambda: c.set(p, F.dict({a: v}))][u]()
        s = d.set(f'{p}.{a}', v)
        ctx.ok(bool(r) == bool(s), 'return value of set', got=r, want=s)
        ask(ctx, F, c, d, m.order(), fs, f'circuit after set {p}.{a}')
    if F.used:
        ctx.nontrivial(prog.shape(spec), sorted(F.used))


def nested(ctx, rng):
    circuit(ctx, rng, 2)


def element(ctx, rng):
    fs = whole_freqs(rng, 3)
    k = pick(rng, ['base', 'obj', 'rlc', 'trl', 'arc', 'cpl'])
    sp = whole(rng, elems.gen(rng, fs, k, 'passive'))
    if k == 'trl' and rng.random() < .3:
        sp['kw']['xpos'] = [float(x) for x in np.round(rng.uniform(-3, 3, 2))]
    if k == 'trl' and rng.random() < .4:
        sp['kw']['dx'] = pick(rng, [36, 100, float(sp['kw']['L']) / 17 or .1])
    F = Forms(ctx, rng)
    ctx.desc(element=elems.describe(sp), freqs=fs)
    if k == 'trl' and isinstance(sp['kw'].get('dx'), int):
        # int-like and float-like differ by definition
        o = elems.make(ctx.rf, dict(sp, kw=dict(sp['kw'], dx=F._('int64 dx', np.int64(sp['kw']['dx'])) if rng.random() < .7 else sp['kw']['dx'])))
    else:
        o = make(ctx.rf, F, sp)
    ctx._desc['forms'] = sorted(F.used)
    d = elems.make(ctx.rf, sp)
    P = list(elems.port_names(sp))
    ctx.same([str(p) for p in o.ports], P, 'ports')
    ctx.close(np.array(o.xpos, float), np.array(d.xpos, float), 'positions', tol=1e-6 if 'float32' in F.used else 1e-12)
    for f in fs:
        ctx.close(np.asarray(o.getS(f)), elems.AB_to_S(*elems.ref(sp, f, 50.), sp['kw'].get('Zbase', 50.)), f'S of a {k}')
    ask(ctx, F, o, d, P, fs, k)
    if k in ('rlc', 'trl', 'arc'):
        from ..hist import newvalue
        a, v = newvalue(rng, sp, fs[0], .1)
        v = rounded(rng, v)
        r, s = o.set(**{a: F.num(v)}), d.set(**{a: v})
        ctx.ok(bool(r) == bool(s), 'return value of set', got=r, want=s)
        ask(ctx, F, o, d, P, fs, f'{k} after set {a}')
        if a == 'L':
            ctx.close(np.array(o.xpos, float), np.array(d.xpos, float), 'positions after set L', tol=1e-12)
    if F.used:
        ctx.nontrivial(k, sp['n'], sorted(sp['kw']), sorted(F.used))


def section(ctx, rng):
    """lines with varying parameters"""
    fs = whole_freqs(rng, 2)
    ln = line.gen(rng, fs[0], True)
    if rng.random() < .5:
        for a, p in ln.P.items():
            if isinstance(p.arg, float):
                v = rounded(rng, p.arg, 1.)
                ln.P[a] = line.const(v)
    kw = dict(Zbase=rounded(rng, float(logu(rng, 5, 200))))
    if rng.random() < .4:
        kw['xpos'] = float(rng.integers(-3, 4))
    sp = dict(kind='line', n=2, line=ln, kw=kw)
    F = Forms(ctx, rng)
    F.single = True
    ctx.desc(line=ln.text(), kw=kw, freqs=fs)
    o, d = make(ctx.rf, F, sp), elems.make(ctx.rf, sp)
    ctx._desc['forms'] = sorted(F.used)
    ctx.close(np.array(o.xpos, float), np.array(d.xpos, float), 'positions', tol=1e-6 if 'float32' in F.used else 1e-12)
    ask(ctx, F, o, d, ['1', '2'], fs, 'line', tol=1e-8)
    if F.used:
        ctx.nontrivial(sorted(ln.P), sorted(F.used))


def table(ctx, rng):
    """operations on tables"""
    rf = ctx.rf
    fs = whole_freqs(rng, int(rng.integers(2, 6)))
    fs = sorted(set(fs))
    sp = whole(rng, elems.gen(rng, fs, 'obj', 'passive'))
    fs = sp['fs']
    F = Forms(ctx, rng)
    o, d = make(rf, F, sp), elems.make(rf, sp)
    log = []
    ctx.desc(element=elems.describe(sp), freqs=fs, log=log)
    n = sp['n']
    for _ in range(int(rng.integers(2, 6))):
        P = list(d.ports)
        u = int(rng.integers(7))
        if u == 0:
            q = [P[k] for k in rng.permutation(n)]
            o.sortports(F.order(q))
            d.sortports(q)
        elif u == 1:
            z = rounded(rng, float(logu(rng, 5, 200)), .8)
            o.convert2newZbase(F.num(z))
            d.convert2newZbase(z)
        elif u == 2:
            v = {p: float(rng.integers(1, 4)) for p in P if rng.random() < .5}
            z = rounded(rng, float(logu(rng, 5, 200)), .8)
            w = {p: pick(rng, [x, (x, z), dict(L=-x, Z0TL=z)]) for p, x in v.items()}
            e = {p: F.num(x) if isinstance(x, float) else tuple(F.num(y) for y in x) if isinstance(x, tuple) else F.dict(x)
                 for p, x in F.dict(w, num=False).items()}
            o.deembed(e)
            d.deembed(w)
        elif u == 3:
            f, S = float(rng.integers(1, 10**8)), elems.rand_S(rng, n, 'passive')
            if rng.random() < .3:
                S = S.real
            o.setS(F.num(f), F.matrix(S))
            d.setS(f, S.astype(complex))
        elif u == 4:
            k, S = int(rng.integers(len(d.fs))), elems.rand_S(rng, n, 'passive')
            f = float(d.fs[k])
            o[F._('int64 index', np.int64(k)) if rng.random() < .5 else k] = (F.num(f), F.matrix(S))
            d[k] = (f, S)
        elif u == 5:
            Y = elems.rand_S(rng, n, 'passive') + 2 * np.eye(n)
            for g, h in ((o.S_from_Z, d.S_from_Z), (o.S_from_Y, d.S_from_Y)):
                ctx.close(np.asarray(g(F.matrix(Y))), np.asarray(h(Y)), 'S_from_Z/Y', tol=1e-9)
        else:
            k = int(rng.integers(len(d.fs)))
            a, b = o[np.int64(k)], d[k]
            ctx.ok(float(a[0]) == float(b[0]), 'frequency of an entry', got=a[0], want=b[0])
            ctx.close(np.asarray(a[1]), np.asarray(b[1]), 'matrix of an entry', tol=1e-9)
        log.append('sortports convert2newZbase deembed setS setitem S_from getitem'.split()[u])
        ctx.same(list(o.ports), list(d.ports), f'ports after {log[-1]}')
        ctx.close(np.array(o.xpos, float), np.array(d.xpos, float), f'positions after {log[-1]}')
        ctx.close(np.array(o.Ss), np.array(d.Ss), f'matrices after {log[-1]}', tol=1e-9)
        ctx.close(np.array(o.fs, float), np.array(d.fs, float), f'frequencies after {log[-1]}', tol=0)
        ctx.ev('operations on tables')
    f0, f1 = min(d.fs), max(d.fs)
    q = [float(x) for x in d.fs] + [float(np.round(rng.uniform(f0, f1)))]
    ask(ctx, F, o, d, list(d.ports), q, 'table after ' + '; '.join(log), tol=1e-8)
    a, b = rf.WriteTSF(o, None, fs=F.freqs(fs)), rf.WriteTSF(d, None, fs=list(fs))
    ctx.same([l for l in a.split('\n') if l[:1] != '!'], [l for l in b.split('\n') if l[:1] != '!'], 'touchstone text')
    z = rounded(rng, float(logu(rng, 5, 200)), .8)
    r, s = rf.ReadTSF(a, Zbase=F.num(z)), rf.ReadTSF(b, Zbase=z)
    ctx.close(np.asarray(r['Ss']), np.asarray(s['Ss']), 'touchstone data read', tol=1e-9)
    q = [f'q{k}' for k in rng.permutation(n)]
    ctx.same([str(p) for p in rf.ReadTSF(a, ports=F.order(q))['ports'] or []], q, 'names given for the ports of touchstone data')
    ctx.nontrivial(n, len(fs), log, sorted(F.used))


SCENARIOS = [('circuit', circuit, 3), ('nested', nested, 2), ('element', element, 3), ('section', section, 1), ('table', table, 2)]
MIN_EVENTS = {'values passed in another form': 5000, 'questions in other forms': 3000, 'operations on tables': 1000}
