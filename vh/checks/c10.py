"""C10: tabulated S-data"""
import pickle, copy
import numpy as np
from scipy.interpolate import make_interp_spline
from .. import elems, prog
from ..common import *
from ..elems import pick, logu, W
from ..core import Skip

RULE = ('tables of 1..12 points, 1..4 ports, any insertion order and batching, the interpolation kinds MA, dB, RI and '
        'orders 0..3, frequency units and reference impedances are subjected to random interleavings of insertion, '
        'overwriting, re-sorting of ports, re-referencing, de-embedding, copying and pickling with queries; every '
        'answer is compared with a plain table and an independent spline; non-trivial: at least one modification '
        'after a query; distinct by operation sequence')
ASSUMPTIONS = ['distinct frequencies', 'queries between (not outside) the tabulated frequencies',
               'phase steps between points not within 1e-3 of pi and |S| > 1e-6 for MA and dB interpolation']
QUICK, THOROUGH = 16000, 150000


class Table:
    """the plain meaning of the object"""
    def __init__(self, n, Z, interp, kind, ports):
        self.d, self.Z, self.interp, self.kind, self.ports, self.n = {}, Z, interp, kind, ports, n

    def fs(self):
        return sorted(self.d)

    def at(self, f):
        """(S, exact?) of the table at f (inside its range)"""
        if f in self.d:
            return self.d[f], True
        fs = self.fs()
        if len(fs) == 1:
            return self.d[fs[0]], False
        S = np.array([self.d[x] for x in fs])
        k = min(len(fs) - 1, self.kind)
        x = (np.array(fs) - fs[0]) / (fs[-1] - fs[0])
        xf = (f - fs[0]) / (fs[-1] - fs[0])
        sp = lambda y: make_interp_spline(x, y, k=k, axis=0)(xf)
        if self.interp == 'RI':
            return sp(S.real) + 1j * sp(S.imag), False
        if np.min(np.abs(S)) < 1e-6:
            raise Skip('phase of a vanishing element')
        st = np.angle(S[1:] / S[:-1])
        if np.any(np.abs(st) > np.pi - 1e-3):
            raise Skip('ambiguous phase')
        A = np.concatenate([np.angle(S[:1]), np.angle(S[:1]) + np.cumsum(st, axis=0)])
        if self.interp == 'MA':
            return sp(np.abs(S)) * np.exp(1j * sp(A)), False
        return np.exp(sp(np.log(np.abs(S)))) * np.exp(1j * sp(A)), False

    def query(self, f, Z=None):
        S, ex = self.at(f)
        if Z is None or Z == self.Z:
            return S, ex
        R = elems.AB_to_S(*elems.from_S(S, self.Z), Z)
        # a spline of the logarithm may overshoot by orders of magnitude
        e = 1e-12 * (-1.) ** np.add.outer(np.arange(len(S)), 2 * np.arange(len(S)) // 3)
        P = elems.AB_to_S(*elems.from_S(S * (1 + e), self.Z), Z)
        if not np.max(np.abs(P - R)) < 1e-10 * max(1, np.max(np.abs(R))):
            raise Skip('ill-conditioned renormalisation')
        return R, False

    def rez(self, Z):
        self.d = {f: elems.AB_to_S(*elems.from_S(S, self.Z), Z) for f, S in self.d.items()}
        self.Z = Z


def smooth(rng, n, f0, df):
    A, B, C = (elems.cplx(rng, n, n) / 2 for _ in range(3))
    t1, t2 = rng.uniform(-1.5, 1.5, 2) / (W * df)
    s = .9 / np.sqrt(n)
    return lambda f: s * .5 * (A + B * np.exp(-1j * W * (f - f0) * t1) + C * np.exp(-1j * W * (f - f0) * t2))


def newobj(ctx, rng, n, unit=None):
    kw = dict(Zbase=float(logu(rng, 5, 300)))
    ports = elems.names(rng, n)
    if rng.random() < .8:
        kw['ports'] = ports if rng.random() < .7 or any(' ' in p for p in ports) else ' '.join(ports)
    else:
        ports = None
    interp, kind = 'MA', 3
    if rng.random() < .7:
        interp = kw['interp'] = pick(rng, ['MA', 'dB', 'RI'])
    if rng.random() < .4:
        kind = int(rng.integers(1, 4))
        kw['interpkws'] = {'kind': kind}
        if unit:     # rounding may bring a border point out of the range
            kw['interpkws']['fill_value'] = 'extrapolate'
    if unit:
        kw['funit'] = unit
    return ctx.rf.rfObject(**kw), Table(n, kw['Zbase'], interp, kind, ports), kw


def ask(ctx, rng, o, t, between=True, mult=1., what='query', funit=None):
    """random queries of the object against the table"""
    fs = t.fs()
    if not fs:
        return
    q = [fs[int(i)] for i in rng.integers(len(fs), size=int(rng.integers(1, 4)))]
    if between and len(fs) > 1:
        q += [float(v) for v in rng.uniform(fs[0], fs[-1], int(rng.integers(1, 3)))]
    q = [q[i] for i in rng.permutation(len(q))]
    Z = None if rng.random() < .5 else t.Z if rng.random() < .2 else float(logu(rng, 5, 300))
    kw = {} if Z is None else {'Zbase': Z}
    if funit:
        kw['funit'] = funit
    want = [t.query(f, Z) for f in q]
    arg = [f * mult for f in q]
    if rng.random() < .4:
        got = [o.getS(a, **kw) for a in arg]
    else:
        got = np.asarray(o.getS(arg if rng.random() < .5 else np.array(arg), **kw))
        ctx.ok(got.shape == (len(q), t.n, t.n), f'{what}: shape', got=got.shape)
    for f, g, (w, ex) in zip(q, got, want):
        if ex and mult == 1:
            ctx.same(np.asarray(g), w, f'{what}: stored matrix at {f} not returned exactly')
            ctx.ev('exact answers')
        else:
            ctx.close(g, w, f'{what} at {f} (Zbase={Z}, {t.interp}, order {t.kind})', tol=1e-8)
            ctx.ev('stored or renormalised answers' if f in t.d else 'interpolated answers')


def insert(rng, o, t, fs, fun, first):
    """supply the points in random order and batches"""
    fs = [fs[i] for i in rng.permutation(len(fs))] if rng.random() < .7 else list(fs)
    k = 0
    while k < len(fs):
        m = int(rng.integers(1, 5))
        b = fs[k:k + m]
        k += m
        S = np.array([fun(f) for f in b])
        kw = {}
        if first and not t.ports and not o.ports:
            if rng.random() < .5:
                t.ports = elems.names(rng, t.n)
                kw['Portnames'] = list(t.ports)
            else:
                t.ports = ['%02d' % j for j in range(t.n)]
        if len(b) == 1 and rng.random() < .6:
            o.setS(b[0], S[0].copy() if rng.random() < .5 else S[0].tolist(), **kw)
        else:
            o.setS(b if rng.random() < .5 else np.array(b), S.copy(), **kw)
        for f, s in zip(b, S):
            t.d[f] = s
    return fs


def table(ctx, rng, unit=None):
    n = int(rng.integers(1, 5)) if rng.random() < .95 else int(rng.integers(9, 13))
    f0 = logu(rng, 1e6, 1e9) if not unit else float(rng.uniform(1, 100))
    np_ = int(pick(rng, [1, 2, 3, 4, 5, 8, 12, 40]))
    df = f0 * rng.uniform(.01, .1)
    fs = [float(f) for f in np.round(f0 + df * (np.arange(np_) + rng.uniform(-.3, .3, np_)), 0 if not unit else 4)]
    fs = sorted(set(fs))
    fun = smooth(rng, n, f0, df)
    o, t, kw = newobj(ctx, rng, n, unit)
    return n, f0, df, fs, fun, o, t, kw


def history(ctx, rng):
    n, f0, df, fs, fun, o, t, kw = table(ctx, rng)
    some = [fs[i] for i in rng.permutation(len(fs))[:int(rng.integers(1, len(fs) + 1))]]
    rest = [f for f in fs if f not in some]
    insert(rng, o, t, some, fun, True)
    log, queried, mod = [], False, False
    ctx.desc(kwargs=kw, points=fs, n=n, log=log)
    for _ in range(int(rng.integers(3, 11))):
        u = pick(rng, ['query', 'query', 'query', 'insert', 'sort', 'zbase', 'item', 'pickle', 'copy', 'deembed', 'iter'])
        log.append(u)
        if u == 'query':
            ask(ctx, rng, o, t, what='after ' + ','.join(log))
            queried = True
        elif u == 'insert':
            if not rest:
                continue
            b = [rest.pop() for _ in range(int(rng.integers(1, len(rest) + 1)))]
            insert(rng, o, t, b, fun, False)
            mod |= queried
        elif u == 'sort':
            perm = list(rng.permutation(n))
            if rng.random() < .6:
                perm = sorted(range(n), key=lambda k: t.ports[k])
                o.sortports()
            else:
                lst = [t.ports[k] for k in perm]
                if rng.random() < .4:        # the others follow in their order
                    m = int(rng.integers(0, n + 1))
                    lst, perm = lst[:m], perm[:m] + [k for k in range(n) if k not in perm[:m]]
                o.sortports(lst)
            t.ports = [t.ports[k] for k in perm]
            t.d = {f: S[np.ix_(perm, perm)] for f, S in t.d.items()}
            mod |= queried
        elif u == 'zbase':
            Z = float(logu(rng, 5, 300))
            o.convert2newZbase(Z)
            t.rez(Z)
            for f in t.d:                    # adopt the rounding
                S = o.getS(f)
                ctx.close(S, t.d[f], 'convert2newZbase', tol=1e-8)
                t.d[f] = np.array(S)
            mod |= queried
        elif u == 'item':
            f = pick(rng, t.fs())
            k = [j for j in range(len(t.d)) if o[j][0] == f]
            ctx.ok(len(k) == 1, 'index of a stored frequency', f=f, got=k)
            nf = f if rng.random() < .5 else float(np.round(f + df * rng.uniform(-.2, .2)))
            if nf != f and nf in t.d:
                nf = f
            S = fun(nf) * np.exp(1j * rng.uniform(-.5, .5))
            o[k[0]] = (nf, S.copy())
            del t.d[f]
            t.d[nf] = S
            mod |= queried
        elif u == 'pickle':
            o = pickle.loads(pickle.dumps(o))
            mod |= queried
        elif u == 'copy':
            o = pick(rng, [lambda: o.copy(), lambda: copy.copy(o), lambda: copy.deepcopy(o)])()
            mod |= queried
        elif u == 'deembed':
            p, L = int(rng.integers(n)), float(rng.uniform(-.3, .3) * 3e8 / f0 / 6)
            o.deembed({t.ports[p]: L})
            for f in t.d:
                S = t.d[f].copy()
                ph = np.exp(1j * W * f * L / elems.C0)
                S[p, :] *= ph
                S[:, p] *= ph
                g = o.getS(f)
                ctx.close(g, S, 'deembed', tol=1e-8)
                t.d[f] = np.array(g)
            mod |= queried
        else:
            d = {float(f): np.array(S) for f, S in o}
            ctx.ok(sorted(d) == t.fs(), 'iteration: frequencies', got=sorted(d), want=t.fs())
            for f in d:
                ctx.same(d[f], t.d[f], 'iteration: matrix')
        ctx.ok(list(o.ports) == t.ports and len(o) == n and o.Zbase == t.Z, 'ports or Zbase',
               got=[o.ports, o.Zbase], want=[t.ports, t.Z], log=log)
        ctx.ev('operations')
    for _ in range(3):
        ask(ctx, rng, o, t, what='finally after ' + ','.join(log))
    if mod:
        ctx.nontrivial(log, n, len(fs), t.interp, t.kind)


def order(ctx, rng):
    """insertion order and batching do not matter"""
    n, f0, df, fs, fun, o, t, kw = table(ctx, rng)
    order = insert(rng, o, t, fs, fun, True)
    ctx.desc(kwargs=kw, order=order, n=n)
    kw2 = dict(kw, ports=list(t.ports))
    p = ctx.rf.rfObject(**kw2)
    p.setS(fs, np.array([fun(f) for f in fs]))
    for _ in range(3):
        ask(ctx, rng, o, t)
        ask(ctx, rng, p, t)
    if len(fs) > 1:
        ctx.nontrivial(order == sorted(order), n, len(fs), t.interp, t.kind)
        q = [float(v) for v in rng.uniform(fs[0], fs[-1], 3)]
        ctx.close(o.getS(q), p.getS(q), 'inserted in another order', tol=1e-9)


def units(ctx, rng):
    """an object in another frequency unit"""
    unit = pick(rng, ['Hz', 'kHz', 'MHz', 'GHz', 'MHZ', 'mhz'])
    n, f0, df, fs, fun, o, t, kw = table(ctx, rng, unit)
    insert(rng, o, t, fs, fun, True)
    ctx.desc(kwargs=kw, points=fs, n=n)
    U = {'HZ': 1., 'KHZ': 1e3, 'MHZ': 1e6, 'GHZ': 1e9}
    for _ in range(2):
        ask(ctx, rng, o, t, what='own unit')
        v = pick(rng, list(U))
        ask(ctx, rng, o, t, mult=U[unit.upper()] / U[v], what=f'{unit} object asked in {v}', funit=v)
    ctx.ev('unit conversions', 2)
    ctx.nontrivial(unit, v, n, len(fs))


def constant(ctx, rng):
    """an object made from a matrix alone holds it at any frequency"""
    n = int(rng.integers(1, 6))
    S = elems.rand_S(rng, n, 'any')
    kw = {}
    Z = 50.
    ports = [f'm{k:03d}' for k in range(1, n + 1)]
    if rng.random() < .5:
        Z = kw['Zbase'] = float(logu(rng, 5, 300))
    if rng.random() < .5:
        ports = kw['ports'] = elems.names(rng, n)
    o = ctx.rf.rfObject(S.copy() if rng.random() < .5 else S.tolist(), **kw)
    ctx.ok(list(o.ports) == list(ports) and len(o) == n, 'ports', got=o.ports)
    fs = [logu(rng, 1, 1e12) for _ in range(3)] + [0.]
    ctx.close(o.getS(fs), np.array([S] * 4), 'constant object', tol=1e-9)
    z = logu(rng, 5, 300)
    ctx.close(o.getS(fs[0], Zbase=z), elems.AB_to_S(*elems.from_S(S, Z), z), 'constant object at another impedance', tol=1e-8)
    ctx.desc(n=n, kwargs=kw)
    ctx.nontrivial(n, sorted(kw))


def incircuit(ctx, rng):
    """inside a circuit: at the stored points and in between"""
    n, f0, df, fs, fun, o, t, kw = table(ctx, rng)
    insert(rng, o, t, fs, fun, True)
    c = ctx.rf.rfCircuit(Zbase=float(logu(rng, 5, 200)))
    c.addblock('B', o)
    q = list(fs) + ([float(v) for v in rng.uniform(fs[0], fs[-1], 2)] if len(fs) > 1 else [])
    w = [t.query(f, c.Zbase)[0] for f in q]
    for i in rng.permutation(len(q)):
        ctx.close(c.getS(q[i]), w[i], f'circuit at {q[i]}', tol=1e-7)
    ctx.close(c.getS(q), np.array(w), 'circuit, all frequencies', tol=1e-7)
    # one more point changes the interpolant
    if len(fs) > 1:
        nf = float(np.round(rng.uniform(fs[0], fs[-1])))
        if nf not in t.d:
            S = fun(nf)
            d = ctx.rf.rfCircuit(Zbase=c.Zbase)
            o.setS(nf, S.copy())
            t.d[nf] = S
            d.addblock('B', o)
            for f in (nf, q[-1]):
                ctx.close(d.getS(f), t.query(f, c.Zbase)[0], 'circuit after inserting a point', tol=1e-7)
    ctx.desc(kwargs=kw, points=fs)
    ctx.nontrivial(n, len(fs), t.interp, t.kind)


def defaults(ctx, rng):
    """the package defaults: those in force when the object is made, no later ones"""
    import pyRFtk.config as cfg
    keep = copy.deepcopy(cfg.rcparams)
    n = int(rng.integers(1, 4))
    f0 = float(rng.uniform(1, 100))
    fs = sorted({float(np.round(f0 * (1 + .05 * k + rng.uniform(0, .02)), 4)) for k in range(int(pick(rng, [1, 2, 3, 4, 5, 8])))})
    fun = smooth(rng, n, f0, .05 * f0)

    def draw():
        return dict(Zbase=float(logu(rng, 5, 300)), interp=pick(rng, ['MA', 'dB', 'RI']), funit=pick(rng, ['Hz', 'kHz', 'MHz', 'GHz']),
                    interpkws={'kind': int(rng.integers(1, 4)), 'fill_value': 'extrapolate'})
    d1, d2 = draw(), draw()
    given = {k: d for k, d in draw().items() if rng.random() < .3}
    have = dict(d1, **given)
    U = {'HZ': 1., 'KHZ': 1e3, 'MHZ': 1e6, 'GHZ': 1e9}
    ctx.desc(defaults=d1, later=d2, given=given, points=fs)
    try:
        cfg.rcparams.update(copy.deepcopy(d1))
        o = ctx.rf.rfObject(**copy.deepcopy(given), ports=elems.names(rng, n))
        t = Table(n, have['Zbase'], have['interp'], have['interpkws']['kind'], list(o.ports))
        insert(rng, o, t, fs, fun, True)
        if rng.random() < .5:
            ask(ctx, rng, o, t, what='with the defaults in force')
        if rng.random() < .5:
            cfg.rcparams['interpkws']['kind'] = d2['interpkws']['kind']
            for k in ('Zbase', 'interp', 'funit'):
                cfg.rcparams[k] = d2[k]
        else:
            cfg.rcparams.update(copy.deepcopy(d2))
        ctx.ok(o.Zbase == t.Z, 'Zbase after a change of the defaults', got=o.Zbase, want=t.Z)
        for c in (o, o.copy(), pickle.loads(pickle.dumps(o))):
            ask(ctx, rng, c, t, what='after a change of the defaults')
            v = pick(rng, list(U))
            ask(ctx, rng, c, t, mult=U[have['funit'].upper()] / U[v], what=f'asked in {v}', funit=v)
    finally:
        cfg.rcparams.clear()
        cfg.rcparams.update(keep)
    ctx.ev('changes of the defaults')
    ctx.nontrivial(n, len(fs), have['interp'], have['funit'], sorted(given), d2['interp'])


SCENARIOS = [('defaults', defaults, .5), ('history', history, 5), ('order', order, 2), ('units', units, 1), ('constant', constant, 1), ('incircuit', incircuit, 1)]
MIN_EVENTS = {'exact answers': 2000, 'interpolated answers': 2000, 'operations': 3000, 'unit conversions': 100}
