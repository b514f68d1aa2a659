"""C13: results depend on the present definition only"""
import copy
import numpy as np
from .. import prog, elems, line
from ..common import *
from ..hist import Hist, fresh, newvalue, present, again
from ..elems import pick, logu
from ..core import Skip

RULE = ('random histories of queries (scattering matrices, solutions, maximum voltages, texts, other frequencies, '
        'impedances and flags) interleaved with modifications (all forms of set, re-termination, termination, '
        'replacement at any depth, announced order, direct changes of shared blocks, copies) on random nested circuits '
        'and on single elements; after every step the answers are compared with an independent model of the present '
        'definition and with freshly built objects; non-trivial: a modification after a query; distinct by the history')
ASSUMPTIONS = ASSUME + ['blocks and connections are not added after the first query (documented), the other '
                        'modifications are made at any time', 'parameters handed to getS(params=) are meant to persist']
QUICK, THOROUGH = 3000, 50000


def history(ctx, rng, depth=1, share=0., copies=True, **kw):
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=depth, share=share, maxext=4, relpos=False, **kw)
    prog.observe(ctx, spec)
    ctx.desc(program=prog.text(spec), freqs=fs)
    h = Hist(ctx, rng, fs, spec)
    ctx._desc['log'] = h.log
    mods = h.MODS if not share else [m for m in h.MODS if m != 'dotted']
    seen = False
    for _ in range(int(rng.integers(4, 14))):
        u = rng.random()
        if u < .45:
            if h.modify(mods) and h.nquery:
                seen = True
        elif u < .52 and copies:
            h.c = pick(rng, [h.c.copy, lambda: copy.copy(h.c), lambda: copy.deepcopy(h.c)])()
            h.log.append('copy')
            ctx.ev('copies')
        else:
            h.query()
    h.final()
    if seen:
        ctx.nontrivial(prog.shape(spec), [l.split()[0] for l in h.log])


def flat(ctx, rng):
    history(ctx, rng, 0)


def nested(ctx, rng):
    history(ctx, rng, 2, force_nested=True)


def shared(ctx, rng):
    """the same object in several places: a change shows at all of them"""
    history(ctx, rng, 1, share=.6, copies=False, nblk=int(rng.integers(2, 5)))


def elements(ctx, rng):
    """histories of single elements"""
    fs = prog.freqs(rng, 3)
    while True:
        sp = elems.gen(rng, fs, pick(rng, ['rlc', 'trl', 'arc', 'cpl', 'base', 'obj']), 'passive')
        if 'Larc' not in sp['kw'] or np.isfinite(sp['kw']['Larc']):
            break
    o = elems.make(ctx.rf, sp)
    Z0 = sp['kw'].get('Zbase', 50.)
    log, mod, qd = [], False, False
    past = []
    neg = rng.random() < .3        # negative lengths, scattering matrices only
    ctx.desc(element=elems.describe(sp), freqs=fs, log=log)
    ports = elems.port_names(sp)
    for _ in range(int(rng.integers(4, 14))):
        u = rng.random()
        f = pick(rng, fs)
        if u < .4 and sp['kind'] in ('rlc', 'trl', 'arc'):
            a, v = newvalue(rng, sp, fs[0])
            if a == 'L' and neg and rng.random() < .4:
                v = -v
            log.append(f'set {a}')
            r = o.set(**{a: v})
            ctx.ok(bool(r) == (present(sp, a) != v), 'set: return value', got=r)
            sp['kw'][a] = v
            mod |= qd
        elif u < .47:
            o = pick(rng, [o.copy, lambda: copy.deepcopy(o)])()
            log.append('copy')
        elif u < .85:
            Z = None if rng.random() < .5 else float(logu(rng, 3, 300))
            g = (o.getS(f) if Z is None else o.getS(f, Zbase=Z)) if rng.random() < .6 else \
                (o.getS([f]) if Z is None else o.getS([f], Zbase=Z))[0]
            log.append('getS')
            w = elems.AB_to_S(*elems.ref(sp, f, 50.), Z or Z0)
            ctx.close(g, w, f'getS({f}, {Z}) after {log[-6:]}', tol=1e-7)
            qd = True
        elif hasattr(o, 'maxV') and not neg:
            E = again(rng, ports, past)
            log.append('maxV')
            v = o.maxV(f, dict(E), Zbase=Z0)[0]
            w = elems.make(ctx.rf, sp).maxV(f, dict(E), Zbase=Z0)[0]
            ctx.close(float(v), float(w), f'maxV after {log[-6:]}', tol=1e-9, atol=0.)
            a = np.array(list(E.values()))
            V = a + elems.AB_to_S(*elems.ref(sp, f, 50.), Z0) @ a
            ctx.ok(v >= np.abs(V).max() * (1 - 1e-6) - 1e-9, 'maxV below a port voltage')
            qd = True
        ctx.ev('element operations')
    if mod or sp['kind'] in ('cpl', 'base', 'obj'):
        ctx.nontrivial(sp['kind'], log)


def flat_(x):
    if isinstance(x, (list, tuple)) and any(np.ndim(v) for v in x):
        return sum([flat_(v) for v in x], [])
    if isinstance(x, dict):
        return flat_(list(x.values()))
    return [np.asarray(x)]


def lines(ctx, rng):
    """non-uniform lines: other frequencies, excitations, impedances in between do not matter"""
    f = logu(rng, 1e7, 3e8)
    ln = line.gen(rng, f, vary=rng.random() < .6)
    kw = dict(Zbase=float(logu(rng, 10, 200)))
    par = {}
    mk = lambda: ctx.rf.rfTRL(**dict(ln.args(), **par), **kw)
    o = mk()
    fs = [f, 1.1 * f, .8 * f]
    ctx.desc(line=ln.text(), f=f)
    first, past = {}, []
    for k in range(10):
        x = pick(rng, fs)
        u = int(rng.integers(4 if ln.varies else 5))
        if u == 4:
            x, e, w = pick(rng, fs), {p: complex(*rng.normal(size=2)) for p in '12'}, float(pick(rng, [50., kw['Zbase']]))
            q = pick(rng, [lambda o: o.VISWs(x, dict(e), w), lambda o: o.maxV(x, dict(e), w)])
            q(o)
            # another discretisation (and back): the answers follow
            old = par.get('dx')
            par['dx'] = float(pick(rng, [ln.L / 7, ln.L / 23, ln.L / 50, ln.L / 110]))
            r = o.set(dx=par['dx'])
            ctx.ok(bool(r) == (old != par['dx']) or old is None, 'set: return value', got=r)
            first = {}
            for a, b in zip(flat_(q(o)[:2]), flat_(q(mk())[:2])):
                ctx.ok(a.shape == b.shape and (a.dtype.kind in 'OU' or np.allclose(a, b, rtol=1e-9, atol=0)),
                       'standing wave repeated after another discretisation', got=a, want=b)
            ctx.ev('other discretisations')
            continue
        if u == 0:
            key, q = ('S', x), lambda o: o.getS(x)
        elif u == 1:
            key, q = ('Sz', x), lambda o: o.getS(x, Zbase=33.)
        else:
            E = again(rng, ['1', '2'], past)
            z = pick(rng, [50., kw['Zbase']])
            key = ('VV'[u - 2], x, z, tuple(E.values()))
            if u == 2:
                q = lambda o: np.concatenate([np.ravel(v) for v in flat_(o.VISWs(x, dict(E), z))])
            else:
                q = lambda o: float(o.maxV(x, dict(E), z)[0])
            key = (u, *key)
        val = q(o)
        if key in first:
            ctx.ok(np.shape(val) == np.shape(first[key]), f'{key} repeated: number of points')
            ctx.close(val, first[key], f'{key} repeated', tol=1e-9, atol=0.)
        else:
            w = q(mk())
            ctx.ok(np.shape(val) == np.shape(w), f'{key} against a fresh line: number of points')
            ctx.close(val, w, f'{key} against a fresh line', tol=1e-9, atol=0.)
            first[key] = val
        ctx.ev('line operations')
    ctx.nontrivial(sorted(ln.P), ln.varies)


SCENARIOS = [('flat', flat, 3), ('nested', nested, 4), ('shared', shared, 2), ('elements', elements, 3), ('lines', lines, 1)]
MIN_EVENTS = {'modification set': 300, 'modification reterm': 30, 'modification term': 30, 'modification replace': 100,
              'modification dotted': 50, 'modification Portnames': 30, 'modification direct': 50, 'copies': 100,
              'query S': 300, 'query sol': 100, 'query maxV': 100, 'element operations': 1000}
