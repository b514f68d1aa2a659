"""C16: observing never changes or breaks anything"""
import copy, os, glob, importlib
import numpy as np
from .. import prog, elems, line, core
from ..common import *
from ..hist import Hist, fresh, newvalue, settables
from ..elems import pick, logu
from ..core import Skip, CaseViolation

RULE = ('twin objects go through the same random history of building, modifying and querying; one of them is observed in between '
        '(texts, lists, locating, positions, solutions, maximum voltages, other log levels) and both have to answer identically; '
        'observers are also called in every intermediate state of building, and random scenarios of all other checks are executed '
        'at a verbose log level, where they have to end as they do with the log off; non-trivial: observers were called between '
        'operations')
ASSUMPTIONS = ASSUME + ['the text of the log itself is not judged', 'a scenario that fails with the log switched off as well does not count here']
QUICK, THOROUGH = 1500, 16000

LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL', 'NOTSET', 10, 20, 15, 5, 50]


class level:
    """execute at another log level"""
    def __init__(self, ctx, lv):
        self.ctx, self.lv = ctx, lv
    def __enter__(self):
        self.ctx.rf.setLogLevel(self.lv)
        self.ctx.ev(f'log level {self.lv}')
    def __exit__(self, *_):
        self.ctx.rf.setLogLevel('CRITICAL')
        fn = os.path.join(self.ctx.scratch, 'rfCommon.log')
        if os.path.exists(fn):
            self.ctx.ev('bytes logged', os.stat(fn).st_blocks * 512)
            os.truncate(fn, 0)


def observers(ctx, rng, c, m, fs, solvable=True):
    """[(name, function)] of an (possibly unfinished) circuit"""
    nodes = list(m.all())
    blocks = [p for p, _ in __import__('vh.hist', fromlist=['paths']).paths(m.spec)]
    obs = [('str', lambda: str(c)), ('asstr', lambda: c.asstr()), ('asstr(1)', lambda: c.asstr(1)), ('repr', lambda: repr(c)),
           ('len', lambda: len(c)), ('listBlocks', c.listBlocks), ('findObj unknown', lambda: c.findObj('NO.SUCH')),
           ('ports', lambda: list(c.ports))]
    if blocks:
        obs += [('findObj', lambda: c.findObj(pick(rng, blocks))), ('object', lambda: c.object(pick(rng, blocks))),
                ('findObj below', lambda: c.findObj(pick(rng, blocks) + '.x')),
                ('text of a block', lambda: str(c.object(pick(rng, blocks)))),
                ('full text of a block', lambda: (lambda o: o.asstr(1) if hasattr(o, 'asstr') else repr(o))(c.object(pick(rng, blocks))))]
    if nodes:
        obs += [('getpos', lambda: c.getpos(pick(rng, nodes)))] * 2
        obs += [('resolve_xpos', c.resolve_xpos)] * (not solvable)
    if solvable and m.free:
        f = pick(rng, fs)
        Z = pick(rng, [None, float(logu(rng, 5, 200))])
        E = excite(rng, m.order())
        obs += [('Solution', lambda: c.Solution(f, dict(E), Zbase=Z)), ('maxV', lambda: c.maxV(f, dict(E), Z)),
                ('Solution of nodes', lambda: c.Solution(f, dict(E), nodes=[pick(rng, list(m.ports))])),
                ('getS', lambda: c.getS(f, Zbase=Z)), ('getS vector', lambda: c.getS(list(fs))),
                ('internal S', lambda: c.Get_internalSmatrix(f, list(m.order()))),
                ('tsf2str', lambda: c.tsf2str(fs=list(fs))), ('strVSW', lambda: ctx.rf.strVSW(c.maxV(f, dict(E), Z)[2]))]
    return obs


def observe(ctx, rng, c, m, fs, n, log, solvable=True):
    for _ in range(n):
        name, fun = pick(rng, observers(ctx, rng, c, m, fs, solvable))
        lv = pick(rng, LEVELS) if rng.random() < .15 else None
        log.append(name if lv is None else f'{name} at {lv}')
        try:
            if lv is None:
                r = fun()
            else:
                with level(ctx, lv):
                    r = fun()
        except Skip:
            raise
        except Exception as e:
            ctx.fail(f'{log[-1]} raised {type(e).__name__}: {e}', log=log[-12:])
        ctx.ev('observer ' + name)
        if name in ('str', 'asstr', 'asstr(1)', 'repr'):
            ctx.ok(isinstance(r, str), f'{name} is not a text')
        elif name == 'listBlocks':
            from ..hist import paths
            ctx.ok(sorted(r) == sorted(p for p, _ in paths(m.spec)), 'listBlocks: not the blocks of all levels', got=r)
        elif name in ('findObj unknown', 'findObj below'):
            known = name == 'findObj below' and r is not None and False
            ctx.ok(r is None or known or name == 'findObj below', 'an object was found where there is none')
        elif name == 'ports':
            ctx.ok(sorted(r) == sorted(m.free), 'ports changed', got=r, want=m.free)


def fingerprint(ctx, rng, c, m, fs):
    f = fs[0]
    E = {p: complex(i + 1, -.5 * i) for i, p in enumerate(m.order())}
    for x in fs:
        m.check(x)
    return dict(S=[c.getS(x) for x in fs], S7=c.getS(f, Zbase=7.), ports2=list(c.ports),
                sol={k: tuple(v) for k, v in sorted(c.Solution(f, E).items())}, V=float(c.maxV(f, E)[0]), where=str(c.maxV(f, E)[1:2])[-30:],
                pos=[c.getpos(p) for p in sorted(m.all())], n=len(c), blocks=c.listBlocks(), portnames=list(c.Portnames))


def twins(ctx, rng):
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=pick(rng, [0, 1, 1, 2]), share=0, maxext=4)
    for f in fs:
        prog.Model(spec).check(f)
    prog.observe(ctx, spec)
    log = []
    ctx.desc(program=prog.text(spec), freqs=fs, log=log)
    seed = int(rng.integers(2**31))
    hs = [Hist(ctx, np.random.default_rng(seed), fs, fresh(spec)) for _ in range(2)]
    n = 0
    for _ in range(int(rng.integers(2, 8))):
        mod = rng.random() < .5
        for h in hs:
            h.modify([k for k in h.MODS]) if mod else h.query(['S', 'Sz', 'sol', 'maxV', 'Svec'])
        log.append(hs[0].log[-1] if hs[0].log else '')
        k = int(rng.integers(0, 4))
        m = hs[0].model()
        for f in fs:
            m.check(f)
        observe(ctx, rng, hs[0].c, m, fs, k, log)
        n += k
    # (texts hold object ids and are not compared)
    a, b = [fingerprint(ctx, rng, h.c, h.model(), fs) for h in hs]
    for k in a:
        if k == 'where':
            continue
        if k in ('S', 'S7', 'V', 'pos'):
            ctx.close(np.array(a[k]), np.array(b[k]), f'{k} of the observed object differs from its twin', tol=1e-12, log=log[-12:])
        elif k == 'sol':
            ctx.ok(list(a[k]) == list(b[k]), 'nodes of the solution differ')
            ctx.close(np.array(list(a[k].values())), np.array(list(b[k].values())), 'solution of the observed object', tol=1e-12)
        else:
            ctx.same(a[k], b[k], f'{k} of the observed object differs from its twin', log=log[-12:])
    if n:
        ctx.nontrivial(prog.shape(spec), log)


def unfinished(ctx, rng):
    """observers while a circuit is being built"""
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=pick(rng, [0, 1, 1]), maxext=4)
    prog.observe(ctx, spec)
    log = []
    ctx.desc(program=prog.text(spec), log=log)
    kw = {}
    if spec['Portnames']:
        kw['Portnames'] = list(spec['Portnames'])
    c = ctx.rf.rfCircuit(Zbase=spec['Zbase'], **kw)
    sub = dict(spec, ops=[])
    m = prog.Model(sub)
    env = {}
    for op in [None] + spec['ops']:
        if op is not None:
            lv = pick(rng, LEVELS) if rng.random() < .2 else 'CRITICAL'
            with level(ctx, lv):
                prog.do(ctx.rf, c, op, env)
            sub['ops'].append(op)
            m = prog.Model(dict(sub, Portnames=None))
            ctx.ok(sorted(c.ports) == sorted(m.free), f'free ports after {op[0]} at {lv}', got=c.ports, want=m.free)
        observe(ctx, rng, c, m, fs, int(rng.integers(0, 4)), log, solvable=False)
    m = prog.Model(spec)
    for f in fs:
        compS(ctx, c, m, f, what='S-matrix after observing the building')
    for p, x in m.allpos().items():
        ctx.close(c.getpos(p), x, f'position of {p}', tol=1e-9)
    if log:
        ctx.nontrivial(prog.shape(spec), log)


def elements(ctx, rng):
    fs = prog.freqs(rng, 2)
    sp = elems.gen(rng, fs, pick(rng, elems.KINDS[1:]), 'passive')
    a, b = elems.make(ctx.rf, sp), elems.make(ctx.rf, sp)
    Z0 = sp['kw'].get('Zbase', 50.)
    log = []
    ctx.desc(element=elems.describe(sp), log=log)
    E = dict(zip(elems.port_names(sp), elems.cplx(rng, sp['n'])))
    obs = [('str', lambda: str(a)), ('repr', lambda: repr(a)), ('len', lambda: len(a)),
           ('ports', lambda: list(a.ports)), ('xpos', lambda: list(a.xpos)), ('getS', lambda: a.getS(pick(rng, fs))),
           ('getS vector', lambda: a.getS(list(fs), Zbase=13.))]
    if hasattr(a, 'asstr'):
        obs += [('asstr', lambda: a.asstr()), ('asstr(1)', lambda: a.asstr(1))]
    if hasattr(a, 'maxV'):
        obs += [('maxV', lambda: a.maxV(pick(rng, fs), dict(E), Zbase=pick(rng, [None, 7.])))]
    if hasattr(a, 'tsf2str'):
        obs += [('tsf2str', lambda: a.tsf2str(fs=list(fs)))]
    for _ in range(int(rng.integers(3, 9))):
        name, fun = pick(rng, obs)
        lv = pick(rng, LEVELS) if rng.random() < .4 else 'CRITICAL'
        log.append(f'{name} at {lv}')
        try:
            with level(ctx, lv):
                fun()
        except Exception as e:
            ctx.fail(f'{log[-1]} raised {type(e).__name__}: {e}')
        ctx.ev('observer of an element')
        if sp['kind'] in ('rlc', 'trl', 'arc') and rng.random() < .3 and np.isfinite(sp['kw'].get('Larc', 1.)):
            at, v = newvalue(rng, sp, fs[0])
            ra, rb = a.set(**{at: v}), b.set(**{at: v})
            ctx.ok(bool(ra) == bool(rb), 'set: return values differ')
            sp['kw'][at] = v
    for f in fs:
        for Z in (None, 13.):
            kw = {} if Z is None else dict(Zbase=Z)
            ctx.close(a.getS(f, **kw), b.getS(f, **kw), f'observed element after {log}', tol=1e-13)
        ctx.close(a.getS(f), elems.AB_to_S(*elems.ref(sp, f, 50.), Z0), 'observed element', tol=1e-7)
    ctx.same((list(a.ports), list(map(float, a.xpos))), (list(b.ports), list(map(float, b.xpos))), 'ports or positions of the observed element')
    ctx.nontrivial(sp['kind'], log)


_mods = {}
def scenarios():
    if not _mods:
        here = os.path.dirname(os.path.abspath(__file__))
        for fn in sorted(glob.glob(os.path.join(here, 'c[0-9][0-9].py'))):
            n = os.path.basename(fn)[:-3]
            if n != 'c16':
                m = importlib.import_module('vh.checks.' + n)
                m.PID = n.upper()
                _mods[n] = [(nm, f) for nm, f, w in m.SCENARIOS]
    return _mods


def levels(ctx, rng):
    """scenarios of the other checks end alike at every log level"""
    mods = scenarios()
    n = pick(rng, sorted(mods))
    name, fun = pick(rng, mods[n])
    seed = int(rng.integers(2**31))
    lv = pick(rng, ['DEBUG', 'DEBUG', 'DEBUG', 'INFO', 'WARNING', 10])
    ctx._desc.clear()
    ctx.desc(scenario='levels', executed=f'{n}.{name}', level=lv, rngseed=seed)
    def run():
        np.random.seed(seed)
        fun(ctx, np.random.default_rng(seed))
    try:
        with level(ctx, lv):
            run()
    except Skip:
        raise
    except Exception as e:
        if type(e).__name__ == 'Alarm':
            raise Skip('too slow with the log')
        first = e
        try:
            run()
        except Exception:
            raise Skip('does not hold with the log off either')
        ctx.fail(f'{n}.{name} at log level {lv}: {type(first).__name__}: {str(first)[:600]} (holds with the log off)')
    ctx.ev('other scenarios with the log on')
    ctx.nontrivial(n, name, lv, seed)


SCENARIOS = [('twins', twins, 3), ('unfinished', unfinished, 3), ('elements', elements, 3), ('levels', levels, 4)]
MIN_EVENTS = {'log level DEBUG': 50, 'other scenarios with the log on': 60, 'observer maxV': 5, 'observer asstr(1)': 30, 'observer of an element': 100,
              'bytes logged': 10000}
