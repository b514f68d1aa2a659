"""C21: composition conserves power, passivity and reciprocity"""
import numpy as np
from .. import prog, elems, line, hist
from ..core import Skip
from ..common import *
from ..elems import pick, logu

RULE = ('random circuits of passive, lossless, lossless reciprocal, reciprocal or arbitrary blocks with terminations '
        'of the same kind are executed; singular values, unitarity and symmetry of the matrices they return are '
        'monitored at several frequencies and reference impedances, also after modifications; for random '
        'excitations the power entering the external ports is balanced against the powers the solution reports for '
        'every block and termination, level by level, each with the sign its kind allows, and along every line '
        'section; non-trivial: at least one junction or termination, or a section with losses; distinct by structure '
        'and kind')
ASSUMPTIONS = ASSUME + ['real reference impedances', 'tables are asked at their own frequencies']
QUICK, THOROUGH = 4000, 60000
TOL = 1e-6


def judge(ctx, S, cls, what, tol=TOL):
    S = np.asarray(S)
    n = len(S)
    if not np.all(np.isfinite(S)):
        ctx.fail(f'{what}: not finite', S=S)
    if cls != 'any' and cls != 'recip':
        s = np.linalg.svd(S, compute_uv=False)
        ctx.ok(s.max() <= 1 + tol, f'{what}: passive blocks, active result', singular_values=s)
        ctx.ev('passivity verdicts')
        if cls.startswith('lossless'):
            ctx.close(S.conj().T @ S, np.eye(n), f'{what}: lossless blocks, lossy result', tol=2 * tol)
            ctx.ev('losslessness verdicts')
    if 'recip' in cls:
        ctx.close(S, S.T, f'{what}: reciprocal blocks, non-reciprocal result', tol=tol * max(1, np.abs(S).max()))
        ctx.ev('reciprocity verdicts')


def gen(rng, fs, cls, **kw):
    kinds = None
    if cls == 'any':
        kinds = ['arr', 'base', 'obj', 'rlc', 'trl', 'cpl']
    return prog.gen_circuit(rng, fs, cls=cls, kinds=kinds, **kw)


CLS = ['passive', 'lossless', 'losslessrecip', 'recip']


def smat(ctx, rng, **kw):
    fs = prog.freqs(rng)
    cls = pick(rng, CLS)
    spec = gen(rng, fs, cls, **kw)
    m = prog.Model(spec)
    prog.observe(ctx, spec)
    ctx.desc(program=prog.text(spec), kind=cls, freqs=fs)
    for f in fs:
        m.check(f)
    c = prog.build(ctx.rf, spec)
    for f in fs:
        judge(ctx, c.getS(f), cls, 'S-matrix')
        Z = float(logu(rng, 2, 500))
        judge(ctx, c.getS(f, Zbase=Z), cls, f'S-matrix at {Z:.3g} Ohm')
    for S in np.asarray(c.getS(fs)):
        judge(ctx, S, cls, 'S-matrix (several frequencies)')
    n = prog.size(spec)
    if n[2] + n[3] + n[4]:
        ctx.nontrivial(prog.shape(spec), cls)


def flat(ctx, rng):
    smat(ctx, rng, depth=0)


def nested(ctx, rng):
    smat(ctx, rng, depth=2, force_nested=True)


def history(ctx, rng):
    """still so after modifications"""
    fs = prog.freqs(rng)
    cls = pick(rng, ['passive', 'losslessrecip', 'recip'])
    spec = gen(rng, fs, cls, depth=1, share=0)
    h = hist.Hist(ctx, rng, fs, spec)
    ctx.desc(program=prog.text(spec), log=h.log, kind=cls)
    for _ in range(int(rng.integers(2, 5))):
        if cls == 'losslessrecip':       # only lengths and reactances
            lv = [(p, s) for p, s in hist.settables(h.spec) if s['kind'] == 'trl']
            if lv:
                p, s = pick(rng, lv)
                L = float(rng.uniform(.01, .6) * elems.C0 / fs[0])
                h.log.append(f'set {p}.L {L}')
                h.c.set(f'{p}.L', L)
                s['kw']['L'] = L
                ctx.ev('modification set')
        else:
            h.modify(['set', 'direct', 'reterm'])
        m = h.model()
        f = pick(rng, fs)
        m.check(f)
        judge(ctx, h.c.getS(f), cls, f'S-matrix after {h.log[-3:]}')
        if not m.ambiguous():
            balance(ctx, rng, h.c, m, f, cls)
    ctx.nontrivial(prog.shape(spec), cls, [l.split()[0] for l in h.log])


def balance(ctx, rng, c, m, f, cls, Z=None):
    """power in = sum of powers absorbed, from the reported solution only"""
    E = excite(rng, m.order())
    s = c.Solution(f, dict(E)) if Z is None else c.Solution(f, dict(E), Zbase=Z)
    Zb = m.Zbase if Z is None else Z
    P = lambda p: float(np.real(s[p][0] * np.conj(s[p][1])))
    pin = sum(P(p) for p in m.free)
    sc = max([1e-9] + [abs(v[0]) * abs(v[1]) for v in s.values()]
             + [max(abs(v[0]) for v in s.values()) ** 2 / 50]
             + [abs(s[p][0] + Zb * s[p][1]) ** 2 / Zb / 100 for p in m.free])      # (a short-circuited port has no voltage)

    def small(x, what):
        ctx.ev('oracle_verdicts')
        ctx.ev('power balances')
        if not abs(x) <= TOL * sc:
            ctx.fail(what, residual=x, scale=sc)

    def sign(p, kind, what):
        """power absorbed by an element of that kind"""
        if kind == 'passive' or kind.startswith('lossless'):
            ctx.ok(p >= -TOL * sc, f'{what}: passive and delivers power', power=p, scale=sc)
        if kind.startswith('lossless'):
            small(p, f'{what}: lossless and absorbs power')

    def level(m, prefix):
        """power absorbed inside this level"""
        tot = 0.
        for b, (child, ports, _) in m.blocks.items():
            at = sum(P(f'{prefix}{b}.{p}') for p in ports)
            if child['kind'] == 'circ':
                small(at - level(m.subs[b], f'{prefix}{b}.'), f'power into {prefix}{b} and absorbed inside')
            else:
                k = cls
                if child['kind'] in ('rlc', 'trl', 'arc', 'cpl') and not cls.startswith('lossless'):
                    k = 'passive'
                sign(at, k, f'block {prefix}{b}')
                ctx.ev('block powers')
            tot += at
        for q in m.termd:
            # current into the termination is minus that into the network behind the port
            p = -P(prefix + q)
            tot += p
            sign(p, cls if cls.startswith('lossless') else 'passive', f'termination of {prefix}{q}')
            ctx.ev('termination powers')
        return tot
    small(pin - level(m, ''), 'power entering the ports and absorbed by blocks and terminations')
    # and from the waves that were imposed
    S = np.asarray(c.getS(f) if Z is None else c.getS(f, Zbase=Z))
    a = np.array([E[p] for p in c.ports])
    b = S @ a
    small(pin - float(np.sum(np.abs(a) ** 2 - np.abs(b) ** 2)) / Zb, 'power entering the ports from the waves')


def power(ctx, rng):
    fs = prog.freqs(rng)
    cls = pick(rng, CLS + ['any', 'passive'])
    spec = gen(rng, fs, cls, depth=int(rng.integers(0, 3)))
    m = prog.Model(spec)
    if m.ambiguous():
        raise Skip('ambiguous node names')
    prog.observe(ctx, spec)
    ctx.desc(program=prog.text(spec), kind=cls, freqs=fs)
    c = prog.build(ctx.rf, spec)
    for f in fs[:2]:
        m.check(f)
        balance(ctx, rng, c, m, f, cls, None if rng.random() < .5 else float(logu(rng, 3, 300)))
    n = prog.size(spec)
    if n[2] + n[3] + n[4]:
        ctx.nontrivial(prog.shape(spec), cls)


def zero(ctx, rng):
    """zero frequency"""
    cls = pick(rng, ['passive', 'losslessrecip', 'recip'])
    spec = prog.gen_circuit(rng, [0.], depth=1, cls=cls, kinds=['rlc', 'rlc', 'trl', 'arr', 'base'])
    m = prog.Model(spec)
    prog.observe(ctx, spec)
    ctx.desc(program=prog.text(spec), kind=cls)
    m.check(0.)
    c = prog.build(ctx.rf, spec)
    judge(ctx, c.getS(0.), cls, 'S-matrix at zero frequency')
    judge(ctx, c.getS(0., Zbase=float(logu(rng, 2, 500))), cls, 'S-matrix at zero frequency')
    if not m.ambiguous():
        balance(ctx, rng, c, m, 0., cls)
    ctx.ev('zero frequency')
    ctx.nontrivial(prog.shape(spec), cls)


def section(ctx, rng):
    """line sections: symmetric, passive, and the power decreases along them"""
    f = prog.freqs(rng, 1)[0]
    lossy = rng.random() < .6
    ln = line.gen(rng, f, losses=lossy)
    Z = float(logu(rng, 5, 300))
    o = ctx.rf.rfTRL(**ln.args(), Zbase=Z)
    ctx.desc(line=ln.text(), f=f, Zbase=Z)
    cls = 'losslessrecip' if not any(k in ln.P for k in ('rTL', 'gTL', 'A', 'AdB', 'rho', 'tand', 'sigma')) else 'passive'
    tol = 5e-6 if ln.varies else 1e-8
    for x in (f, .7 * f, 1.3 * f):
        S = np.asarray(o.getS(x))
        judge(ctx, S, cls, 'line section', tol)
        ctx.close(S, S.T, 'line section: reciprocity', tol=2 * tol)
    judge(ctx, o.getS(f, Zbase=float(logu(rng, 5, 300))), cls, 'line section', 2 * tol)
    a = elems.cplx(rng, 2)
    xs, (V, I, _) = o.VISWs(f, {'1': complex(a[0]), '2': complex(a[1])})
    p = np.real(np.asarray(V) * np.conj(np.asarray(I)))
    sc = max(np.max(np.abs(V)) ** 2 / Z, np.max(np.abs(V)) * np.max(np.abs(I)))
    d = np.diff(p)           # (currents are reported towards the first port)
    ctx.ok(np.all(d >= -2e-5 * sc), 'power grows along a passive line section', power=p[[0, -1]], worst=d.min(), scale=sc)
    if cls != 'passive':
        ctx.close(p, np.full(len(p), p[0]), 'power varies along a lossless line section', tol=0, atol=2e-5 * sc)
    b = np.asarray(o.getS(f)) @ a
    pin = (np.abs(a) ** 2 - np.abs(b) ** 2) / Z
    ctx.close([-p[0], p[-1]], pin, 'power at the ends of a line section', tol=0, atol=2e-5 * sc)
    ctx.ev('line power samples', len(p))
    ctx.ev('power balances')
    ctx.nontrivial(sorted(ln.P), ln.varies)


def element(ctx, rng):
    """single elements over wide ranges of frequency"""
    fs = [float(logu(rng, 1e3, 1e11)) for _ in range(3)]
    cls = pick(rng, ['passive', 'lossless'])
    sp = elems.gen(rng, fs, pick(rng, ['rlc', 'trl', 'arc', 'cpl']), cls)
    o = elems.make(ctx.rf, sp)
    ctx.desc(element=elems.describe(sp), freqs=fs)
    k = 'losslessrecip' if cls == 'lossless' or sp['kind'] in ('arc', 'cpl') or not set(sp['kw']) & {'Rs', 'Rp', 'rTL', 'gTL'} else 'passive'
    for f in fs:
        if sp['kind'] == 'trl' and abs(elems.line_gz(sp['kw'], f)[0] * sp['kw']['L']) > 300:
            continue           # (hundreds of wavelengths: rounding)
        S = np.asarray(o.getS(f))
        judge(ctx, S, k, f'{sp["kind"]}', 1e-6)
        ctx.close(S, S.T, f'{sp["kind"]}: reciprocity', tol=1e-6)
        judge(ctx, o.getS(f, Zbase=float(logu(rng, 2, 500))), k, f'{sp["kind"]}', 1e-6)
        ctx.ev('element matrices')
    ctx.nontrivial(sp['kind'], sorted(sp['kw']))


SCENARIOS = [('flat', flat, 3), ('nested', nested, 3), ('power', power, 4), ('history', history, 1), ('zero', zero, 1),
             ('section', section, 1), ('element', element, 1)]
MIN_EVENTS = {'passivity verdicts': 1000, 'losslessness verdicts': 500, 'reciprocity verdicts': 500, 'power balances': 1000,
              'block powers': 1000, 'termination powers': 200, 'line power samples': 1000, 'zero frequency': 15}
