"""C01: the S-matrix of a circuit is the network response of what was wired"""
import copy
import numpy as np
from .. import prog, elems
from ..common import *
from ..elems import pick

RULE = ('random build programs (interleaved addblock/connect/terminate, 1..5-way junctions, created and '
        're-used junction ports, self-loops, nested and shared sub-circuits, port renaming, arrays) are '
        'executed on the real library; every returned S-matrix is compared with an independent nodal '
        'solution of the same wiring; non-trivial: at least one junction or termination and two elements '
        'or a self-loop; distinct by program structure')
ASSUMPTIONS = ASSUME
QUICK, THOROUGH = 16000, 120000


def go(ctx, rng, spec, fs, nf=None):
    m = prog.Model(spec)
    ctx.desc(program=prog.text(spec), freqs=fs)
    prog.observe(ctx, spec)
    m.check(fs[0])
    c = prog.build(ctx.rf, spec)
    if rng.random() < .5:       # scalar first
        compS(ctx, c, m, fs[0])
        ctx.ev('S-matrices compared')
    arg = fforms(rng, fs)
    Ss = np.asarray(c.getS(arg))
    ctx.ok(Ss.shape == (len(arg), len(m.free), len(m.free)), 'shape of the S-matrices',
           got=Ss.shape, want=(len(arg), len(m.free)))
    for f, S in zip(arg, Ss):
        compS(ctx, c, m, float(f), S=S, what='S-matrix (vector call)')
        ctx.ev('S-matrices compared')
    n = prog.size(spec)
    if n[2] + n[3] >= 1 and n[1] >= 1:
        ctx.nontrivial(prog.shape(spec))


def flat(ctx, rng):
    fs = prog.freqs(rng)
    go(ctx, rng, prog.gen_circuit(rng, fs, depth=0), fs)


def nested(ctx, rng):
    fs = prog.freqs(rng)
    go(ctx, rng, prog.gen_circuit(rng, fs, depth=2, force_nested=True), fs)


def big(ctx, rng):
    fs = prog.freqs(rng, 1)
    go(ctx, rng, prog.gen_circuit(rng, fs, depth=1, nblk=int(rng.integers(5, 10)), maxext=8, portnames=.6), fs)


def active(ctx, rng):
    """non-passive, non-reciprocal blocks"""
    fs = prog.freqs(rng)
    go(ctx, rng, prog.gen_circuit(rng, fs, depth=1, cls='any', kinds=['arr', 'base', 'obj', 'trl', 'rlc']), fs)


def junction(ctx, rng):
    """one N-way junction of one-/two-ports, its created port terminated, connected again or external"""
    fs = prog.freqs(rng, 1)
    n = int(rng.integers(1, 6))
    sp = dict(kind='circ', Zbase=float(logu(rng, 5, 200)), Portnames=None, Id=None, ops=[])
    ports = []
    for k in range(n):
        ch = elems.gen(rng, fs, pick(rng, ['rlc', 'trl', 'arr', 'base', 'arc']), nmax=2)
        nm = f'B{k}'
        sp['ops'].append(('add', nm, ch, None, 0., None))
        pn = elems.port_names(ch) or [str(i + 1) for i in range(ch['n'])]
        ports.append(f'{nm}.{pick(rng, pn)}')
    ports = [ports[i] for i in rng.permutation(n)]
    mode = int(rng.integers(4))
    if mode == 3 and n < 2:
        mode = 0
    if mode == 3:
        sp['ops'].append(('con', tuple(ports)))
    else:
        q = list(ports)
        q.insert(int(rng.integers(n + 1)), 'J')
        sp['ops'].append(('con', tuple(q)))
        if mode == 1:
            sp['ops'].append(('term', 'J', prog.gen_load(rng, 'passive', sp['Zbase'])))
        elif mode == 2:
            sp['ops'].append(('add', 'tail', elems.gen(rng, fs, pick(rng, ['trl', 'rlc'])), ['u', 'v'], 0., None))
            sp['ops'].append(('con', pick(rng, [('J', 'tail.u'), ('tail.u', 'J'), ('J', 'tail.v', 'K')])))
    if not prog.Model(sp).free:
        sp['ops'].append(('add', 'free', elems.gen(rng, fs, 'trl'), None, 0., None))
    ctx.ev(f'{n}-way junctions')
    go(ctx, rng, sp, fs)


def terminations(ctx, rng):
    """an N-port with all but some ports terminated, one by one, S checked in a fresh circuit each"""
    fs = prog.freqs(rng, 1)
    n = int(rng.integers(2, 6))
    ch = dict(kind=pick(rng, ['arr', 'base']), n=n, kw=dict(Zbase=float(logu(rng, 5, 200))), fs=fs)
    S = elems.rand_S(rng, n, pick(rng, ['passive', 'any', 'recip']))
    ch.update(S=S, Ss=np.array([S]))
    if ch['kind'] == 'arr':
        ch['kw'] = {}
    sp = dict(kind='circ', Zbase=float(logu(rng, 5, 200)), Portnames=None, Id=None,
              ops=[('add', 'X', ch, None, 0., None)])
    for k in rng.permutation(n)[:int(rng.integers(1, n))]:
        sp['ops'].append(('term', f'X.{k + 1}', prog.gen_load(rng, 'passive', sp['Zbase'])))
        ctx.ev('termination kind ' + (list(sp['ops'][-1][2]) + ['none'])[0])
    if rng.random() < .4:
        m = prog.Model(sp)
        sp['Portnames'] = [m.free[i] for i in rng.permutation(len(m.free))]
    go(ctx, rng, sp, fs)


def dc(ctx, rng):
    """zero frequency (lumped elements, uniform lines, arcs, constant data)"""
    f1 = prog.freqs(rng, 1)[0]
    sp = prog.gen_circuit(rng, [0., f1], depth=1, kinds=['rlc', 'arr', 'base', 'arc', 'trl'])
    go(ctx, rng, sp, [0., f1])


def lists(ctx, rng):
    """blocks given as (lists of) lists, ports as str formats, numeric types of frequencies"""
    n = int(rng.integers(1, 4))
    S = elems.rand_S(rng, n)
    sp = dict(kind='circ', Zbase=50., Portnames=None, Id=None,
              ops=[('add', 'X', dict(kind='arr', n=n, S=S, kw={}), None, 0., None)])
    m = prog.Model(sp)
    c = ctx.rf.rfCircuit()
    c.addblock('X', S.tolist())
    f = int(prog.freqs(rng, 1)[0])
    for ff in (f, float(f), np.float64(f), np.int64(f)):
        compS(ctx, c, m, ff)
    ctx.desc(n=n)
    ctx.nontrivial(n, round(abs(S[0, 0]), 6))


SCENARIOS = [('flat', flat, 4), ('nested', nested, 4), ('big', big, 2), ('active', active, 1),
             ('junction', junction, 2), ('terminations', terminations, 2), ('dc', dc, 1), ('lists', lists, 1)]
MIN_EVENTS = {'S-matrices compared': 500, 'depth 2': 20, '3-way junctions': 5, '5-way junctions': 5}
