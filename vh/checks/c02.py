"""C02: the internal solution obeys Kirchhoff's laws everywhere"""
import numpy as np
from .. import prog, elems
from ..common import *
from ..elems import pick

RULE = ('random (nested, renamed, shared) circuits are solved for random excitations, frequencies and '
        'reference impedances; every (V, I, Vf, Vr) the library reports at every node of every level is '
        'compared with an independent nodal solution, and the laws themselves (junction voltages, current '
        'sums, termination law, block scattering relation, imposed wave) are monitored on the reported '
        'values alone; non-trivial: at least one junction or termination; distinct by program structure')
ASSUMPTIONS = ASSUME
QUICK, THOROUGH = 10000, 90000


def laws(ctx, m, sol, f, E, Zb, prefix=''):
    """monitor of the laws on the reported solution only (one level and, recursively, below)"""
    sc = max([1.] + [abs(v[0]) for v in sol.values()])
    g = lambda p: sol[prefix + p]
    def small(x, what, s=sc):
        ctx.ev('oracle_verdicts')
        ctx.ev('laws checked')
        if not abs(x) <= 1e-6 * s:
            ctx.fail(what, residual=complex(x), scale=s)
    for p in m.ports:
        V, I, Vf, Vr = g(p)
        small(V - Vf - Vr, f'V = Vf + Vr at {prefix + p}')
        small(Zb * I - Vf + Vr, f'Z I = Vf - Vr at {prefix + p}', sc * max(1, Zb / 50))
    for op in m.spec['ops']:
        if op[0] == 'con':
            known = [p for p in op[1] if p not in m.created or not first(m, op, p)]
            new = [p for p in op[1] if p not in known]
            V0 = g(known[0])[0]
            for p in op[1]:
                small(g(p)[0] - V0, f'equal voltage at junction {op[1]} ({prefix})')
            small(sum(g(p)[1] for p in known) - sum(g(p)[1] for p in new),
                  f'zero net current at junction {op[1]} ({prefix})', sc / 5)
        elif op[0] == 'term':
            V, I = g(op[1])[:2]
            Il = -I
            k, v = (list(op[2].items()) or [('RC', 0.)])[0]
            if k == 'Z':
                small((V - v * Il) / max(1, abs(v) / 50), f'termination law at {prefix + op[1]}')
            elif k == 'Y':
                small((Il - v * V) / max(1 / 50, abs(v)), f'termination law at {prefix + op[1]}')
            else:
                small((V - m.Zbase * Il) - v * (V + m.Zbase * Il), f'termination law at {prefix + op[1]}',
                      sc * max(1, m.Zbase / 50))
        else:
            child, ports, _ = m.blocks[op[1]]
            if child['kind'] != 'circ':
                A, B = elems.ref(child, f, m.Zbase)
                V = np.array([g(f'{op[1]}.{p}')[0] for p in ports])
                I = np.array([g(f'{op[1]}.{p}')[1] for p in ports])
                for a, b in zip(A, B):
                    n = max(np.abs(a).max(), np.abs(b).max() / 50)
                    small((a @ V + b @ I) / n, f'scattering relation of block {prefix}{op[1]}')
            else:
                sub = m.subs[op[1]]
                for ps, pb in zip(sub.order(), ports):
                    for k in (0, 1):
                        small(g(f'{op[1]}.{ps}')[k] - g(f'{op[1]}.{pb}')[k],
                              f'nested port {prefix}{op[1]}.{ps} differs from {pb} one level up',
                              sc / (1, 50)[k])
                laws(ctx, sub, sol, f, E, Zb, f'{prefix}{op[1]}.')
    if not prefix:
        for p, a in E.items():
            small(g(p)[2] - a, f'imposed forward wave at {p}')


def first(m, op, p):
    """p is created by this connect"""
    for o in m.spec['ops']:
        if o[0] == 'con' and p in o[1]:
            return o is op


def prep(ctx, rng, **kw):
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, **kw)
    m = prog.Model(spec)
    prog.observe(ctx, spec)
    m.check(fs[0])
    c = prog.build(ctx.rf, spec)
    ctx.desc(program=prog.text(spec), freqs=fs)
    n = prog.size(spec)
    if n[2] + n[3]:
        ctx.nontrivial(prog.shape(spec))
    return fs, spec, m, c


def zb(rng):
    return None if rng.random() < .4 else float(logu(rng, 3, 300))


def solution(ctx, rng, **kw):
    fs, spec, m, c = prep(ctx, rng, **kw)
    for f in fs[:2]:
        E, Z = excite(rng, m.order()), zb(rng)
        ctx.desc(f=f, E=E, Zbase=Z)
        want = m.solution(f, E, Z)
        sol = c.Solution(f, E, Z) if Z else c.Solution(f, E)
        comp_sol(ctx, sol, want)
        laws(ctx, m, sol, f, E, Z or m.Zbase)
        ctx.ev('solutions compared')


def flat(ctx, rng):
    solution(ctx, rng, depth=0)


def nested(ctx, rng):
    solution(ctx, rng, depth=2, force_nested=True)


def active(ctx, rng):
    solution(ctx, rng, depth=1, cls='any', kinds=['arr', 'base', 'obj', 'trl', 'rlc'])


def selection(ctx, rng):
    """asking for some nodes only gives the same values"""
    fs, spec, m, c = prep(ctx, rng, depth=2, force_nested=True)
    f = fs[0]
    E, Z = excite(rng, m.order()), zb(rng)
    want = m.solution(f, E, Z)
    deep = list(m.all())
    for k in range(4):
        if k == 0:
            nodes = []
            must = list(m.ports)
        else:
            nodes = [deep[i] for i in rng.permutation(len(deep))[:int(rng.integers(1, 5))]]
            must = nodes
        sol = c.Solution(f, E, Zbase=Z, nodes=list(nodes))
        comp_sol(ctx, sol, {p: want[p] for p in must}, f'Solution(nodes={nodes})')
        ctx.ok(set(sol) <= set(want), f'Solution(nodes={nodes}): unknown nodes', extra=sorted(set(sol) - set(want)))
        comp_sol(ctx, sol, {p: want[p] for p in sol}, f'Solution(nodes={nodes})')
        ctx.ev('node selections')
    comp_sol(ctx, c.Solution(f, E, Zbase=Z), want, 'Solution of all nodes afterwards')


def internalS(ctx, rng):
    """scattering matrices between internal nodes against the solutions"""
    fs, spec, m, c = prep(ctx, rng, depth=2, maxext=4)
    f = fs[0]
    ports, Z = m.order(), zb(rng)
    n = len(ports)
    deep = list(m.all())
    Zb = Z or m.Zbase
    sols = [m.solution(f, {q: float(p == q) for q in ports}, Zb) for p in ports]
    for _ in range(6):
        k = n if rng.random() < .7 else int(rng.integers(1, n + 1))
        nodes = [('<' if rng.random() < .4 else '') + deep[i] for i in rng.permutation(len(deep))[:k]]
        if len(nodes) < k:
            break
        get = lambda j: np.array([[s[q.lstrip('<')][(3, 2)[j] if q[0] == '<' else (2, 3)[j]] for s in sols]
                                  for q in nodes])
        A, B = get(0), get(1)
        sv = np.linalg.svd(A, compute_uv=False)
        if sv[-1] < 1e-4 * max(sv[0], 1):
            ctx.ev('skipped singular selections')
            continue
        want = B @ np.linalg.pinv(A)
        got = c.Get_internalSmatrix(f, list(nodes), Z) if Z else c.Get_internalSmatrix(f, list(nodes))
        ctx.close(got, want, 'internal S-matrix', tol=1e-6, nodes=nodes)
        if k == n:
            ctx.close(got @ A, B, 'internal S-matrix does not map the incident on the reflected waves',
                      tol=1e-6, nodes=nodes)
        ctx.ev('internal S-matrices')
    want = c.getS(f, Zbase=Zb)
    S = c.Get_internalSmatrix(f, list(c.ports), Z)
    ctx.close(S, want, 'internal S-matrix of the external ports', tol=1e-6)
    if len(deep) > n:
        ctx.raises(lambda: c.Get_internalSmatrix(f, deep[:n + 1], Z), 'more nodes than external ports')


def solve(ctx, rng):
    """solve() leaves the waves of the solution at the circuit's own reference impedance"""
    fs, spec, m, c = prep(ctx, rng, depth=1)
    f = fs[-1]
    E, Z = excite(rng, m.order()), zb(rng)
    want = m.solution(f, E, Z)
    c.getS(fs[0])
    if Z:
        c.solve(f, E, Z)
    else:
        c.solve(f, E)
    w = dict(zip(getattr(c, 'waves', []), getattr(c, 'sol', [])))
    for p in m.ports if w else []:
        V, I = want[p][:2]
        a, b = w['->' + p], w['<-' + p]
        ctx.close([a + b, (a - b) / c.Zbase * 50], [V, I * 50], f'solve(): waves at {p}', tol=1e-6)
    comp_sol(ctx, c.Solution(f, E, Z), want, 'Solution after solve')


SCENARIOS = [('flat', flat, 3), ('nested', nested, 4), ('active', active, 1), ('selection', selection, 2),
             ('internalS', internalS, 2), ('solve', solve, 1)]
MIN_EVENTS = {'node quantities': 20000, 'laws checked': 10000, 'internal S-matrices': 100, 'depth 2': 20}
