"""C20: port naming and build order only permute the answer"""
import copy
import numpy as np
from .. import prog, elems
from ..core import Skip
from ..common import *
from ..elems import pick, logu

RULE = ('a random program and a variant of it (blocks, ports and junctions renamed by list, mapping or pattern, '
        'adding/joining/terminating in another admissible order, junctions made in several steps, ports listed in '
        'another order, other announced orders on every level) are both executed; S-matrices, solutions and '
        'excitations have to agree under the map of names, and every column of the matrix has to be the answer to '
        'an excitation of the port that labels it; announced orders that do not match have to be refused; '
        'non-trivial: the variant differs in order or names; distinct by structure of both programs')
ASSUMPTIONS = ASSUME + ['names of ports do not coincide with those of nodes of nested circuits']
QUICK, THOROUGH = 8000, 60000

FRESH = ['u', 'v', 'w', 'w1', 'w11', 'aa', 'a b', 'P', 'Q', 'R2', 'k0', '10', '9', '7x', 'ZZ', 'top', 'm_1', 'h', 'h2', 'g']


def variant(spec, rng, order=True, rename=True, split=True, level=0):
    """(another program for the same network, {node: its name there})"""
    new = dict(spec, ops=[], Id=None)
    new.pop('share', None)
    names = {}
    m = prog.Model(spec)
    blk = [o[1] for o in spec['ops'] if o[0] == 'add']
    bn = {b: b for b in blk}
    if rename and rng.random() < .7:
        pool = ['K', 'L2', 'V', 'V1', 'W', 'N n', 'xx', 'K1', 'K11', 'D'] + blk
        pool = list(dict.fromkeys(pool))
        bn = dict(zip(blk, [pool[i] for i in rng.permutation(len(pool))]))
    fr = [f for f in FRESH]
    fr = [fr[i] for i in rng.permutation(len(fr))]
    cn = {}
    for p in m.created:
        cn[p] = p if not rename or rng.random() < .4 else fr.pop()
    if len(set(cn.values())) < len(cn):
        cn = {p: p for p in m.created}
    names.update(cn)
    ops = []
    for o in spec['ops']:
        if o[0] == 'add':
            _, b, child, ports, x, par = o
            oldp = m.blocks[b][1]
            if child['kind'] == 'circ':
                ch, cm = variant(child, rng, order, rename, split, level + 1)
                for k, v in cm.items():
                    names[f'{b}.{k}'] = f'{bn[b]}.{v}'
                om = prog.Model(child)
                nm = prog.Model(ch)
                inv = {v: k for k, v in cm.items() if k in om.order()}
                cports = nm.order()                              # new order of the nested ports
                which = [om.order().index(inv[p]) for p in cports]
            else:
                ch = copy.deepcopy(child)
                ch.pop('share', None)
                cports, which = elems.port_names(ch), list(range(ch['n']))
            n = len(which)
            want = {}
            u = rng.random() if rename else 2
            nested = child['kind'] == 'circ'
            if u < .35:
                nn = [f'y{level}{k}{t}' for t, k in enumerate(rng.permutation(n))] if nested else \
                    [str(k) for k in rng.permutation(n + 3)[:n]]
                form = list(nn)
            elif u < .6 and cports is not None:
                nn = [f'{p}_{level}' if rng.random() < .6 else p for p in cports]
                if len(set(nn)) < n or (nested and any(p in prog.Model(ch).all() and p != c for p, c in zip(nn, cports))):
                    nn = [f's{level}{k}' for k in range(n)]
                form = {c: p for c, p in zip(cports, nn) if c != p or rng.random() < .3}
                form = {k: form[k] for k in [list(form)[i] for i in rng.permutation(len(form))]}
            elif u < .8:
                pat = pick(rng, ['g%d', 'prt%03d', f'{level}:%d'])
                form, nn = pat, [pat % k for k in range(1, n + 1)]
            elif u < 2 or cports is None:
                form, nn = None, cports if cports is not None else [str(k) for k in range(1, n + 1)]
            else:
                # names kept: a list in the order of this child
                nn = [oldp[w] for w in which]
                form = list(nn)
            for w, p in zip(which, nn):
                names[f'{b}.{oldp[w]}'] = f'{bn[b]}.{p}'
            ops.append(['add', bn[b], ch, form, x, par])
        elif o[0] == 'con':
            ops.append(['con', o[1]])
        else:
            ops.append(['term', *o[1:]])
    # name maps of this level have precedence over nested ones of the same text
    lvl = {p: names[p] for p in m.ports}
    seq, tmp = [], 0
    for o in ops:
        if o[0] == 'con':
            ps = [lvl[p] for p in o[1]]
            if order:
                ps = [ps[i] for i in rng.permutation(len(ps))]
            made = [p for p in o[1] if p in m.created and _maker(spec, p) is o[1]]
            made = [lvl[p] for p in made]
            old = [p for p in ps if p not in made]
            if split and len(old) > 2 and rng.random() < .5:
                k = int(rng.integers(1, len(old) - 1)) + 1
                t = f'tmp{level}_{tmp}'
                tmp += 1
                seq.append(('con', tuple([*old[:k], t])))
                seq.append(('con', tuple([t, *old[k:], *made])))
            else:
                seq.append(('con', tuple(ps)))
        elif o[0] == 'term':
            seq.append(('term', lvl[o[1]], o[2]))
        else:
            seq.append(tuple(o))
    if order:
        done, left, have = [], list(seq), set()
        mk = prog.Model(dict(new, ops=seq))
        while left:
            ok = []
            for o in left:
                if o[0] == 'add':
                    ok.append(o)
                elif o[0] == 'con':
                    first = _first(seq, mk, o)
                    if all(p in have or p in first for p in o[1]):
                        ok.append(o)
                elif o[1] in have:
                    ok.append(o)
            o = pick(rng, ok)
            left = [q for q in left if q is not o]
            done.append(o)
            if o[0] == 'add':
                have |= {f'{o[1]}.{p}' for p in mk.blocks[o[1]][1]}
            elif o[0] == 'con':
                have |= set(o[1])
        seq = done
    new['ops'] = seq
    new['Portnames'] = None
    mn = prog.Model(new)
    if rng.random() < .5 and len(mn.free):
        new['Portnames'] = [mn.free[i] for i in rng.permutation(len(mn.free))]
    return new, names


def _maker(spec, p):
    for o in spec['ops']:
        if o[0] == 'con' and p in o[1]:
            return o[1]


def _first(seq, mk, o):
    """ports this connect creates"""
    return [p for p in o[1] if p in mk.created and next(q for q in seq if q[0] == 'con' and p in q[1]) is o]


def pair(ctx, rng, **kw):
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, share=0, **kw)
    ren = rng.random() < .8
    var, names = variant(spec, rng, order=rng.random() < .8, rename=ren, split=rng.random() < .5)
    m, mv = prog.Model(spec), prog.Model(var)
    if m.ambiguous() or mv.ambiguous():
        raise Skip('ambiguous node names')
    prog.observe(ctx, spec)
    ctx.desc(program=prog.text(spec), variant=prog.text(var), names=names)
    for f in fs:
        m.check(f)
        mv.check(f)
    ctx.nontrivial(prog.shape(spec), prog.shape(var))
    return fs, spec, var, names, m, mv, prog.build(ctx.rf, spec), prog.build(ctx.rf, var)


def cmp_S(ctx, rng, fs, m, mv, c, v, names):
    f = pick(rng, fs)
    Z = None if rng.random() < .5 else float(logu(rng, 5, 200))
    q = lambda o: np.asarray(o.getS(f) if Z is None else o.getS(f, Zbase=Z))
    S, T = q(c), q(v)
    ctx.ok(sorted(names[p] for p in c.ports) == sorted(v.ports), 'ports of the variant', got=v.ports, of=c.ports)
    ix = [list(v.ports).index(names[p]) for p in c.ports]
    ctx.close(T[np.ix_(ix, ix)], S, 'S-matrix of the variant', tol=2e-7, f=f, Zbase=Z, ports=c.ports, there=v.ports)
    ctx.ev('S-matrices compared')
    for o, mo in ((c, m), (v, mv)):
        if mo.spec.get('Portnames'):
            ctx.ok(list(o.ports) == list(mo.spec['Portnames']), 'announced order', got=o.ports, want=mo.spec['Portnames'])
            ctx.ev('announced orders')
    compS(ctx, v, mv, f, Z, what='variant', S=T)
    if len(fs) > 1 and rng.random() < .4:
        a, b = np.asarray(c.getS(fs)), np.asarray(v.getS(list(reversed(fs))))
        ctx.close(b[::-1][:, ix][:, :, ix], a, 'S-matrices of the variant', tol=2e-7)
    return f


def smat(ctx, rng, **kw):
    fs, spec, var, names, m, mv, c, v = pair(ctx, rng, **kw)
    for _ in range(2):
        cmp_S(ctx, rng, fs, m, mv, c, v, names)


def flat(ctx, rng):
    smat(ctx, rng, depth=0, maxext=6)


def nested(ctx, rng):
    smat(ctx, rng, depth=2, force_nested=True)


def sols(ctx, rng):
    """solutions and excitations follow the names"""
    fs, spec, var, names, m, mv, c, v = pair(ctx, rng, depth=int(rng.integers(0, 3)))
    f = cmp_S(ctx, rng, fs, m, mv, c, v, names) if rng.random() < .5 else fs[0]
    Z = None if rng.random() < .5 else float(logu(rng, 5, 200))
    E = excite(rng, m.order())
    F = {names[p]: a for p, a in E.items()}
    F = {p: F[p] for p in [list(F)[i] for i in rng.permutation(len(F))]}
    z = {} if Z is None else dict(Zbase=Z)
    s, t = c.Solution(f, dict(E), **z), v.Solution(f, dict(F), **z)
    sc = max([1.] + [abs(x[0]) for x in s.values()])
    for p in m.all():
        q = names[p]
        ctx.ok(p in s and q in t, f'node {p} / {q} is missing in a solution')
        ctx.close(np.array(t[q])[[0, 2, 3]], np.array(s[p])[[0, 2, 3]], f'waves at {p} / {q}', tol=0, atol=1e-6 * sc)
        ctx.close(50 * t[q][1], 50 * s[p][1], f'current at {p} / {q}', tol=0, atol=1e-5 * sc)
        ctx.ev('nodes compared')
    a, b = c.maxV(f, dict(E), **z), v.maxV(f, dict(F), **z)
    ctx.close(float(b[0]), float(a[0]), 'maximum voltage', tol=1e-6)


def columns(ctx, rng):
    """every column answers to the port that labels it, in each of the announced orders"""
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=1, minext=2, maxext=6)
    m = prog.Model(spec)
    if m.ambiguous():
        raise Skip('ambiguous node names')
    m.check(fs[0])
    c = prog.build(ctx.rf, spec)
    ctx.desc(program=prog.text(spec))
    f, Z = fs[0], float(logu(rng, 5, 200))
    for _ in range(int(rng.integers(1, 4))):
        if rng.random() < .7:
            o = [m.free[i] for i in rng.permutation(len(m.free))]
            c.Portnames = list(o)
            ctx.ev('announced orders')
        else:
            o = None
        S = np.asarray(c.getS(f, Zbase=Z))
        P = list(c.ports)
        if o:
            ctx.ok(P == o, 'announced order', got=P, want=o)
        for k, p in enumerate(P):
            E = {q: 0. for q in P}
            E[p] = 1.
            s = c.Solution(f, E, Zbase=Z)
            ctx.close([s[q][3] for q in P], S[:, k], f'column of {p} against the solution', tol=1e-7, ports=P)
            ctx.close([s[q][2] for q in P], np.eye(len(P))[k], f'forward waves exciting {p}', tol=1e-7, ports=P)
            ctx.ev('columns compared')
    ctx.nontrivial(prog.shape(spec), len(m.free))


def refused(ctx, rng):
    """announced orders that do not match the actual ports"""
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=1, portnames=0, minext=1, maxext=6)
    m = prog.Model(spec)
    m.check(fs[0])
    free = list(m.free)
    bad = [free[i] for i in rng.permutation(len(free))]
    k = int(rng.integers(len(bad)))
    u = pick(rng, ['missing', 'extra', 'unknown', 'twice', 'joined'])
    if u == 'missing' and len(bad) > 1:
        bad.pop(k)
    elif u == 'extra':
        bad.insert(k, 'nonesuch')
    elif u == 'twice' and len(bad) > 1:
        bad[k] = bad[k - 1]
    elif u == 'joined':
        gone = [p for p in m.ports if p not in free]
        bad[k] = pick(rng, gone) if gone else 'X.gone'
    else:
        u, bad[k] = 'unknown', 'nonesuch'
    ctx.desc(program=prog.text(spec), announced=bad, actual=free)
    how = int(rng.integers(3))
    f, E = fs[0], {p: 1. for p in free}
    if how == 0:
        c = prog.build(ctx.rf, dict(spec, Portnames=bad))
    else:
        c = prog.build(ctx.rf, spec)
        if how == 2:
            c.getS(f)
        c.Portnames = list(bad)
    for q in (lambda: c.getS(f), lambda: c.Solution(f, dict(E)), lambda: c.getS(fs), lambda: c.maxV(f, dict(E))):
        if rng.random() < .6:
            ctx.raises(q, f'announced order: {u}', (Exception,))
    ctx.raises(lambda: c.getS(f), f'announced order: {u}', (ValueError, TypeError, KeyError))
    ctx.ev('orders refused')
    # put right
    good = [free[i] for i in rng.permutation(len(free))]
    c.Portnames = list(good)
    S = np.asarray(c.getS(f))
    ctx.ok(list(c.ports) == good, 'announced order after a refused one', got=c.ports, want=good)
    ctx.close(S, m.S(f, None, good), 'response after a refused announced order', tol=1e-7)
    ctx.nontrivial(prog.shape(spec), u, how)


def element(ctx, rng):
    """names of the elements' own ports, order of tables"""
    fs = prog.freqs(rng, 3)
    sp = elems.gen(rng, fs, pick(rng, ['base', 'obj', 'obj', 'rlc', 'trl', 'cpl', 'arc']))
    nn = elems.names(rng, sp['n'])
    sp2 = copy.deepcopy(sp)
    sp2['kw']['ports'] = list(nn)
    a, b = elems.make(ctx.rf, sp), elems.make(ctx.rf, sp2)
    ctx.desc(element=elems.describe(sp), names=nn)
    f = fs[0]
    ctx.ok(list(b.ports) == nn, 'names given to the ports', got=b.ports, want=nn)
    ctx.same(np.asarray(a.getS(f)), np.asarray(b.getS(f)), 'S-matrix with other port names')
    if sp['kind'] == 'obj':
        for _ in range(3):
            u = int(rng.integers(3))
            if u == 0:
                b.sortports()
                want = sorted(b.ports)
            else:
                want = [nn[i] for i in rng.permutation(len(nn))]
                if u == 1:
                    b.sortports(list(want))
                else:
                    k = int(rng.integers(1, len(nn) + 1))
                    rest = [p for p in b.ports if p not in want[:k]]
                    b.sortports(list(want[:k]))
                    want = want[:k] + rest
            ctx.ok(list(b.ports) == want, 'order of the ports', got=b.ports, want=want)
            ix = [nn.index(p) for p in b.ports]
            for x in fs:
                ctx.close(np.asarray(b.getS(x)), elems.AB_to_S(*elems.ref(sp, x, 50.), sp['kw']['Zbase'])[np.ix_(ix, ix)],
                          'S-matrix of the sorted table', tol=1e-9)
            ctx.ev('tables sorted')
    c = ctx.rf.rfCircuit(Zbase=float(logu(rng, 5, 200)))
    # a mapping or a list that does not fit the ports
    bad = {p: f'z{i}' for i, p in enumerate(nn) if rng.random() < .5}
    if len(bad) == len(nn):
        bad.pop(pick(rng, nn))
    bad[pick(rng, ['nope', nn[0] + '_', '#', 'B.' + nn[0]])] = 'zz'
    bad = {k: bad[k] for k in [list(bad)[i] for i in rng.permutation(len(bad))]}
    ctx.raises(lambda: c.addblock('B', b, ports=dict(bad)), f'mapping {bad} of unknown ports of {nn}')
    bad = nn[:-1] if rng.random() < .5 else nn + ['zz']
    ctx.raises(lambda: c.addblock('B', b, ports=list(bad)), f'list {bad} for the ports {nn}')
    ctx.ok(not list(c.ports), 'ports after refused blocks', got=c.ports)
    ctx.ev('names refused')
    o = [f'B.{nn[i]}' for i in rng.permutation(len(nn))]
    c.Portnames = list(o)
    c.addblock('B', b)
    S = np.asarray(c.getS(f))
    ctx.ok(list(c.ports) == o, 'announced order', got=c.ports)
    ix = [nn.index(p[2:]) for p in o]
    ctx.close(S, elems.AB_to_S(*elems.ref(sp, f, 50.), c.Zbase)[np.ix_(ix, ix)], 'placed element', tol=1e-7)
    ctx.ev('elements renamed')
    ctx.nontrivial(sp['kind'], nn)


SCENARIOS = [('flat', flat, 3), ('nested', nested, 3), ('sols', sols, 2), ('columns', columns, 2), ('refused', refused, 1),
             ('element', element, 1)]
MIN_EVENTS = {'S-matrices compared': 500, 'nodes compared': 700, 'columns compared': 500, 'orders refused': 40,
              'announced orders': 500, 'elements renamed': 40, 'names refused': 40, 'tables sorted': 50}
