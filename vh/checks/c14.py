"""C14: a copy is equivalent and independent"""
import copy, pickle, os
import numpy as np
from .. import prog, elems, line
from ..common import *
from ..hist import Hist, fresh, newvalue, present
from ..elems import pick, logu
from ..core import Skip

RULE = ('an object (element of any kind, table, line, circuit of any nesting, partly built circuit, circuit or table made from a '
        'file) goes through random operations, is copied (copy(), copy.copy, copy.deepcopy, pickle where supported) at a random '
        'moment, copies of copies included; then original and copies are modified, completed and queried independently in a '
        'random interleaving, each judged against a model of its own definition; non-trivial: modified after copying')
ASSUMPTIONS = ASSUME + ['objects shared between different levels of a circuit are not part of the workload',
                        'pickling is not claimed for lines and circuits containing lines (they hold functions)']
QUICK, THOROUGH = 2700, 40000


def has_trl(spec):
    return any(op[0] == 'add' and (op[2]['kind'] == 'trl' or op[2]['kind'] == 'circ' and has_trl(op[2]))
               for op in spec['ops'])


def copier(rng, pk):
    name = pick(rng, ['copy()', 'copy.copy', 'deepcopy'] + ['pickle'] * bool(pk))
    return name, {'copy()': lambda o: o.copy(), 'copy.copy': copy.copy, 'deepcopy': copy.deepcopy,
                  'pickle': lambda o: pickle.loads(pickle.dumps(o))}[name]


def record(o):
    """the arguments an object says it was made of"""
    return copy.deepcopy([list(getattr(o, 'args', ()))] + sorted((k, repr(v)) for k, v in getattr(o, 'kwargs', {}).items()))


def interleave(ctx, rng, hs):
    """modify and query the objects of several histories in any order"""
    k = 0
    for _ in range(int(rng.integers(4, 12))):
        h = pick(rng, hs)
        if rng.random() < .5:
            if h.modify():
                k += 1
                ctx.ev('modifications after copying')
        else:
            h.query()
    for h in hs:
        h.final()
        checkpos(ctx, h)
    return k


def checkpos(ctx, h):
    """positions are snapshots at building time: only compared when no block was exchanged"""
    if any(l.startswith(('replace', 'set')) for l in h.log):
        return
    for p, x in h.model().allpos().items():
        ctx.close(h.c.getpos(p), x, f'position of {p} after {h.log[-6:]}', tol=1e-9)


def circuits(ctx, rng, depth=None):
    fs = prog.freqs(rng)
    depth = int(rng.integers(0, 3)) if depth is None else depth
    spec = prog.gen_circuit(rng, fs, depth=depth, share=0, maxext=4, force_nested=depth > 0)
    prog.observe(ctx, spec)
    ctx.desc(program=prog.text(spec), freqs=fs)
    hs = [Hist(ctx, rng, fs, spec)]
    ctx._desc['log'] = hs[0].log
    n = 0
    for _ in range(int(rng.integers(1, 4))):
        h = pick(rng, hs)
        for _ in range(int(rng.integers(0, 4))):
            h.modify() if rng.random() < .3 else h.query()
        name, cp = copier(rng, not has_trl(h.spec))
        c = cp(h.c)
        ctx.ok(c is not h.c and type(c) is type(h.c), f'{name} of a circuit is another circuit')
        g = Hist(ctx, rng, fs, fresh(h.spec), c)
        g.log += h.log + [name]
        g.solved = h.solved
        # equivalent now
        m = h.model()
        ctx.ok(list(c.ports) == list(h.c.ports), f'{name}: ports differ', got=c.ports, want=h.c.ports)
        ctx.ok(sorted(c.listBlocks()) == sorted(h.c.listBlocks()), f'{name}: blocks differ')
        f = pick(rng, fs)
        hs.append(g)
        ctx.ev('copied by ' + name)
        order = [h, g] if rng.random() < .5 else [g, h]
        for x in order:
            x.query(['S'])
        if hasattr(h.c, 'getpos'):
            for p in m.all():
                ctx.close(c.getpos(p), h.c.getpos(p), f'{name}: position of {p}', tol=1e-12)
        n += interleave(ctx, rng, hs)
    if n:
        ctx.nontrivial(prog.shape(spec), [l.split()[0] for l in hs[-1].log])


def partial(ctx, rng):
    """copied while being built; both are completed, differently"""
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=1, share=0, maxext=4, portnames=0)
    for op in spec['ops']:
        if op[0] == 'add':
            op[2].pop('share', None)
    ops = spec['ops']
    k = int(rng.integers(1, len(ops) + 1))
    c1 = prog.build(ctx.rf, spec, upto=k)
    name, cp = copier(rng, not has_trl(spec))
    c2 = cp(c1)
    prog.observe(ctx, spec)
    ctx.desc(program=prog.text(spec), copied_at=k, by=name)
    # the copy goes on differently: other terminations, an extra block
    s2 = copy.deepcopy(dict(spec, ops=ops[:k]))
    m2 = prog.Model(s2)
    extra = elems.gen(rng, fs, None, 'passive')
    more = [('add', 'EXTRA', extra, None, .5, None)]
    m2.apply(more[0])
    if len(m2.free) > 1 and rng.random() < .7:
        ps = [m2.free[i] for i in rng.permutation(len(m2.free))[:2]]
        if rng.random() < .5 or len(m2.free) < 3:
            ps = [*ps, 'JNEW']
        more.append(('con', tuple(ps)))
        m2.apply(more[-1])
    if len(m2.free) > 1:
        more.append(('term', pick(rng, m2.free), prog.gen_load(rng, 'passive', spec['Zbase'])))
        m2.apply(more[-1])
    todo = [('1', op) for op in ops[k:]]
    for op in more:
        todo.insert(int(rng.integers(len(todo) + 1)), ('2', None))
    it = iter(more)
    for who, op in todo:
        if who == '1':
            prog.do(ctx.rf, c1, op)
        else:
            op = next(it)
            s2['ops'].append(op)
            prog.do(ctx.rf, c2, op)
        ctx.ev('building steps after copying')
    hs = [Hist(ctx, rng, fs, spec, c1), Hist(ctx, rng, fs, s2, c2)]
    for h in hs:
        compS(ctx, h.c, h.model(), fs[0], what=f'{name} while building')
        for p, x in h.model().allpos().items():
            ctx.close(h.c.getpos(p), x, f'position of {p}', tol=1e-9)
    interleave(ctx, rng, hs)
    ctx.nontrivial(prog.shape(spec), k, len(more))


def elements(ctx, rng):
    fs = prog.freqs(rng, int(rng.integers(2, 5)))
    while True:
        sp = elems.gen(rng, fs, pick(rng, ['rlc', 'trl', 'arc', 'cpl', 'base', 'obj', 'obj']), 'passive')
        if np.isfinite(sp['kw'].get('Larc', 1.)):
            break
    o = elems.make(ctx.rf, sp)
    ports = elems.port_names(sp)
    log = []
    ctx.desc(element=elems.describe(sp), freqs=fs, log=log)
    live = [[o, sp, list(ports), list(elems.port_xpos(sp)), list(range(sp['n']))]]
    n = 0

    def query(e):
        o, sp, ports, xs, ix = e
        Z0 = sp['kw'].get('Zbase', 50.)
        f = pick(rng, sp.get('fs', fs))
        Z = None if rng.random() < .5 else float(logu(rng, 3, 300))
        g = o.getS(f) if Z is None else o.getS(f, Zbase=Z)
        w = elems.AB_to_S(*elems.ref(sp, f, 50.), Z or Z0)[np.ix_(ix, ix)]
        ctx.close(g, w, f'getS({f}, {Z}) after {log[-6:]}', tol=1e-7)
        ctx.same(list(o.ports), ports, f'ports after {log[-6:]}')
        if sp['kind'] != 'trl' or 'L' not in ''.join(log):
            ctx.close(np.array(o.xpos, float), np.array(xs, float), f'xpos after {log[-6:]}', tol=1e-12)
        if hasattr(o, 'maxV') and rng.random() < .4:
            a = elems.cplx(rng, len(ports))
            v = float(o.maxV(f, dict(zip(ports, a)), Zbase=Z0)[0])
            S = elems.AB_to_S(*elems.ref(sp, f, 50.), Z0)[np.ix_(ix, ix)]
            ctx.ok(v >= np.abs(a + S @ a).max() * (1 - 1e-6) - 1e-9, 'maxV below a port voltage')
        if sp['kind'] == 'obj' and rng.random() < .5:
            ctx.ok(len(o.fs) == len(sp['fs']), f'number of entries after {log[-6:]}')
        ctx.ev('element queries')

    def modify(e, i):
        o, sp, ports, xs, ix = e
        k = sp['kind']
        u = rng.random()
        if u < .25:
            j = int(rng.integers(len(ports)))
            o.ports[j] = ports[j] = f'renamed{len(log)}'
            log.append(f'{i}: rename')
        elif u < .4 and k != 'trl':
            j = int(rng.integers(len(xs)))
            o.xpos[j] = xs[j] = float(np.round(rng.uniform(5, 9), 3))
            log.append(f'{i}: xpos')
        elif k in ('rlc', 'trl', 'arc'):
            a, v = newvalue(rng, sp, fs[0])
            others = [e[0] for e in live if e[0] is not o]
            rec = [record(x) for x in others]
            o.set(**{a: v})
            for x, r in zip(others, rec):
                ctx.ok(record(x) == r, f'the record of arguments of another object changed after {log[-6:]}', got=record(x), want=r)
                ctx.ev('records compared')
            sp['kw'][a] = v
            log.append(f'{i}: set {a}')
        elif k == 'base':
            j = int(rng.integers(len(sp['fs'])))
            S = elems.rand_S(rng, sp['n'])
            o.Ss[j] = S
            sp['Ss'][j] = S
            log.append(f'{i}: Ss[]')
        elif k == 'obj':
            u = pick(rng, [0, 2, 3])        # (the same frequency twice is not claimed)
            j = int(rng.integers(len(sp['fs'])))
            S = elems.rand_S(rng, sp['n'])
            P = np.zeros_like(S)
            P[np.ix_(ix, ix)] = S            # in the order of the spec
            if u == 0:
                f = float(np.round(fs[0] * rng.uniform(1.5, 3)))
                if f in sp['fs']:
                    return
                o.setS(f, S)
                sp['fs'].append(f)
                sp['Ss'] = np.concatenate([sp['Ss'], P[None]])
                log.append(f'{i}: setS new')
            elif u == 2:
                kk = [k for k, (f, _) in enumerate(o) if f == sp['fs'][j]][0]
                o[kk] = sp['fs'][j], S
                sp['Ss'][j] = P
                log.append(f'{i}: []')
            else:
                pm = [int(x) for x in rng.permutation(len(ports))]
                o.sortports([ports[x] for x in pm])
                e[2:] = [ports[x] for x in pm], [xs[x] for x in pm], [ix[x] for x in pm]
                log.append(f'{i}: sortports')
        else:
            return
        ctx.ev('element modifications')

    for _ in range(int(rng.integers(6, 20))):
        i = int(rng.integers(len(live)))
        u = rng.random()
        if u < .2 and len(live) < 4:
            e = live[i]
            name, cp = copier(rng, sp['kind'] != 'trl')
            c = cp(e[0])
            ctx.ok(type(c) is type(e[0]) and c is not e[0], f'{name} of a {sp["kind"]}')
            live.append([c, copy.deepcopy(e[1]), list(e[2]), list(e[3]), list(e[4])])
            log.append(f'{i}: {name}')
            ctx.ev('copied by ' + name)
            query(live[-1])
        elif u < .6:
            modify(live[i], i)
            n += len(live) > 1
        else:
            query(live[i])
    for e in live:
        query(e)
    if n and len(live) > 1:
        ctx.nontrivial(sp['kind'], log)


def flatten(x):
    if isinstance(x, (list, tuple)) and not all(np.ndim(v) == 0 for v in x):
        return sum([flatten(v) for v in x], [])
    if isinstance(x, dict):
        return flatten(list(x.values()))
    return [np.asarray(x)]


def lines(ctx, rng):
    """lines with varying parameters: copies give the same standing waves"""
    f = logu(rng, 1e7, 3e8)
    ln = line.gen(rng, f, vary=rng.random() < .7)
    Z = float(logu(rng, 10, 200))
    o = ctx.rf.rfTRL(**ln.args(), Zbase=Z)
    ctx.desc(line=ln.text(), f=f)
    E = {'1': complex(*rng.normal(size=2)), '2': complex(*rng.normal(size=2))}
    fs = [f, 1.2 * f]
    if rng.random() < .5:
        o.getS(f)
    if rng.random() < .3:
        o.maxV(f, dict(E), Z)
    name, cp = copier(rng, False)
    c = cp(o)
    ctx.ev('copied by ' + name)
    for x in fs:
        ctx.close(c.getS(x), o.getS(x), f'{name}: S-matrix', tol=1e-9)
        a, b = o.maxV(x, dict(E), Z), c.maxV(x, dict(E), Z)
        ctx.close(float(b[0]), float(a[0]), f'{name}: maxV', tol=1e-9)
        U, V = o.VISWs(x, dict(E), Z), c.VISWs(x, dict(E), Z)
        for p, q in zip(flatten(U), flatten(V)):
            ctx.close(q, p, f'{name}: standing waves', tol=1e-9)
    w = o.getS(f)
    c.ports[0] = 'other'
    ctx.same(list(o.ports), ['1', '2'], 'port names of the original after renaming those of the copy')
    ctx.close(o.getS(f), w, 'original after modifying the copy', tol=1e-9)
    ctx.nontrivial(sorted(ln.P), ln.varies, name)


def files(ctx, rng):
    """objects made from a file are copied when the file has changed or is gone"""
    n = int(rng.integers(1, 4))
    fs = sorted(float(x) for x in np.round(logu(rng, 1e6, 1e8) * np.linspace(1, 2, int(rng.integers(2, 5)))))
    Ss = np.array([elems.rand_S(rng, n) for _ in fs])
    fn = os.path.join(ctx.scratch, f'c14_{int(rng.integers(1e9))}.s{n}p')
    with open(fn, 'w') as fh:
        fh.write(ctx.rf.rfBase(fs=list(fs), Ss=Ss.copy()).tsf2str())
    how = pick(rng, ['rfObject', 'rfCircuit'])
    o = ctx.rf.rfObject(touchstone=fn) if how == 'rfObject' else ctx.rf.rfCircuit(sNp=fn)
    w = [o.getS(f) for f in fs] if how == 'rfObject' or rng.random() < 0 else None
    fate = pick(rng, ['there', 'removed', 'modified'])
    if fate == 'removed':
        os.remove(fn)
    elif fate == 'modified':
        with open(fn, 'w') as fh:
            fh.write(ctx.rf.rfBase(fs=list(fs), Ss=np.array([elems.rand_S(rng, n) for _ in fs])).tsf2str())
    ctx.desc(object=how, file=fate, ports=n)
    name, cp = copier(rng, how == 'rfObject')
    c = cp(o)
    ctx.ev('copied by ' + name)
    if how == 'rfObject':
        for f, S, g in zip(fs, Ss, w):
            ctx.close(c.getS(f), g, f'{name} of a table whose file is {fate}', tol=1e-12)
            ctx.close(c.getS(f), S, f'{name} of a table whose file is {fate}: data', tol=1e-5)
    else:
        for f, S in zip(fs, Ss):
            ctx.close(c.sNp.getS(f), o.sNp.getS(f), f'{name} of a circuit whose file is {fate}', tol=1e-12)
            ctx.close(c.sNp.getS(f), S, f'{name} of a circuit whose file is {fate}: data', tol=1e-5)
    if os.path.exists(fn):
        os.remove(fn)
    ctx.nontrivial(how, fate, name, n)


def equality(ctx, rng):
    """a tabulated object compares equal with its copies until one of them is modified; comparing changes nothing"""
    n = int(rng.integers(1, 4))
    ports = [f'p{k}' for k in range(n)]
    how = pick(rng, ['table', 'table', 'file', 'matrix', 'empty'])
    m = int(rng.integers(2, 6))
    fs = np.round(logu(rng, 1e6, 1e8) * np.linspace(1, 2, m))
    Ss = np.array([elems.rand_S(rng, n) for _ in fs])
    fn = os.path.join(ctx.scratch, f'c14e_{int(rng.integers(1e9))}.s{n}p')
    if how == 'file':
        with open(fn, 'w') as fh:
            fh.write(ctx.rf.rfBase(fs=list(fs), Ss=Ss.copy()).tsf2str())
        o = ctx.rf.rfObject(touchstone=fn, Zbase=float(logu(rng, 10, 100)))
    elif how == 'matrix':
        o = ctx.rf.rfObject(Ss[0].copy(), ports=list(ports))
    else:
        o = ctx.rf.rfObject(ports=list(ports), Zbase=float(logu(rng, 10, 100)))
        if how == 'table':
            for k in rng.permutation(m):
                o.setS(float(fs[k]), Ss[k].copy())
    fq = float(rng.uniform(fs[0], fs[-1]))
    ctx.desc(made=how, ports=n, points=m)
    queried = how != 'empty' and rng.random() < .5
    if queried:
        o.getS(fq)
    name, cp = copier(rng, True)
    c = cp(o)
    late = how != 'empty' and rng.random() < .5
    if late:
        pick(rng, [o, c]).getS(fq)
    w = None if how == 'empty' else o.getS(float(fs[0]) * 1.1).copy() if how != 'table' or m < 2 else o.getS(fq).copy()
    at = None if how == 'empty' else float(fs[0]) * 1.1 if how != 'table' or m < 2 else fq
    ctx.ev('comparisons')
    ctx.ok(o == o and o == c and c == o and not (o != c) and c in [o], f'a {name} compares equal with its original')
    other = pick(rng, [None, 3, 'text', {}, ctx.rf.rfRLC()])
    ctx.ok(not (o == other) and o != other and other not in [o], 'not equal to something else')
    mod = pick(rng, ['entry', 'more', 'name', 'Zbase'] if how == 'table' else ['name', 'Zbase'] if how != 'empty' else ['name', 'more'])
    a, b = (o, c) if rng.random() < .5 else (c, o)
    if mod == 'entry':
        a.setS(float(fs[0]), Ss[0] * .5 + .1)
    elif mod == 'more':
        a.setS(float(fs[-1]) * 1.5, Ss[0])
    elif mod == 'name':
        a.ports[int(rng.integers(n))] = 'another'
    else:
        a.convert2newZbase(float(a.Zbase) * 1.7)
    ctx.ok(not (a == b) and not (b == a) and a != b, f'not equal after a modification ({mod}) of one of them')
    if w is not None:
        ctx.close(b.getS(at), w, f'{name}: answer of the other one after comparisons and the modification', tol=1e-12)
    if os.path.exists(fn):
        os.remove(fn)
    ctx.nontrivial(how, name, mod, n, m, queried, late)


SCENARIOS = [('circuits', circuits, 4), ('partial', partial, 2), ('elements', elements, 3), ('lines', lines, 1), ('files', files, 1),
             ('equality', equality, 1)]
MIN_EVENTS = {'comparisons': 50, 'copied by copy()': 150, 'copied by copy.copy': 150, 'copied by deepcopy': 150, 'copied by pickle': 50,
              'modifications after copying': 500, 'building steps after copying': 200, 'element modifications': 500}
