"""C22: hierarchy is transparent"""
import copy
import numpy as np
from .. import prog, elems, hist
from ..core import Skip
from ..common import *
from ..elems import pick, logu

RULE = ('a random abstract network (elements, nodes, loads, external nodes) is executed twice: as a flat program and '
        'as a program with elements grouped at random into circuits of circuits (own reference impedance, announced '
        'order, port renaming and internal junctions on every level); S-matrices, the voltages and currents at every '
        'element port and at the external nodes and the maximum voltage have to agree; programs that use one object '
        'in several places are executed against the same with separate objects, also after the replacement of a '
        'nested block of one instance, which has to leave the others alone; circuits of any level '
        'that are also described by touchstone data are analysed with and without these data; non-trivial: at least one group of less '
        'than the whole network; distinct by both structures')
ASSUMPTIONS = ASSUME + ['groups have at least one external port',
                           'the maximum voltage of circuits described by data is only judged when the data are those of the circuit, '
                           'their Solution at the nodes that the data cover',
                        'objects used in several places are given the same parameters everywhere']
QUICK, THOROUGH = 4000, 50000


class Net:
    """abstract network: leaves, nodes = lists of (leaf, port index), closure of each node"""
    def __init__(self, rng, fs, kinds=None):
        self.rng = rng
        n = int(rng.integers(2, 7))
        self.leaves = [elems.gen(rng, fs, pick(rng, kinds or ['base', 'obj', 'rlc', 'rlc', 'trl', 'trl', 'trl', 'arc', 'cpl', 'arr']),
                                 nmax=3, Zb=50., xpos=True) for _ in range(n)]
        self.Zarr = 50.
        ps = [(k, i) for k, l in enumerate(self.leaves) for i in range(l['n'])]
        ps = [ps[i] for i in rng.permutation(len(ps))]
        self.nodes = []
        while ps:
            k = min(len(ps), pick(rng, [1, 2, 2, 2, 3, 3, 4]))
            self.nodes.append(ps[:k])
            ps = ps[k:]
        self.close = []
        order = rng.permutation(len(self.nodes))
        next_ = 0
        self.close = [None] * len(self.nodes)
        for j, k in enumerate(order):
            if next_ < 1 or (next_ < 5 and rng.random() < .35):
                self.close[k] = ('ext', next_)
                next_ += 1
            elif len(self.nodes[k]) == 1 or rng.random() < .25:
                z = complex(logu(rng, 1, 300), logu(rng, 1, 300) * pick(rng, [1, -1]))
                self.close[k] = ('load', pick(rng, [0, 0, z, z, z, np.inf]))
        self.node_of = {p: k for k, ps in enumerate(self.nodes) for p in ps}

    def load(self, Z, v):
        rng = self.rng
        if np.isinf(v):
            return pick(rng, [{'Y': 0.}, {'RC': 1.}])
        if v == 0:
            return pick(rng, [{'Z': 0.}, {'RC': -1.}])
        return pick(rng, [{'Z': v}, {'Y': 1 / v}, {'RC': (v - Z) / (v + Z)}])

    def leaf(self, k, Z):
        sp = copy.deepcopy(self.leaves[k])
        if sp['kind'] == 'arr':
            sp['S'] = elems.AB_to_S(*elems.from_S(sp['S'], self.Zarr), Z)
        return sp

    def inside(self, tree):
        return [tree] if isinstance(tree, int) else sum([self.inside(t) for t in tree], [])

    def group(self, items, depth, flat):
        """a random tree over the items"""
        rng = self.rng
        items = [items[i] for i in rng.permutation(len(items))]
        if flat or depth == 0 or len(items) < 2:
            return items
        out = []
        while items:
            k = int(rng.integers(1, len(items) + 1))
            part, items = items[:k], items[k:]
            if rng.random() < .65 and not (len(part) == 1 and rng.random() < .6):
                sub = self.group(part, depth - 1, False)
                ins = set(self.inside(sub))
                if self.exposed(ins):
                    out.append(sub)
                    continue
            out += part
        return out

    def exposed(self, ins):
        res = []
        for k, ps in enumerate(self.nodes):
            here = [p for p in ps if p[0] in ins]
            if here and (len(here) < len(ps) or (self.close[k] or ('',))[0] == 'ext'):
                res.append(k)
        return res

    def program(self, tree, level=0, Z=None, up=()):
        """(spec, {node: name of its port}, {(leaf, port): dotted name, ..})"""
        rng = self.rng
        Z = float(logu(rng, 5, 200)) if Z is None else Z
        pool = pick(rng, [['L', 'L1', 'L10', 'L11', 'L2', 'L1_', 'L1 a', 'L100', 'LL', 'l1'],
                          ['B', 'sec', 'sec2', 'sec22', 'x y', 'x', 'G', 'G0', 'BB', 'se'],
                          [str(i) for i in range(1, 13)]])
        pool = [pool[i] for i in rng.permutation(len(pool))]
        spec = dict(kind='circ', Zbase=Z, Portnames=None, Id=None, ops=[])
        at = {}         # node -> [port names on this level]
        names = {}
        todo = []
        for j, t in enumerate(tree):
            b = pool[j] if j < len(pool) else f'more{j}'
            if isinstance(t, int):
                child = self.leaf(t, Z)
                cp = elems.port_names(child)
                ports = gen_names(rng, cp, child['n'], level)
                onm = out_names(cp, ports, child['n'])
                for i, p in enumerate(onm):
                    names[(t, i)] = f'{b}.{p}'
                    at.setdefault(self.node_of[(t, i)], []).append(f'{b}.{p}')
            else:
                child, ex, nm = self.program(t, level + 1)
                # loads of nodes that are complete inside may be attached here
                cp = prog.Model(child).order()
                ports = gen_names(rng, cp, len(cp), level, True)
                onm = out_names(cp, ports, len(cp))
                for k, v in nm.items():
                    names[k] = f'{b}.{v}'
                for node, p in ex.items():
                    at.setdefault(node, []).append(f'{b}.{onm[cp.index(p)]}')
            x = float(np.round(rng.uniform(-3, 3), 2)) if rng.random() < .4 else 0.
            todo.append(('add', b, child, ports, x, None))
        for i in rng.permutation(len(todo)):
            spec['ops'].append(todo[i])
        ins = set(self.inside(tree))
        ext = set(self.exposed(ins))
        res = {}
        order = list(at)
        for i in rng.permutation(len(order)):
            k = order[i]
            ps = [at[k][j] for j in rng.permutation(len(at[k]))]
            cl = self.close[k]
            complete = all(p[0] in ins for p in self.nodes[k])
            load = cl is not None and cl[0] == 'load'
            up_ = k in ext or (load and level > 0 and complete and rng.random() < .3 and k not in self.loaded)
            if k in self.loaded:
                load = False
            if up_:
                if len(ps) == 1 and rng.random() < .8:
                    res[k] = ps[0]
                else:
                    q = f'{pick(rng, ["n", "j", "N_"])}{level}_{k}'
                    ps.insert(int(rng.integers(len(ps) + 1)), q)
                    spec['ops'].append(('con', tuple(ps)))
                    res[k] = q
            elif load:
                self.loaded.add(k)
                q = ps[0]
                if len(ps) > 1:
                    q = f'l{level}_{k}'
                    spec['ops'].append(('con', (*ps, q)))
                spec['ops'].append(('term', q, self.load(Z, cl[1])))
            elif len(ps) > 1:
                spec['ops'].append(('con', tuple(ps)))
        m = prog.Model(spec)
        if sorted(m.free) != sorted(res.values()):
            raise AssertionError((m.free, res))
        if not m.free:
            raise Skip('group without ports')
        if rng.random() < .4:
            spec['Portnames'] = [m.free[i] for i in rng.permutation(len(m.free))]
        return spec, res, names

    def make(self, depth):
        """a program and its maps"""
        for _ in range(20):
            self.loaded = set()
            tree = self.group(list(range(len(self.leaves))), depth, depth == 0)
            spec, ex, names = self.program(tree)
            if prog.Model(spec).ambiguous():
                continue
            return tree, spec, {self.close[k][1]: p for k, p in ex.items()}, names
        raise Skip('ambiguous node names')


def gen_names(rng, cp, n, level, nested=False):
    u = rng.random()
    if u < .4 or (u < .7 and cp is None):
        return None
    if u < .55:
        return [f'a{level}{k}' for k in rng.permutation(n)]
    if u < .7:
        return {p: f'd{level}{k}' for k, p in enumerate(cp) if rng.random() < .6}
    return f's{level}%d'


def out_names(cp, ports, n):
    if ports is None:
        return cp if cp is not None else [str(k) for k in range(1, n + 1)]
    if isinstance(ports, dict):
        return [ports.get(p, p) for p in cp]
    if isinstance(ports, str):
        return [ports % k for k in range(1, n + 1)]
    return list(ports)


def two(ctx, rng):
    fs = prog.freqs(rng)
    net = Net(rng, fs)
    ft, fspec, fx, fn = net.make(0)
    ht, hspec, hx, hn = net.make(int(rng.integers(1, 4)))
    for s in (fspec, hspec):
        for f in fs:
            prog.Model(s).check(f)
    prog.observe(ctx, hspec)
    ctx.desc(flat=prog.text(fspec), grouped=prog.text(hspec), freqs=fs)
    if any(not isinstance(t, int) for t in ht):
        ctx.nontrivial(prog.shape(fspec), prog.shape(hspec))
    ctx.ev('groups', prog.size(hspec)[0] - 1)
    return fs, net, (prog.build(ctx.rf, fspec), fspec, fx, fn), (prog.build(ctx.rf, hspec), hspec, hx, hn)


def smat(ctx, rng):
    fs, net, A, B = two(ctx, rng)
    Z = float(logu(rng, 5, 200))
    for f in fs:
        S, T = np.asarray(A[0].getS(f, Zbase=Z)), np.asarray(B[0].getS(f, Zbase=Z))
        ia = [A[0].ports.index(A[2][k]) for k in sorted(A[2])]
        ib = [B[0].ports.index(B[2][k]) for k in sorted(B[2])]
        ctx.close(T[np.ix_(ib, ib)], S[np.ix_(ia, ia)], 'grouped: S-matrix', tol=3e-7, f=f, Zbase=Z)
        ctx.ev('S-matrices compared')
    compS(ctx, B[0], prog.Model(B[1]), fs[0], what='grouped network')
    sa, sb = np.asarray(A[0].getS(fs, Zbase=Z)), np.asarray(B[0].getS(fs, Zbase=Z))
    ctx.close(sb[:, ib][:, :, ib], sa[:, ia][:, :, ia], 'grouped: S-matrices', tol=3e-7)


def sols(ctx, rng):
    fs, net, A, B = two(ctx, rng)
    f, Z = fs[0], float(logu(rng, 5, 200))
    a = elems.cplx(rng, len(A[2]))
    s = A[0].Solution(f, {p: complex(a[k]) for k, p in A[2].items()}, Zbase=Z)
    t = B[0].Solution(f, {p: complex(a[k]) for k, p in B[2].items()}, Zbase=Z)
    sc = max([1.] + [abs(v[0]) for v in s.values()])
    for k in A[3]:
        p, q = A[3][k], B[3][k]
        ctx.ok(p in s and q in t, f'{p} / {q} is missing in the solution', nodes=list(t))
        ctx.close(t[q][0], s[p][0], f'grouped: voltage at {p} / {q}', tol=0, atol=2e-6 * sc)
        ctx.close(50 * t[q][1], 50 * s[p][1], f'grouped: current at {p} / {q}', tol=0, atol=1e-5 * sc)
        ctx.ev('element ports compared')
    for k in A[2]:
        ctx.close(np.array(t[B[2][k]])[[0, 2, 3]], np.array(s[A[2][k]])[[0, 2, 3]], f'grouped: waves at external node {k}',
                  tol=0, atol=2e-6 * sc)
        ctx.close(50 * t[B[2][k]][1], 50 * s[A[2][k]][1], f'grouped: current at external node {k}', tol=0, atol=1e-5 * sc)
    u = A[0].maxV(f, {p: complex(a[k]) for k, p in A[2].items()}, Zbase=Z)
    v = B[0].maxV(f, {p: complex(a[k]) for k, p in B[2].items()}, Zbase=Z)
    ctx.close(float(v[0]), float(u[0]), 'grouped: maximum voltage', tol=1e-6, flat=u[1], grouped=v[1])
    ctx.ev('maxima compared')


def separate(spec):
    new = dict(spec, ops=[(o[0], o[1], separate(o[2]), *o[3:]) if o[0] == 'add' else o for o in spec['ops']]) \
        if spec['kind'] == 'circ' else copy.deepcopy(spec)
    new.pop('share', None)
    return new


def shared(ctx, rng):
    """one object in several places"""
    fs = prog.freqs(rng)
    for _ in range(30):
        spec = prog.gen_circuit(rng, fs, depth=int(rng.integers(1, 4)), share=.6, nblk=int(rng.integers(3, 6)), maxext=6,
                                force_nested=True)
        n = count(spec)
        if max(n.values(), default=0) > 1:
            break
    else:
        raise Skip('nothing shared')
    if prog.Model(spec).ambiguous():
        raise Skip('ambiguous node names')
    sep = separate(spec)
    m = prog.Model(sep)
    prog.observe(ctx, spec)
    env = {}
    c, d = prog.build(ctx.rf, spec, env), prog.build(ctx.rf, sep)
    log = []
    ctx.desc(program=prog.text(spec), log=log, instances=sorted(n.values()))
    ctx.ev('shared objects', sum(v > 1 for v in n.values()))
    h = hist.Hist(ctx, rng, fs, sep, d)

    def same():
        m = h.model()
        if m.ambiguous():
            raise Skip('ambiguous node names')
        f = pick(rng, fs)
        m.check(f)
        Z = float(logu(rng, 5, 200))
        S, T = np.asarray(c.getS(f, Zbase=Z)), np.asarray(d.getS(f, Zbase=Z))
        ctx.ok(list(c.ports) == list(d.ports), 'shared: ports', got=c.ports, want=d.ports)
        ctx.close(S, T, 'shared against separate objects', tol=1e-7, log=log)
        compS(ctx, c, m, f, what='shared objects')
        E = excite(rng, m.order())
        comp_sol(ctx, c.Solution(f, dict(E)), m.solution(f, E), what='shared objects')
        a, b = c.maxV(f, dict(E)), d.maxV(f, dict(E))
        ctx.close(float(a[0]), float(b[0]), 'shared: maximum voltage', tol=1e-6)
        ctx.ev('shared compared')
    same()
    # another user of the same object
    key = pick(rng, [k for k, v in n.items() if v > 1])
    sub = env[key]
    sspec = find(spec, key)
    f = fs[0]
    prog.Model(sspec).check(f) if sspec['kind'] == 'circ' else None
    before = np.asarray(sub.getS(f)) if hasattr(sub, 'getS') else sub.copy()
    for _ in range(int(rng.integers(1, 3))):
        # replacement of a nested block of one instance
        k = len(h.log)
        if not h.m_dotted():
            continue
        log += h.log[k:]
        c.addblock(h.last[0], prog.build(ctx.rf, h.last[1]))
        ctx.ev('instance replacements')
        same()
        after = np.asarray(sub.getS(f)) if hasattr(sub, 'getS') else sub
        ctx.close(after, before, 'the object used elsewhere was modified by the replacement', tol=1e-9, log=log)
    ctx.nontrivial(prog.shape(spec), [l.split()[0] for l in log])


def count(spec, res=None):
    res = {} if res is None else res
    for o in spec['ops']:
        if o[0] == 'add':
            k = o[2].get('share')
            if k:
                res[k] = res.get(k, 0) + 1
            if o[2]['kind'] == 'circ' and not (k and res[k] > 1):
                count(o[2], res)
    return res


def find(spec, key):
    for o in spec['ops']:
        if o[0] == 'add':
            if o[2].get('share') == key:
                return o[2]
            if o[2]['kind'] == 'circ':
                r = find(o[2], key)
                if r is not None:
                    return r


def wrap(ctx, rng):
    """a circuit in a circuit in a circuit ... is the circuit"""
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=int(rng.integers(0, 2)), maxext=4)
    m = prog.Model(spec)
    for f in fs:
        m.check(f)
    c = prog.build(ctx.rf, spec)
    n = int(rng.integers(1, 9))
    top, nm = c, list(m.order())
    path = ''
    back = {p: p for p in nm}
    for k in range(n):
        t = ctx.rf.rfCircuit(Zbase=float(logu(rng, 5, 200)))
        b = pick(rng, ['in', 'X', f'w{k}', 'n'])
        cur = [p for p in back]
        u = int(rng.integers(3))
        if rng.random() < .3:
            top.getS(fs[0])
        if u == 0:
            t.addblock(b, top)
            back = {f'{b}.{p}': q for p, q in back.items()}
        elif u == 1:
            mp = {p: f'c{k}_{i}' for i, p in enumerate(cur)}
            t.addblock(b, top, ports=dict(mp))
            back = {f'{b}.{mp[p]}': q for p, q in back.items()}
        else:
            t.addblock(b, top)
            new = {}
            for i, (p, q) in enumerate(back.items()):
                if rng.random() < .5:
                    t.connect(f'{b}.{p}', f'e{k}_{i}')
                    new[f'e{k}_{i}'] = q
                else:
                    new[f'{b}.{p}'] = q
            back = new
        path = f'{b}.{path}' if path else b
        top = t
    ctx.desc(program=prog.text(spec), levels=n, path=path, ports=back)
    Z = float(logu(rng, 5, 200))
    for f in fs:
        S, T = np.asarray(c.getS(f, Zbase=Z)), np.asarray(top.getS(f, Zbase=Z))
        ctx.ok(sorted(top.ports) == sorted(back), 'ports of the wrapped circuit', got=top.ports, want=list(back))
        ix = [c.ports.index(back[p]) for p in top.ports]
        ctx.close(T, S[np.ix_(ix, ix)], 'wrapped circuit', tol=1e-6, f=f)
        ctx.ev('S-matrices compared')
    E = excite(rng, list(back))
    f = fs[0]
    s = top.Solution(f, dict(E), Zbase=Z)
    w = m.solution(f, {back[p]: a for p, a in E.items()}, Z)
    sc = max([1.] + [abs(v[0]) for v in w.values()])
    for p in w:
        ctx.ok(f'{path}.{p}' in s, f'node {path}.{p} is missing', got=list(s))
        ctx.close(s[f'{path}.{p}'][0], w[p][0], f'voltage at {path}.{p}', tol=0, atol=1e-6 * sc)
        ctx.close(50 * s[f'{path}.{p}'][1], 50 * w[p][1], f'current at {path}.{p}', tol=0, atol=1e-5 * sc)
        ctx.ev('element ports compared')
    ctx.close(float(top.maxV(f, dict(E), Zbase=Z)[0]), float(c.maxV(f, {back[p]: a for p, a in E.items()}, Zbase=Z)[0]),
              'maximum voltage of the wrapped circuit', tol=1e-6)
    ctx.ev('maxima compared')
    ctx.nontrivial(prog.shape(spec), n, path)


def described(ctx, rng):
    """circuits of any level that are also described by data: used, or not, as asked for at the top"""
    fs = prog.freqs(rng)
    spec0 = prog.gen_circuit(rng, fs, depth=int(rng.integers(1, 4)), share=0, maxext=4, force_nested=True)
    true = len(fs) > 1 and rng.random() < .5
    spec = prog.with_data(rng, spec0, fs, true, pick(rng, [.3, .6, 1.]))
    if prog.Model(spec0).ambiguous():
        raise Skip('ambiguous node names')
    plain = prog.without_data(spec)
    data = prog.by_data(spec)
    c = prog.build(ctx.rf, spec)
    d = prog.build(ctx.rf, plain)
    mp = prog.Model(plain)
    top = data['kind'] != 'circ'
    md = None if top else prog.Model(data)
    log = []
    ctx.desc(program=prog.text(spec), true=true, freqs=fs, log=log)
    O = list(mp.order())

    def want(f, Z, use):
        mp.check(f)
        if not use:
            return mp.S(f, Z)
        if top:
            return elems.AB_to_S(*elems.ref(data, f, 50.), Z)
        md.check(f)
        return md.S(f, Z)
    for _ in range(int(rng.integers(3, 9))):
        u, f = int(rng.integers(5)), pick(rng, fs)
        use = rng.random() < .5
        fl = {'sNp': False} if not use else pick(rng, [{}, {'sNp': True}])
        Z = float(logu(rng, 5, 200)) if rng.random() < .7 else spec['Zbase']
        log.append((u, f, Z, fl))
        S = want(f, Z, use)
        E = excite(rng, O)
        if u == 0:
            g = np.asarray(c.getS(f, Zbase=Z, flags=dict(fl)))
            ix = [O.index(p) for p in c.ports]
            ctx.close(g, S[np.ix_(ix, ix)], 'described: S-matrix', tol=1e-6, log=log)
            ctx.ev('described: S-matrices')
        elif u == 1:
            g = np.asarray(c.getS(fs, Zbase=Z, flags=dict(fl)))
            ix = [O.index(p) for p in c.ports]
            for k, x in enumerate(fs):
                ctx.close(g[k], want(x, Z, use)[np.ix_(ix, ix)], 'described: S-matrices', tol=1e-6, log=log)
        elif u in (2, 3):
            s = c.Solution(f, dict(E), Zbase=Z, flags=dict(fl))
            if not use:
                comp_sol(ctx, s, mp.solution(f, E, Z), 'described, data not used: Solution')
            elif top:
                a = np.array([E[p] for p in O])
                b = S @ a
                comp_sol(ctx, s, {p: (x + y, (x - y) / Z, x, y) for p, x, y in zip(O, a, b)}, 'described: Solution')
            elif md.ambiguous():
                pass
            else:
                comp_sol(ctx, s, md.solution(f, E, Z), 'described: Solution')
            ctx.ev('described: solutions')
        elif not use or true:
            v, w = c.maxV(f, dict(E), Zbase=Z, flags=dict(fl)), d.maxV(f, dict(E), Zbase=Z)
            ctx.close(float(v[0]), float(w[0]), 'described: maximum voltage', tol=1e-5, log=log)
            ctx.ev('described: maxima')
            c.solve(f, dict(E), Zbase=Z)
    ctx.nontrivial(prog.shape(spec), true, [(l[0], bool(l[3])) for l in log])


SCENARIOS = [('described', described, 2), ('smat', smat, 3), ('sols', sols, 3), ('shared', shared, 3), ('wrap', wrap, 1)]
MIN_EVENTS = {'S-matrices compared': 250, 'element ports compared': 1500, 'maxima compared': 120, 'shared compared': 200,
              'instance replacements': 80, 'described: S-matrices': 50, 'described: solutions': 80, 'described: maxima': 30, 'groups': 300}
