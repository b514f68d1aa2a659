"""operation histories on a real circuit together with the spec that describes its present definition"""
import copy
import numpy as np
from . import prog, elems
from .core import Skip
from .elems import pick, logu, cplx
from .common import excite, compS, comp_sol, check_ports


def settables(spec, prefix=''):
    """[(path, leaf spec)] of all leaves that have attributes to set"""
    res = []
    for op in spec['ops']:
        if op[0] == 'add':
            if op[2]['kind'] == 'circ':
                res += settables(op[2], prefix + op[1] + '.')
            elif op[2]['kind'] in ('rlc', 'trl', 'arc'):
                res.append((prefix + op[1], op[2]))
    return res


def paths(spec, prefix='', kinds=None):
    """[(path, child spec)] of all blocks on all levels"""
    res = []
    for op in spec['ops']:
        if op[0] == 'add':
            if kinds is None or op[2]['kind'] in kinds:
                res.append((prefix + op[1], op[2]))
            if op[2]['kind'] == 'circ':
                res += paths(op[2], prefix + op[1] + '.', kinds)
    return res


def newvalue(rng, leaf, f, same=.1):
    """(attribute, value) to set on a leaf"""
    kw, w = leaf['kw'], elems.W * f
    a = {'rlc': ['Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp'], 'trl': ['L'], 'arc': ['Larc']}[leaf['kind']]
    a = pick(rng, a)
    if a in kw and rng.random() < same:
        return a, kw[a]
    z = logu(rng, 2, 200)
    v = {'Rs': z, 'Rp': z, 'Ls': z / w, 'Lp': z / w, 'Larc': z / w, 'Cs': 1 / z / w, 'Cp': 1 / z / w,
         'L': float(rng.uniform(.01, .8) * elems.C0 / f)}[a]
    return a, v


DEFAULT = dict(Rs=0., Ls=0., Cs=np.inf, Rp=np.inf, Lp=np.inf, Cp=0., Larc=np.inf)


def present(leaf, a):
    return leaf['kw'].get(a, DEFAULT.get(a))


def as_kwargs(path, val):
    """keyword form: {first: {second: ... val}}"""
    names = path.split('.')
    for n in reversed(names[1:]):
        val = {n: val}
    return {names[0]: val}


def set_forms(path, sets):
    """equivalent ways to set the attributes {attr: value} of the block at path:
    list of (name, function of the circuit)"""
    res = [('dotted attr', lambda c: any([c.set(f'{path}.{a}', v) for a, v in sets.items()])),
           ('tuple', lambda c: c.set(*[(f'{path}.{a}', v) for a, v in sets.items()])),
           ('dict of dotted attrs', lambda c: c.set({f'{path}.{a}': v for a, v in sets.items()})),
           ('path, dict', lambda c: c.set(path, dict(sets))),
           ('tuple path, dict', lambda c: c.set((path, dict(sets)))),
           ('dict path: dict', lambda c: c.set({path: dict(sets)})),
           ('keyword', lambda c: c.set(**as_kwargs(path, dict(sets)))),
           ('nested dict', lambda c: c.set(as_kwargs(path, dict(sets)))),
           ('alternating', lambda c: c.set(*sum([[f'{path}.{a}', v] for a, v in sets.items()], [])))]
    if '.' in path:
        h, t = path.split('.', 1)
        res += [('mixed keyword', lambda c: c.set(**{h: {t: dict(sets)}})),
                ('mixed dict', lambda c: c.set({h: {f'{t}.{a}': v for a, v in sets.items()}})),
                ('mixed path', lambda c: c.set(h, {t: dict(sets)}))]
    return res


def fresh(spec):
    return copy.deepcopy(spec)


def again(rng, ports, past):
    """an excitation, often one that resembles an earlier one: the same amplitudes with other phases, another sign,
    permuted, scaled, or the very same"""
    if past and rng.random() < .6:
        E = dict(zip(ports, pick(rng, past)))
        u = int(rng.integers(6))
        if u == 0:
            E = {p: v * np.exp(2j * np.pi * rng.random()) for p, v in E.items()}
        elif u == 1:
            p = pick(rng, ports)
            E[p] = -E[p]
        elif u == 2:
            E = {p: np.conj(v) for p, v in E.items()}
        elif u == 3:
            E = dict(zip(ports, [E[p] for p in [ports[i] for i in rng.permutation(len(ports))]]))
        elif u == 4:
            E = {p: v * float(logu(rng, 1e-13, 1e6)) for p, v in E.items()}
        E = {p: complex(v) for p, v in E.items()}
    else:
        E = {p: complex(v) for p, v in zip(ports, cplx(rng, len(ports)))}
    past.append([E[p] for p in ports])
    return E


class Hist:
    same = .1                     # share of settings to the present value
    def __init__(self, ctx, rng, fs, spec, c=None):
        self.ctx, self.rng, self.fs, self.spec = ctx, rng, fs, spec
        self.c = prog.build(ctx.rf, spec) if c is None else c
        self.log = []
        self.Z = float(logu(rng, 3, 300))
        self.nmod = self.nquery = 0
        self.solved = False       # the real circuit was asked for an answer

    def model(self):
        return prog.Model(self.spec)

    # ------------------------------------------------------------ modifications
    MODS = ['set', 'set', 'set', 'reterm', 'term', 'replace', 'replace', 'dotted', 'Portnames', 'direct']

    def modify(self, kinds=None):
        rng = self.rng
        for _ in range(6):
            k = pick(rng, kinds or self.MODS)
            if getattr(self, 'm_' + k)():
                self.ctx.ev('modification ' + k)
                self.nmod += 1
                return k

    def m_set(self, direct=False):
        rng = self.rng
        leaves = settables(self.spec)
        if not leaves:
            return False
        path, leaf = pick(rng, leaves)
        sets = dict(newvalue(rng, leaf, self.fs[0], self.same) for _ in range(int(rng.integers(1, 3))))
        changed = any(present(leaf, a) != v for a, v in sets.items())
        if direct:
            name, fun = 'direct', lambda c: c.object(path).set(**sets)
        else:
            name, fun = pick(rng, set_forms(path, sets))
        self.log.append(f'set {path} {sets} ({name})')
        r = fun(self.c)
        leaf['kw'].update(sets)
        self.ctx.ok(bool(r) == changed, f'set: return value ({name})', got=r, want=changed, log=self.log)
        return True

    def m_direct(self):
        return self.m_set(True)

    def m_reterm(self):
        t = [op for op in self.spec['ops'] if op[0] == 'term']
        if not t:
            return False
        port, kw = pick(self.rng, t)[1], prog.gen_load(self.rng, 'passive', self.spec['Zbase'])
        self.log.append(f'terminate {port} {kw} (again)')
        self.c.terminate(port, **kw)
        self.spec['ops'].append(('term', port, kw))
        return True

    def m_term(self):
        m = self.model()
        if len(m.free) < 2 or self.rng.random() < .4:
            return False
        port, kw = pick(self.rng, m.free), prog.gen_load(self.rng, 'passive', self.spec['Zbase'])
        self.log.append(f'terminate {port} {kw}')
        self.c.terminate(port, **kw)
        self.spec['ops'].append(('term', port, kw))
        if self.spec['Portnames']:
            self.spec['Portnames'] = [p for p in self.spec['Portnames'] if p != port]
            # before the first answer an announced list describes the finished circuit:
            # it is up to the caller to announce another one
            if not self.solved or self.rng.random() < .3:
                self.c.Portnames = list(self.spec['Portnames'])
        return True

    def newchild(self, n, nested=True):
        """another object with n ports"""
        rng = self.rng
        for _ in range(20):
            if nested and rng.random() < .3:
                ch = prog.gen_circuit(rng, self.fs, 0, 'passive', None, n, n, share=0, relpos=False)
                if len(prog.Model(ch).order()) == n:
                    return ch
            else:
                ch = elems.gen(rng, self.fs, None, 'passive', nmax=max(4, n), xpos=False)
                if ch['n'] == n:
                    return ch
        ch = elems.gen(rng, self.fs, 'arr', 'passive')
        return dict(ch, n=n, S=elems.rand_S(rng, n))

    def swap(self, spec, name):
        """replace block name of spec by a new object; returns (new child, undo)"""
        m = prog.Model(spec)
        k = [i for i, op in enumerate(spec['ops']) if op[0] == 'add' and op[1] == name][0]
        op = spec['ops'][k]
        ports = m.blocks[name][1]
        ch = self.newchild(len(ports))
        spec['ops'][k] = ('add', name, ch, list(ports), op[4], None)
        # the names of the ports of a nested circuit must not be mistaken for others
        if ch['kind'] == 'circ' and (set(prog.Model(ch).all()) & set(ports) or self.model().ambiguous()):
            spec['ops'][k] = op
            return None
        return ch

    def m_replace(self):
        name = pick(self.rng, [op[1] for op in self.spec['ops'] if op[0] == 'add'])
        ch = self.swap(self.spec, name)
        if ch is None:
            return False
        self.log.append(f'replace {name} by {ch["kind"]}')
        self.put(name, ch)
        return True

    def put(self, path, ch):
        """the replacement; now and then with values of its parameters"""
        o = prog.build(self.ctx.rf, ch)
        kw = self.newparams(ch) if self.rng.random() < .4 else {}
        self.c.addblock(path, o, **kw)
        if kw:
            self.ctx.ev('replacements with params')
            self.log.append(f'(with params {kw})')

    def newparams(self, ch):
        """{'params': ..} changing some of the child (which has them afterwards)"""
        leaves = settables(ch) if ch['kind'] == 'circ' else [('', ch)] if ch['kind'] in ('rlc', 'trl', 'arc') else []
        if not leaves:
            return {}
        q, leaf = pick(self.rng, leaves)
        a, v = newvalue(self.rng, leaf, self.fs[0], self.same)
        leaf['kw'][a] = v
        return {'params': as_kwargs(q, {a: v}) if q else {a: v}}

    def m_dotted(self):
        nested = paths(self.spec, kinds=('circ',))
        if not nested:
            return False
        path, sub = pick(self.rng, nested)
        # only the addressed instance is affected: along the path nothing is shared any more
        spec = self.spec
        for n in path.split('.'):
            k = [i for i, op in enumerate(spec['ops']) if op[0] == 'add' and op[1] == n][0]
            op = spec['ops'][k]
            new = prog.unshare(copy.deepcopy(op[2]))
            spec['ops'][k] = ('add', n, new, *op[3:])
            spec = new
        name = pick(self.rng, [op[1] for op in spec['ops'] if op[0] == 'add'])
        ch = self.swap(spec, name)
        if ch is None:
            return False
        self.log.append(f'replace {path}.{name} by {ch["kind"]}')
        self.last = (f'{path}.{name}', ch)
        self.put(f'{path}.{name}', ch)
        return True

    def m_Portnames(self):
        m = self.model()
        if len(m.free) < 2:
            return False
        new = [m.free[i] for i in self.rng.permutation(len(m.free))]
        self.log.append(f'Portnames = {new}')
        self.c.Portnames = list(new)
        self.spec['Portnames'] = new
        return True

    # ------------------------------------------------------------------ queries
    QUERIES = ['S', 'S', 'Sz', 'Svec', 'sol', 'maxV', 'str', 'flags', 'internal']

    def query(self, kinds=None):
        k = pick(self.rng, kinds or self.QUERIES)
        m = self.model()
        f = pick(self.rng, self.fs)
        try:
            m.check(f)
            self.solved |= k != 'str'
            getattr(self, 'q_' + k)(m, f)
        except Skip:
            self.ctx.ev('undecided queries')
            return None
        self.ctx.ev('query ' + k)
        self.log.append(f'{k}@{f:g}')
        self.nquery += 1
        return k

    def what(self, t):
        return t + ' after ' + '; '.join(self.log[-8:])

    def q_S(self, m, f):
        compS(self.ctx, self.c, m, f, what=self.what('getS'))

    def q_Sz(self, m, f):
        compS(self.ctx, self.c, m, f, float(logu(self.rng, 3, 300)), what=self.what('getS(Zbase)'))

    def q_Svec(self, m, f):
        fs = [pick(self.rng, self.fs) for _ in range(3)]
        for x in fs:
            m.check(x)
        Z = None if self.rng.random() < .5 else float(logu(self.rng, 3, 300))
        S = self.c.getS(fs) if Z is None else self.c.getS(fs, Zbase=Z)
        for x, s in zip(fs, S):
            compS(self.ctx, self.c, m, x, Z, S=s, what=self.what('getS(vector)'))

    def q_flags(self, m, f):
        S = self.c.getS(f, flags=pick(self.rng, [{'sNp': False}, {'sNp': True}, {'x': 1}, {}]))
        compS(self.ctx, self.c, m, f, S=S, what=self.what('getS(flags)'))

    def q_sol(self, m, f):
        E = excite(self.rng, m.order())
        Z = None if self.rng.random() < .5 else float(logu(self.rng, 3, 300))
        comp_sol(self.ctx, self.c.Solution(f, E, Zbase=Z), m.solution(f, E, Z), self.what('Solution'))

    def q_maxV(self, m, f):
        past = self.__dict__.setdefault('past', {}).setdefault(len(m.order()), [])
        E = again(self.rng, m.order(), past)
        Z = float(logu(self.rng, 3, 300)) if self.rng.random() < .4 else self.Z
        v = float(self.c.maxV(f, E, Z)[0])
        sol = m.solution(f, E, Z)
        vn = max([abs(x[0]) for x in sol.values()])
        self.ctx.ok(v >= vn * (1 - 1e-6) - 1e-9 * max([1] + [abs(x) for x in E.values()]), self.what('maxV below a node voltage'), got=v, want=vn)
        try:
            d = prog.build(self.ctx.rf, fresh(self.spec))
        except Exception as e:
            self.ctx.fail('fresh building failed: ' + repr(e), log=self.log)
        self.ctx.close(v, float(d.maxV(f, E, Z)[0]), self.what('maxV against a fresh circuit'), tol=1e-6, atol=0.)

    def q_str(self, m, f):
        str(self.c)
        self.c.asstr(1)

    def q_internal(self, m, f):
        S = self.c.Get_internalSmatrix(f, list(m.order()))
        o = m.order()
        self.ctx.close(S, m.S(f), self.what('internal S-matrix of the external ports'), tol=1e-6)

    def final(self):
        for k in ('S', 'Sz', 'sol'):
            self.query([k])
