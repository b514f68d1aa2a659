"""C26: a model file describes the same circuit as building it by hand"""
import contextlib, copy, io, os, pprint
import numpy as np
from .. import prog, elems, hist, line
from ..core import Skip
from ..common import *
from ..elems import pick, logu

RULE = ('random model files (sections of every kind in every documented notation and unit, junctions, terminations, loops, '
        'positions, several models per file, local and global variables defined by expressions in any order) are written to '
        'disk and loaded with random overrides and reference impedances; ports, positions, S-matrices (all calling forms), '
        'solutions and behaviour after later changes are compared with an independent model of the described network, also '
        'within further circuits; invalid descriptions have to be refused; non-trivial: at least two sections; distinct by '
        'structure, notations, variables')
ASSUMPTIONS = ASSUME + ['sections with both ports terminated are not part of the workload',
                        'positions are compared where they are determined by the given ones without contradiction']
QUICK, THOROUGH = 2100, 60000

UNIT = {'ID': 1e-3, 'OD': 1e-3, 'CTL': 1e-12, 'LTL': 1e-9, 'rho': 1e-6, 'Cs': 1e-12, 'Cp': 1e-12, 'Ls': 1e-9, 'Lp': 1e-9,
        'Larc': 1e-9}


class Vars:
    """variables: their final values and how they are written"""
    def __init__(self, rng):
        self.rng, self.val, self.loc, self.glo, self.over = rng, {}, {}, {}, {}
        self.p = pick(rng, [0., .3, .7])

    def define(self, v):
        """a new variable of final value v"""
        rng = self.rng
        name = pick(rng, ['a', 'b', 'Lx', 'Z_', 'l1', 'x', 'F', 'Zc']) + str(len(self.val))
        text = v
        if self.val and rng.random() < .5:
            o = pick(rng, list(self.val))
            text = self.expr(v, o)
        elif rng.random() < .3:
            text = repr(v)
        elif rng.random() < .2 and v > 0:
            text = f'np.sqrt({v * v!r})'
        self.val[name] = v
        wrong = lambda: pick(rng, [v * 1.7 + 1, repr(v * 2.5 + .1), 1])
        u = int(rng.integers(6))
        if u < 2:
            self.loc[name] = text
        elif u < 3:
            self.glo[name] = text
        elif u == 3:             # global ones take precedence
            self.loc[name] = wrong()
            self.glo[name] = text
        else:                    # overridden by the caller
            (self.loc if rng.random() < .5 else self.glo)[name] = wrong()
            if rng.random() < .2:
                self.loc[name] = wrong()
            self.over[name] = text
        return name

    def expr(self, v, o):
        w = self.val[o]
        u = int(self.rng.integers(4))
        if w and abs(v) < .01 * abs(w):      # no cancellations
            u = u % 2 * 2
        if u == 0 and w:
            return f'{o}*{v / w!r}'
        if u == 1:
            return f'{v - w!r} + {o}'
        if u == 2 and w:
            return f'{v * w!r}/{o}'
        return f'({o} - {w!r}) + {v!r}'

    def __call__(self, v):
        """the value or an expression of it"""
        rng = self.rng
        if isinstance(v, list):
            if v and not isinstance(v[0], list) and rng.random() < self.p:
                return '[' + ', '.join(str(self(float(x))) for x in v) + ']'
            return v
        if rng.random() >= self.p:
            return v
        if self.val and rng.random() < .5:
            return self.expr(v, pick(rng, list(self.val)))
        n = self.define(v)
        return n if rng.random() < .6 else pick(rng, [f'1*{n}', f'{n} + 0', f'({n})', f'2*{n} - {n}'])

    def shuffled(self, d):
        k = list(d)
        return {k[i]: d[k[i]] for i in self.rng.permutation(len(k))}


def section(rng, fs, f0):
    """(spec, description without ports)"""
    kind = pick(rng, ['trl', 'trl', 'line', 'line', 'rlc', 'arc'])
    if kind == 'line':
        for _ in range(30):
            ln = line.gen(rng, f0, bool(rng.random() < .3))
            if all(isinstance(p.arg, (int, float, list)) and not (isinstance(p.arg, list) and isinstance(p.arg[0], list))
                   and not isinstance(p.arg, np.floating) for p in ln.P.values()):
                break
        else:
            ln = line.Line(1., {'Z0TL': line.const(30.)})
        d = {k: p.arg for k, p in ln.P.items()}
        return dict(kind='line', n=2, line=ln, kw={}), dict(d, L=ln.L)
    sp = elems.gen(rng, fs, kind, xpos=False)
    sp['kw'].pop('ports', None)
    sp['kw'].pop('Zbase', None)
    if kind == 'arc':
        if np.isinf(sp['kw'].get('Larc', np.inf)):
            sp['kw']['Larc'] = logu(rng, 2, 300) / (2 * np.pi * f0)
    return sp, dict(sp['kw'])


class Gtl:
    def __init__(self, ctx, rng, fs, maxsec=6):
        self.ctx, self.rng, self.fs = ctx, rng, fs
        f0 = float(np.mean(fs))
        V = self.V = Vars(rng)
        nodes = {'P0': float(np.round(rng.uniform(-3, 3), 3))}
        deg = {'P0': 0}
        self.secs = []            # name, spec, description, ports [node|terminated], start position
        nsec = int(rng.integers(1, maxsec + 1))
        nm = [n for n in ['A', 'B', 'tl 1', 'TL2', 'X', 'short', 'V_1', 'Z', 'S11', 'C']]
        for k in range(nsec):
            sp, d = section(rng, fs, f0)
            if sp['kind'] == 'arc' and k == 0:
                sp, d = elems.gen(rng, fs, 'trl', xpos=False), None
                sp['kw'].pop('ports', None), sp['kw'].pop('Zbase', None)
                d = dict(sp['kw'])
            name = nm[k]
            L = sp['line'].L if sp['kind'] == 'line' else sp['kw']['L'] if sp['kind'] == 'trl' else 0.
            if sp['kind'] == 'arc':
                n = pick(rng, list(nodes))
                deg[n] += 1
                self.secs.append([name, sp, d, [n], nodes[n]])
                continue
            n = pick(rng, list(nodes)) if k else 'P0'
            side = int(rng.integers(2))
            start = nodes[n] if side == 0 else nodes[n] - L
            other = start + L if side == 0 else start
            deg[n] += 1
            u = rng.random()
            same = [m for m in nodes if m != n and abs(nodes[m] - other) < 1e-12 and L == 0.]
            if k and u < .35:
                e = pick(rng, ['[sc]', '[oc]', 'load', 'load'])
                if e == 'load':
                    e = prog.gen_load(rng, 'passive', 50.)
                    if not e:
                        e = {'Z': 20.}
            elif u < .7 and same:
                e = pick(rng, same)
                deg[e] += 1
            else:
                e = pick(rng, ['P', 'j', 'node ', 'n_']) + str(len(nodes))
                nodes[e] = other
                deg[e] = 1
            self.secs.append([name, sp, d, [n, e] if side == 0 else [e, n], start])
        self.nodes, self.deg = nodes, deg
        ext = [n for n in nodes if deg[n] == 1]
        if not 1 <= len(ext) <= 5:
            raise Skip('number of external ports')
        self.ext = [ext[i] for i in rng.permutation(len(ext))]
        # order of the sections in the file
        self.secs = [self.secs[i] for i in rng.permutation(len(self.secs))]
        self.write()

    def write(self):
        rng, V = self.rng, self.V
        GTL = {}
        # anchors: at least one position is given
        anchors = [n for n in self.ext if rng.random() < .5]
        banchors = [s[0] for s in self.secs if rng.random() < .25]
        if not anchors and not banchors:
            if rng.random() < .5:
                anchors = [pick(rng, self.ext)]
            else:
                banchors = [pick(rng, self.secs)[0]]
        for name, sp, d, ends, start in self.secs:
            b = {}
            for k, v in d.items():
                q = UNIT.get(k, 1.)
                v = [float(x) / q for x in v] if isinstance(v, list) else v / q
                k = pick(rng, ['L', 'length']) if k == 'L' else pick(rng, ['Z', 'Z0TL']) if k == 'Z0TL' else k
                b[k] = V(v)
            ports = []
            for e in ends:
                if isinstance(e, dict):
                    e = {k: (V(v) if isinstance(v, float) else v) for k, v in e.items()}
                ports.append(e)
            b[pick(rng, ['ports', 'Portnames'])] = ports
            if name in banchors:
                b[pick(rng, ['relpos', 'xpos'])] = V(start)
            GTL[name] = V.shuffled(b)
        m = dict(Portnames=list(self.ext), GTL=GTL)
        if anchors:
            m['relpos'] = {n: V(self.nodes[n]) for n in anchors}
        loc = V.shuffled(V.loc)
        if loc or rng.random() < .5:
            m['variables'] = loc
        key = self.key = pick(rng, ['T1', 'ARC', 'X'])
        model = {key: V.shuffled(m)}
        if V.glo or rng.random() < .3:
            model['variables'] = V.shuffled(V.glo)
        if rng.random() < .3:
            model[key + '_'] = {'Portnames': ['Q'], 'GTL': {'A': {'ports': ['Q', '[sc]'], 'L': 1., 'Z': 10.}}}
        self.model = V.shuffled(model)
        u = rng.random()
        self.text = repr(self.model) if u < .5 else '# a model\n' + pprint.pformat(self.model) + '\n# end\n'
        self.named = rng.random() < .5
        self.path = os.path.join(self.ctx.scratch, 'g' + (pick(rng, ['.mod', '.MOD']) + self.key
                                                         if self.named else pick(rng, ['.mod', '.txt', ''])))
        for f in os.listdir(self.ctx.scratch):
            if f.startswith('g'):
                os.remove(os.path.join(self.ctx.scratch, f))
        with open(self.path, 'w') as f:
            f.write(self.text)

    def spec(self, Zbase):
        ops, joint = [], {n: [] for n in self.nodes}
        for name, sp, d, ends, start in self.secs:
            pn = [e if isinstance(e, str) else '[**]' for e in ends]
            sp = copy.deepcopy(sp)
            if sp['kind'] != 'line':
                sp['kw']['Zbase'] = Zbase
            ops.append(('add', name, sp, pn, start, None))
            for e, p in zip(ends, pn):
                if e == '[sc]':
                    ops.append(('term', f'{name}.{p}', {'Z': 0}))
                elif e == '[oc]':
                    ops.append(('term', f'{name}.{p}', {'Y': 0}))
                elif isinstance(e, dict):
                    ops.append(('term', f'{name}.{p}', dict(e)))
                else:
                    joint[e].append(f'{name}.{p}')
        for n, ps in joint.items():
            if len(ps) > 1:
                ops.append(('con', tuple(ps)))
        for p in self.ext:
            ops.append(('con', (joint[p][0], p)))
        return dict(kind='circ', Zbase=Zbase, Portnames=list(self.ext), ops=ops)

    def load(self, **kw):
        from pyRFtk.rfGTL import rfGTL
        V = self.V
        if not self.named or self.rng.random() < .3:
            kw['objkey'] = self.key
        if V.over:
            kw['variables'] = self.over = dict(V.over)
            before = dict(self.over)
        with contextlib.redirect_stdout(io.StringIO()):
            c = rfGTL(self.path, **kw)
        if V.over:
            self.ctx.same(self.over, before, 'variables handed to rfGTL')
        with open(self.path) as f:
            self.ctx.ok(f.read() == self.text, 'the model file was modified')
        return c

    def edited(self):
        """the file with the overrides written into it"""
        m = copy.deepcopy(self.model)
        if self.V.over:
            m.setdefault('variables', {}).update(self.V.over)
        p = self.path + '_e'
        with open(p, 'w') as f:
            f.write(repr(m))
        from pyRFtk.rfGTL import rfGTL
        return lambda **kw: rfGTL(p, objkey=self.key, **kw)

    def shape(self):
        return [(s[1]['kind'], sorted(s[2]), [e if isinstance(e, str) else sorted(e) for e in s[3]]) for s in self.secs], \
            sorted(self.V.val), len(self.V.over), self.named


def compare(ctx, rng, g, c, spec, what):
    m = prog.Model(spec)
    ctx.same(list(c.ports), g.ext, f'ports ({what})')
    ctx.ok(len(c) == len(g.ext), f'number of ports ({what})')
    ctx.close(np.array(c.xpos, float), np.array([g.nodes[p] for p in g.ext]), f'positions of the ports ({what})', tol=1e-9)
    for f in g.fs:
        compS(ctx, c, m, f, what=f'S-matrix ({what})')
        ctx.ev('S-matrices')
    Z = float(logu(rng, 3, 300))
    f = pick(rng, g.fs)
    compS(ctx, c, m, f, Z, what=f'S-matrix at another impedance ({what})')
    got = np.asarray(c.getS(np.array(g.fs), Zbase=Z))
    for k, f in enumerate(g.fs):
        compS(ctx, c, m, f, Z, what=f'S-matrices of a vector ({what})', S=got[k])
    compS(ctx, c, m, f, what=f'getSgtl ({what})', S=np.asarray(c.getSgtl(f)))
    E = excite(rng, g.ext)
    comp_sol(ctx, c.Solution(f, dict(E)), m.solution(f, E), f'Solution ({what})')
    for p, x in m.allpos().items():
        if not p.endswith('[**]') or p in m.pos:
            ctx.close(float(c.getpos(p)), x, f'position of {p} ({what})', tol=1e-9)
            ctx.ev('positions')
    ctx.ok(isinstance(str(c), str) and len(c.__str__(1)) > 0, f'text ({what})')


def zkw(rng):
    return dict(Zbase=float(logu(rng, 5, 200))) if rng.random() < .7 else {}


def models(ctx, rng):
    fs = prog.freqs(rng)
    g = Gtl(ctx, rng, fs)
    kw = zkw(rng)
    if rng.random() < .3:
        kw['Id'] = 'my model'
    ctx.desc(text=g.text, variables=g.V.over, kw=kw)
    Zb = kw.get('Zbase', 50.)
    spec = g.spec(Zb)
    for f in fs + [45e6]:
        prog.Model(spec).check(f)
    c = g.load(**kw)
    if 'Id' in kw:
        ctx.ok(c.Id == kw['Id'], 'Id')
    ctx.ok(c.Zbase == Zb, 'reference impedance', got=c.Zbase, want=Zb)
    ctx.ev('models loaded')
    ctx.ev('overrides', len(g.V.over))
    ctx.ev('variables', len(g.V.val))
    compare(ctx, rng, g, c, spec, 'model file')
    if rng.random() < .4:
        # overriding = editing
        with contextlib.redirect_stdout(io.StringIO()):
            d = g.edited()(**kw)
        f = pick(rng, fs)
        ctx.close(np.asarray(d.getS(f)), np.asarray(c.getS(f)), 'S-matrix of the edited file', tol=1e-9)
        ctx.same(list(d.ports), list(c.ports), 'ports of the edited file')
        ctx.ev('edited files')
    x = copy.deepcopy(c) if rng.random() < .5 else c.copy()
    if rng.random() < .5:
        os.remove(g.path)
    # later changes, on the model and its copy independently
    hs = [hist.Hist(ctx, rng, fs, copy.deepcopy(spec), c), hist.Hist(ctx, rng, fs, copy.deepcopy(spec), x)]
    for h in hs:
        h.solved, h.same = True, 0.     # (values are known up to rounding of the units)
    for _ in range(int(rng.integers(0, 5))):
        h = pick(rng, hs)
        if rng.random() < .6:
            h.modify(['set', 'set', 'reterm', 'direct', 'replace', 'term', 'Portnames'])
            ctx.ev('later changes')
        else:
            h.query()
    for h in hs:
        h.final()
    if len(g.secs) > 1:
        ctx.nontrivial(*g.shape())


def within(ctx, rng):
    """as a block of a further circuit"""
    fs = prog.freqs(rng)
    g = Gtl(ctx, rng, fs, 4)
    kw, Zo = zkw(rng), float(logu(rng, 5, 200))
    sub = g.spec(kw.get('Zbase', 50.))
    for f in fs + [45e6]:
        prog.Model(sub).check(f)
    c = g.load(**kw)
    if rng.random() < .4:
        c = c.copy()
    o = ctx.rf.rfCircuit(Zbase=Zo)
    x0 = float(np.round(rng.uniform(-3, 3), 3))
    two = len(g.ext) >= 2 and rng.random() < .6
    ren = {p: f'r{k}' for k, p in enumerate(g.ext)} if rng.random() < .4 else None
    nm = lambda p: ren[p] if ren else p
    ops = [('add', 'G', sub, ren, x0, None)]
    e = elems.gen(rng, fs, pick(rng, ['trl', 'rlc', 'base']), nmax=2)
    ops.append(('add', 'E', e, [f'e{k}' for k in range(e['n'])], 0., None))
    p = pick(rng, g.ext)
    ops.append(('con', (f'G.{nm(p)}', 'E.e0') + (('T',) if rng.random() < .5 or len(g.ext) + e['n'] <= 2 else ())))
    if two:
        q = pick(rng, [q for q in g.ext if q != p])
        ops.append(('term', f'G.{nm(q)}', prog.gen_load(rng, 'passive', Zo)))
    spec = dict(kind='circ', Zbase=Zo, Portnames=None, Id=None, ops=ops)
    m = prog.Model(spec)
    if not m.free:
        raise Skip('no port left')
    ctx.desc(text=g.text, variables=g.V.over, kw=kw, program=prog.text(spec))
    o.addblock('G', c, **dict(dict(ports=dict(ren)) if ren else {}, relpos=x0))
    for op in ops[1:]:
        prog.do(ctx.rf, o, op)
    for f in fs:
        compS(ctx, o, m, f, what='circuit with a model')
        ctx.ev('S-matrices')
    E = excite(rng, m.order())
    comp_sol(ctx, o.Solution(fs[0], dict(E)), m.solution(fs[0], E), 'Solution of a circuit with a model')
    for p, x in m.allpos().items():
        ctx.close(float(o.getpos(p)), x, f'position of {p} in a circuit with a model', tol=1e-9)
        ctx.ev('positions')
    h = hist.Hist(ctx, rng, fs, spec, o)
    h.solved, h.same = True, 0.
    for _ in range(int(rng.integers(0, 3))):
        h.modify(['set', 'dotted', 'reterm', 'term'])
    h.final()
    ctx.ev('models within circuits')
    ctx.nontrivial(two, bool(ren), *g.shape())


def withdata(ctx, rng):
    """a model with touchstone data"""
    fs = prog.freqs(rng)
    g = Gtl(ctx, rng, fs, 4)
    kw = zkw(rng)
    Zb = kw.get('Zbase', 50.)
    spec = g.spec(Zb)
    m = prog.Model(spec)
    for f in fs + [45e6]:
        m.check(f)
    n = len(g.ext)
    tfs = sorted(fs) if len(fs) > 1 else [fs[0], fs[0] * 2]
    Zt = float(logu(rng, 5, 200))
    Ss = np.array([elems.rand_S(rng, n) for _ in tfs])
    rows = [f'# Hz S RI R {Zt!r}']
    for f, S in zip(tfs, Ss):
        v = (S.T if n == 2 else S)
        if n <= 2:
            rows.append(f'{f!r} ' + ' '.join(f'{x.real!r} {x.imag!r}' for x in v.ravel().tolist()))
        else:
            for k, r in enumerate(v.tolist()):
                it = [f'{x.real!r} {x.imag!r}' for x in r]
                parts = [' '.join(it[i:i + 4]) for i in range(0, len(it), 4)]
                rows += [(f'{f!r} ' if k == 0 and i == 0 else '   ') + p for i, p in enumerate(parts)]
    tn = f'data.s{n}p'
    sub = pick(rng, ['', 'd'])
    os.makedirs(os.path.join(ctx.scratch, sub), exist_ok=True)
    with open(os.path.join(ctx.scratch, sub, tn), 'w') as f:
        f.write('\n'.join(rows) + '\n')
    g.model[g.key]['sNp'] = os.path.join(sub, tn)
    g.text = repr(g.model)
    with open(g.path, 'w') as f:
        f.write(g.text)
    ctx.desc(text=g.text, variables=g.V.over, kw=kw, touchstone='\n'.join(rows))
    c = g.load(**kw)
    if rng.random() < .4:
        c = c.copy()
    ctx.same(list(c.ports), g.ext, 'ports of a model with data')
    log = []
    for _ in range(int(rng.integers(2, 7))):
        u, f = int(rng.integers(5)), pick(rng, fs)
        Z = float(logu(rng, 3, 300))
        k = tfs.index(f)
        at = lambda S, z: elems.AB_to_S(*elems.from_S(S, Zt), z)
        log.append(u)
        if u == 0:
            ctx.close(np.asarray(c.getS(f)), at(Ss[k], Zb), f'S-matrix from the data {log}', tol=1e-7)
        elif u == 1:
            ctx.close(np.asarray(c.getS(f, Zbase=Z)), at(Ss[k], Z), f'S-matrix from the data at an impedance {log}', tol=1e-7)
        elif u == 2:
            compS(ctx, c, m, f, what=f'S-matrix of the circuit {log}', S=np.asarray(c.getS(f, flags={'sNp': False})))
        elif u == 3:
            compS(ctx, c, m, f, Z, what=f'getSgtl {log}', S=np.asarray(c.getSgtl(f, Zbase=Z)))
        else:
            got = np.asarray(c.getS(tfs))
            for j in range(len(tfs)):
                ctx.close(got[j], at(Ss[j], Zb), f'S-matrices from the data {log}', tol=1e-7)
        ctx.ev('answers of models with data')
    ctx.nontrivial(n, log, *g.shape())


def refusals(ctx, rng):
    fs = prog.freqs(rng)
    g = Gtl(ctx, rng, fs, 4)
    k = int(rng.integers(9))
    mod, key = g.model, g.key
    m = mod[key]
    blk = pick(rng, list(m['GTL']))
    b = m['GTL'][blk]
    types = ValueError
    if k == 0:
        m['Portnames'] = m['Portnames'] + ['nowhere']
    elif k == 1:
        m['Portnames'] = m['Portnames'][:-1]
    elif k == 2:
        m['Portnames'] = m['Portnames'][:-1] + ['nowhere']
        m.pop('relpos', None)
    elif k == 3:
        m.setdefault('relpos', {})['nowhere'] = 1.
    elif k == 4:
        if not ('L' in b or 'length' in b):
            raise Skip('not a line')
        b['L'] = b['length'] = 1.
    elif k == 5:
        if not ('Z' in b or 'Z0TL' in b):
            raise Skip('no impedance')
        b['Z'] = b['Z0TL'] = 30.
    elif k == 6:
        b.pop('ports', None), b.pop('Portnames', None)
    elif k == 7:
        b['ports' if 'ports' in b else 'Portnames'] = ['A', 'B', 'C', 'D']
        types = (ValueError, TypeError, IndexError, KeyError)
    else:
        q = [x for x in b if x not in ('ports', 'Portnames')]
        b[pick(rng, q)] = 'undefined_variable*2'
        types = NameError
    g.text = repr(mod)
    with open(g.path, 'w') as f:
        f.write(g.text)
    ctx.desc(text=g.text, k=k)
    ctx.raises(lambda: g.load(), f'invalid model ({k})', types)
    ctx.ev('refusals')
    with contextlib.redirect_stdout(io.StringIO()):
        from pyRFtk.rfGTL import rfGTL
        ctx.raises(lambda: rfGTL(g.path, objkey='absent'), 'a model not in the file', KeyError)
    ctx.nontrivial(k, *g.shape())


SCENARIOS = [('models', models, 5), ('within', within, 2), ('withdata', withdata, 1), ('refusals', refusals, 1)]
MIN_EVENTS = {'models loaded': 200, 'overrides': 100, 'variables': 300, 'S-matrices': 500, 'positions': 1000, 'edited files': 50,
              'models within circuits': 60, 'answers of models with data': 100, 'refusals': 30, 'later changes': 100}
