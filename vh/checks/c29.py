"""C29: descriptions and lookups show the present state"""
import copy, re
import numpy as np
from .. import prog, elems, line
from ..common import *
from ..hist import Hist, paths, newvalue
from ..elems import pick, logu
from ..core import Skip

RULE = ('at random points of the life of circuits (before and after answers, settings, terminations, replacements, announced '
        'orders, copies) and of elements, their texts are read back: ports and positions, blocks and the mapping of their ports, '
        'the values of the parameters, the list of equations - which is solved - and the last evaluation; all of it is '
        'compared with the reference model, as are the lists of and the lookups by block names; non-trivial: an evaluation '
        'was read back; distinct by structure and history')
ASSUMPTIONS = ASSUME + ['an evaluation that is shown is the last one and of the present definition',
                        'objects inside a circuit are modified through the circuit; positions are those at building time',
                        'the layout of the texts is the one of the pinned tree (numbers as printed there)']
QUICK, THOROUGH = 6000, 80000

CPLX = re.compile(r'([+-]?(?:\d+\.?\d*|\.\d+)(?:e[+-]\d+)?)\s*([+-](?:\d+\.?\d*|\.\d+)(?:e[+-]\d+)?)j')


def carray(lines):
    """a complex array as printed by numpy"""
    t = re.sub(r'\s+(?=[+-]?[\d.]+(?:e[+-]\d+)?j)', '', ' '.join(lines))
    v = [complex(float(a), float(b)) for a, b in CPLX.findall(t)]
    n = int(round(len(v)**.5))
    return np.array(v).reshape(n, n) if n * n == len(v) else None


def inner(lines, prefix):
    return [l[len(prefix):] for l in lines if l.startswith(prefix)]


class Text:
    """the text of a circuit, taken apart"""

    def __init__(self, ctx, text):
        ok = ctx.ok
        L = text.split('\n')
        m = re.match(r'(\w+) Id="(.*)" @ Zbase=([\d.]+) Ohm', L[0])
        ok(m, 'text of a circuit: heading', got=L[0])
        self.Id, self.Zbase = m[2], float(m[3])
        ok(L[1] == '| ports: [', 'text of a circuit: ports', got=L[1])
        e = L.index('| ]')
        self.ports = [l[3:] for l in L[2:e] if l[3:]]
        m = re.match(r'\+ (\d+) equations, (\d+) unknowns', L[e + 2])
        ok(m, 'text of a circuit: number of equations', got=L[e + 2])
        self.neqn, self.nunk = int(m[1]), int(m[2])
        self.eqns, self.open, self.blocks, self.evaluation = [], [], {}, None
        L = L[e + 3:]
        k = 0
        while k < len(L) and not L[k].startswith('+ '):
            m = re.match(r'\| +(\d+) (.*?) +\[ *(\d+)\] (E\?) (.*?) *$', L[k])
            if m:
                self.open.append((int(m[1]), m[2], m[5]))
            else:
                m = re.match(r'\| +(\d+) (.*?) +\[ *(\d+)\] (\S+) (.*)$', L[k])
                if m:
                    rest = m[5]
                    i = re.search(r' *\[ *\d+(\.\. *\d+)?\] ', rest)
                    name, rest = (rest[:i.start()], rest[i.start():]) if i else (rest, '')
                    co = {}
                    for a, _, vals in re.findall(r'\[ *(\d+)(\.\. *\d+)?\]((?: +[+-]\S+j)+)', rest):
                        for q, (x, y) in enumerate(re.findall(r'([+-][\d.]+|[+-]nan)([+-][\d.]+|[+-]nan)j', vals)):
                            co[int(a) + q] = complex(float(x), float(y))
                    self.eqns.append((int(m[1]), m[2], m[4], name, co))
            k += 1
        if k < len(L) and (m := re.match(r'\+ (\d+) Blocks:', L[k])):
            self.nblocks = int(m[1])
            k += 2
            cur = None
            while k < len(L) and not L[k].startswith('+ last evaluation') and L[k] != '^':
                if m := re.match(r'\|   ([^ |+^].*?) *: --> (.*) at \d+$', L[k]):
                    self.blocks[m[1]] = dict(same=m[2])
                    cur = None
                elif m := re.match(r'\|   ([^ |+^].*): $', L[k]):
                    cur = self.blocks[m[1]] = dict(ports=[], text=[])
                elif cur is not None and (m := re.match(r'\|   \|   (.*?) +(?:-> (.*?) +)?@ +([-+\d.]+)m$', L[k])) and not cur['text']:
                    cur['ports'].append((m[1], m[2], float(m[3])))
                elif cur is not None and L[k].strip() != '|   |':
                    cur['text'].append(L[k])
                k += 1
        if k < len(L) and (m := re.match(r'\+ last evaluation at ([\d_.e+-]+) Hz', L[k])):
            self.evaluation = float(m[1].replace('_', '')), carray(L[k + 1:])


def read(ctx, spec, c, moved, what, full=True):
    """the text of the circuit c, which is described by spec, against the model; returns whether an evaluation was shown"""
    m = prog.Model(spec)
    T = Text(ctx, c.__str__(9))
    ctx.ev('texts of circuits read')
    ctx.ok(T.ports == list(c.ports), f'{what}: ports', got=T.ports, want=c.ports)
    ctx.ok(sorted(T.ports) == sorted(m.free), f'{what}: ports of the definition', got=T.ports, want=m.free)
    if spec.get('Id'):
        ctx.ok(T.Id.split('(copy)')[0] == spec['Id'], f'{what}: Id', got=T.Id)
    ctx.ok(abs(T.Zbase - spec['Zbase']) <= .0051, f'{what}: reference impedance', got=T.Zbase, want=spec['Zbase'])
    # blocks
    names = [op[1] for op in spec['ops'] if op[0] == 'add']
    ctx.ok(sorted(T.blocks) == sorted(names) and T.nblocks == len(names), f'{what}: blocks', got=list(T.blocks), want=names)
    for n, b in T.blocks.items():
        child, oports, relpos = m.blocks[n]
        if 'same' in b:
            ctx.ok(b['same'] != n and c.object(n) is c.object(b['same']), f'{what}: {n} is said to be the same as {b["same"]}')
            ctx.ev('blocks said to be the same')
            continue
        ctx.ok([p for p, _, _ in b['ports']] == list(oports), f'{what}: ports of block {n}', got=b['ports'], want=oports)
        own = m.subs[n].order() if child['kind'] == 'circ' else elems.port_names(child)
        for k, (p, o, x) in enumerate(b['ports']):
            ctx.ok(o == (own[k] if own else None), f'{what}: port of the object behind {n}.{p}', got=o, want=own and own[k])
            if not moved:
                ctx.close(x, m.pos[f'{n}.{p}'] if child['kind'] != 'arr' else relpos, f'{what}: position of {n}.{p}', atol=6e-5)
        ctx.ev('ports of blocks read', len(oports))
        t = '\n'.join(b['text'])
        if child['kind'] == 'arr':
            ctx.close(carray(b['text']), child['S'], f'{what}: array {n}', atol=2e-8, tol=1e-7)
        elif child['kind'] == 'circ':
            for l in c.object(n).__str__(8).split('\n'):
                ctx.ok(l in t, f'{what}: the text of block {n} lacks', got=l, text=t)
        else:
            values(ctx, prog.eff(child, None), t, f'{what}: block {n}')
    # equations
    waves = {}
    for k, w, typ, name, co in T.eqns:
        waves[k] = w
    for k, w, name in T.open:
        waves[k] = w
    ctx.ok(len(T.eqns) == T.neqn and T.nunk == len(waves), f'{what}: numbers of equations and unknowns',
           got=(T.neqn, T.nunk), listed=(len(T.eqns), len(waves)))
    want = {d + p for p in m.ports for d in ('->', '<-')}
    ctx.ok(set(waves.values()) == want and len(waves) == len(want), f'{what}: unknowns', got=sorted(waves.values()), want=sorted(want))
    ctx.ok(T.nunk - T.neqn in (0, len(m.free)), f'{what}: number of equations', got=(T.neqn, T.nunk))
    index = {w: k for k, w in waves.items()}
    heads = [(t[0], n) for _, _, t, n, _ in T.eqns]
    ctx.ok(sorted(n for t, n in heads if t == 'S') == sorted(f'{n}.{p}' for n in names for p in m.blocks[n][1]),
           f'{what}: equations of the blocks', got=heads)
    ctx.ok({n for t, n in heads if t == 'T'} == set(m.termd), f'{what}: equations of the terminations', got=heads, want=list(m.termd))
    if T.neqn == T.nunk:
        ctx.ok({n for t, n in heads if t == 'E'} == set(m.free), f'{what}: equations of the external ports', got=heads, want=m.free)
    else:
        ctx.ok([n for _, _, n in T.open] == T.ports, f'{what}: open external ports', got=T.open, want=T.ports)
    loads = {}
    for op in spec['ops']:
        if op[0] == 'term':
            loads[op[1]] = op[2]
    for k, w, t, n, co in T.eqns:
        if t[0] == 'T':
            k_, v = list(loads[n].items())[0] if loads[n] else ('RC', 0.)
            Z = spec['Zbase']
            rho = {'Z': lambda: (v - Z) / (v + Z), 'Y': lambda: (1 - v * Z) / (1 + v * Z), 'RC': lambda: v}[k_]()
            a, b = co.get(index['->' + n], 0), co.get(index['<-' + n], 0)
            ctx.ok(a != 0 and set(co) <= {index['->' + n], index['<-' + n]}, f'{what}: termination of {n}', got=co)
            ctx.close(-b / a, rho, f'{what}: reflection of {n}', atol=1e-4 * (1 + abs(rho)))
            ctx.ev('terminations read')
    if T.evaluation is None:
        return False
    # the last evaluation
    f, S = T.evaluation
    f = min(m_freqs(spec) or [f], key=lambda x: abs(x - f))
    ctx.ok(abs(f - T.evaluation[0]) <= .051, f'{what}: frequency of the last evaluation', got=T.evaluation[0], want=f)
    if T.ports:
        o = m.order()
        ix = [o.index(p) for p in T.ports]
        ctx.ok(S is not None and len(S) == len(T.ports), f'{what}: size of the last evaluation', got=S)
        ctx.close(S, m.S(f)[np.ix_(ix, ix)], f'{what}: last evaluation', tol=1e-6, atol=1e-7)
        ctx.ev('evaluations read')
    # its equations
    for n in names:
        child, oports, _ = m.blocks[n]
        Sb = m.subs[n].S(f, spec['Zbase']) if child['kind'] == 'circ' else elems.AB_to_S(*elems.ref(child, f, spec['Zbase']), spec['Zbase'])
        for k, w, t, p, co in T.eqns:
            if t[0] == 'S' and p.split('.')[0] == n:
                j = oports.index(p.split('.', 1)[1])
                got = [co.get(index[f'->{n}.{q}'], np.nan) for q in oports]
                ctx.close(np.array(got), Sb[j], f'{what}: scattering equation of {p}', atol=1e-4, tol=1e-4)
                ctx.close(co.get(index['<-' + p], np.nan), -1., f'{what}: scattering equation of {p}', atol=1e-4)
                ctx.ev('equations of blocks read')
    if T.ports and T.neqn == T.nunk and not any(t[0] == 'D' for t, _ in heads):
        M = np.zeros((T.neqn, T.nunk), complex)
        B = np.zeros((T.neqn, len(T.ports)), complex)
        shown = np.zeros(M.shape)
        for r, (k, w, t, n, co) in enumerate(T.eqns):
            for q, v in co.items():
                M[r, q] = v
                shown[r, q] = 1.
            if t[0] == 'E':
                B[r, T.ports.index(n)] = 1.
        # the four digits that are printed determine the response to
        D = np.abs(np.linalg.pinv(M)) @ (shown * 7.2e-5)
        if np.linalg.norm(D, 2) < .05:
            X = np.linalg.solve(M, B)
            rows = [index['<-' + p] for p in T.ports]
            err = (1.2 * D @ np.abs(X))[rows] + 1e-6
            ctx.ok(np.all(np.abs(X[rows] - S) <= err), f'{what}: solution of the printed equations', got=X[rows], want=S, bound=err)
            ctx.ev('printed equations solved')
    return True


def m_freqs(spec):
    return spec.get('_fs')


def values(ctx, sp, t, what):
    """the parameters that are shown"""
    kw, k = sp['kw'], sp['kind']
    if k == 'rlc':
        for a, unit, scale, default in (('Rs', 'Ohm', 1., 0.), ('Ls', 'nH', 1e-9, 0.), ('Cs', 'pF', 1e-12, np.inf), ('Rp', 'Ohm', 1., np.inf),
                                        ('Lp', 'nH', 1e-9, np.inf), ('Cp', 'pF', 1e-12, 0.)):
            g = re.findall(rf'\b{a} = (\S+) {unit}', t)
            v = kw.get(a, default)
            if v == default:
                ctx.ok(not g, f'{what}: {a} is shown', got=g)
            else:
                ctx.ok(len(g) == 1, f'{what}: {a} is not shown', text=t)
                ctx.close(float(g[0]), v / scale, f'{what}: {a}', tol=6e-6)
                ctx.ev('values read')
    elif k == 'trl':
        g = re.findall(r'length: (\S+)m', t)
        ctx.close([float(x) for x in g], [kw['L']], f'{what}: length', atol=5.1e-4)
        g = re.findall(r'Zbase: (\S+) Ohm', t)
        ctx.ok(len(g) == 1 and float(g[0]) == kw.get('Zbase', 50.), f'{what}: Zbase of the line', got=g)
        g = re.findall(r'\| ports: (.*?) *$', t, re.M)
        ctx.ok(g == [repr(list(elems.port_names(sp)))], f'{what}: ports', got=g)
        g = re.findall(r'dx: (\d+) pts per wavelength', t) if isinstance(kw.get('dx', 72), int) else re.findall(r'dx: (\S+)m', t)
        ctx.ok(len(g) == 1 and abs(float(g[0]) - kw.get('dx', 72)) <= 5.1e-4, f'{what}: dx', got=g, want=kw.get('dx', 72))
        ctx.ok('constant TL parameters' in t and 'ODE' not in t, f'{what}: a uniform line', text=t)
        for a in ('Z0TL', 'LTL', 'CTL', 'rTL', 'gTL'):
            if a in kw:
                g = re.findall(rf'\b{a} +=.*\binput +.*= (\S+)', t)
                ctx.ok(len(g) == 1 and abs(float(g[0]) - kw[a]) <= 1e-9 * abs(kw[a]), f'{what}: {a}', got=g, want=kw[a], text=t)
                ctx.ev('values read')
        m = re.search(r'values at (\S+) MHz', t)
        f = float(m[1]) * 1e6
        if f > 1e3:
            gm, zc = elems.line_gz(kw, f)
            for a, v, tol in (('gamma', gm, 1e-2 / (f / 1e5)), ('Zc', zc, 1e-2 / (f / 1e5) + 1e-6)):
                g = re.findall(rf'\b{a} +=.*= (\S+)', t)
                ctx.ok(len(g) == 1, f'{what}: {a} is not shown', text=t)
                ctx.close(complex(g[0]), v, f'{what}: {a}', tol=tol)
                ctx.ev('values read')
    elif k == 'arc':
        g = re.findall(r'Larc = (\S+) \[nH\]', t)
        v = kw.get('Larc', np.inf)
        ctx.ok(len(g) == 1 and (float(g[0]) == v if np.isinf(v) else abs(float(g[0]) - v * 1e9) <= 1e-6 * v * 1e9), f'{what}: inductance', got=g, want=v)
        ctx.ev('values read')
    elif k == 'cpl':
        c = elems.coupling(kw)
        g = re.search(r'(\+?)kc= (\S+); (\+?)kcdB= +(\S+) dB;', t)
        ctx.ok(g, f'{what}: coupling is not shown', text=t)
        ctx.close(float(g[2]), c, f'{what}: coupling', atol=5.1e-5)
        ctx.close(abs(float(g[4])), abs(20 * np.log10(c)), f'{what}: coupling (dB)', atol=5.1e-3)
        ctx.ok((g[1] == '+') == ('kc' in kw) and (g[3] == '+') == ('kcdB' in kw), f'{what}: what was given', got=g[0])
        if 'f0Hz' in kw or 'Lc' in kw:
            g = re.search(r'(\+?)f0Hz= (\S+) Hz; (\+?)Lc= +(\S+) m', t)
            ctx.ok(g and (g[1] == '+') == ('f0Hz' in kw) and (g[3] == '+') == ('Lc' in kw), f'{what}: what was given', text=t)
            L = kw.get('Lc') or elems.C0 / 4 / kw['f0Hz']
            ctx.close(float(g[2].replace('_', '')), elems.C0 / 4 / L, f'{what}: frequency', atol=.06)
            ctx.close(float(g[4]), L, f'{what}: length', atol=5.1e-4)
        ctx.ev('values read')


def lookups(ctx, spec, c, what, f=None):
    """lists of blocks and access to them"""
    def tree(s, pre=''):
        r = []
        for op in s['ops']:
            if op[0] == 'add':
                r.append(pre + op[1])
                if op[2]['kind'] == 'circ':
                    r += tree(op[2], pre + op[1] + '.')
        return r
    want = tree(spec)
    got = c.listBlocks()
    ctx.ok(got == want, f'{what}: list of blocks', got=got, want=want)
    kids = dict(paths(spec))
    for p in want:
        o = c.object(p)
        ctx.ok(c.findObj(p) is o, f'{what}: findObj differs from object at {p}')
        k = kids[p]['kind']
        ctx.ok(type(o).__name__ == {'arr': 'ndarray', 'base': 'rfBase', 'obj': 'rfObject', 'rlc': 'rfRLC', 'trl': 'rfTRL', 'arc': 'rfArcObj',
                                    'cpl': 'rfCoupler', 'circ': 'rfCircuit'}[k], f'{what}: object at {p}', got=type(o).__name__, want=k)
        if k in ('rlc', 'trl', 'arc'):
            for a, v in kids[p]['kw'].items():
                if a in ('Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp', 'L', 'Larc'):
                    ctx.ok(getattr(o, a) == v, f'{what}: {a} of the object at {p}', got=getattr(o, a), want=v)
        ctx.ev('lookups')
    bad = [q for q in ('nothing', want[0] + '.nothing', want[-1] + 'x', want[-1] + '.a.b', 'x.' + want[0]) if q not in want]
    for q in bad:
        ctx.ok(c.findObj(q) is None, f'{what}: findObj finds {q}', got=c.findObj(q))
    ctx.ok(c.findObj('') is c, f'{what}: findObj of the circuit itself')


def name(rng, spec):
    """(equal) Ids for the objects"""
    for op in spec['ops']:
        if op[0] == 'add' and op[2]['kind'] != 'arr' and rng.random() < .6:
            d = op[2] if op[2]['kind'] == 'circ' else op[2]['kw']
            d['Id'] = pick(rng, ['X', 'Y', 'an object'])
            if op[2]['kind'] == 'circ':
                name(rng, op[2])


def circuit(ctx, rng, depth=1, share=0., **kw):
    fs = prog.freqs(rng)
    spec = prog.gen_circuit(rng, fs, depth=depth, share=share, maxext=4, **kw)
    if rng.random() < .5:
        spec['Id'] = pick(rng, ['top', 'a circuit', 'T"1'])
    if rng.random() < .4:
        name(rng, spec)
    prog.observe(ctx, spec)
    ctx.desc(program=prog.text(spec), freqs=fs)
    spec['_fs'] = fs
    h = Hist(ctx, rng, fs, spec)
    ctx._desc['log'] = h.log
    mods = ['set', 'set', 'reterm', 'term', 'replace', 'dotted', 'Portnames'] if not share else ['reterm', 'term', 'Portnames']
    moved, seen = False, 0
    read(ctx, spec, h.c, moved, 'text before the first answer') if rng.random() < .5 else 0
    for _ in range(int(rng.integers(2, 8))):
        u = rng.random()
        if u < .35:
            k = h.modify(mods)
            moved |= k in ('set', 'replace', 'dotted')
        elif u < .45 and not share:
            h.c = pick(rng, [h.c.copy, lambda: copy.deepcopy(h.c)])()
            h.log.append('copy')
        else:
            h.query(['S', 'S', 'Sz', 'Svec', 'sol', 'maxV', 'flags', 'internal'])
        if rng.random() < .6:
            try:
                prog.Model(spec).check(fs[0])
                seen += read(ctx, spec, h.c, moved, h.what('text'))
            except Skip:
                ctx.ev('undecided texts')
            subs = paths(spec, kinds=('circ',))
            if subs and not share and rng.random() < .4:
                p, sub = pick(rng, subs)
                sub = dict(sub, _fs=fs)
                try:
                    seen += read(ctx, sub, h.c.object(p), True, h.what(f'text of {p}'))
                except Skip:
                    ctx.ev('undecided texts')
        if rng.random() < .4:
            lookups(ctx, spec, h.c, h.what('lookup'))
    if seen:
        ctx.nontrivial(prog.shape(spec), [l.split()[0] for l in h.log])


def flat(ctx, rng):
    circuit(ctx, rng, 0)


def nested(ctx, rng):
    circuit(ctx, rng, 2, force_nested=True)


def shared(ctx, rng):
    circuit(ctx, rng, 1, share=.6, nblk=int(rng.integers(2, 5)))


def table(rng, o, sp):
    """modifies a table"""
    n, fs = len(sp['kw']['ports']), sp['fs']
    S = elems.rand_S(rng, n, 'passive')
    u = int(rng.integers(4))
    if u == 0:
        k = int(rng.integers(len(fs)))
        o[int(np.where(o.fs == fs[k])[0][0])] = (fs[k], S)
        sp['Ss'][k] = S
        return 'setitem'
    if u == 1:
        f = fs[0] * float(np.round(rng.uniform(1.01, 1.99), 3))
        if f in fs:
            return 'nothing'
        o.setS(f, S)
        sp['fs'] = list(fs) + [f]
        sp['Ss'] = np.array(list(sp['Ss']) + [S])
        return 'setS'
    if u == 2:
        z = float(np.round(logu(rng, 5, 200), 3))
        o.convert2newZbase(z)
        sp['Ss'] = np.array([elems.AB_to_S(*elems.from_S(S, sp['kw']['Zbase']), z) for S in sp['Ss']])
        sp['kw']['Zbase'] = z
        return 'convert2newZbase'
    p = [int(k) for k in rng.permutation(n)]
    o.sortports([sp['kw']['ports'][k] for k in p])
    x = elems.port_xpos(sp)
    sp['kw'].update(ports=[sp['kw']['ports'][k] for k in p])
    if 'xpos' in sp['kw']:
        sp['kw'].update(xpos=[x[k] for k in p])
    sp['Ss'] = sp['Ss'][:, p][:, :, p]
    return 'sortports'


def element(ctx, rng):
    fs = prog.freqs(rng, 3)
    sp = elems.gen(rng, fs, pick(rng, ['rlc', 'trl', 'arc', 'cpl', 'base', 'obj', 'rlc', 'trl']), 'passive')
    Id = pick(rng, ['E', 'an element', None])
    o = elems.make(ctx.rf, dict(sp, kw=dict(sp['kw'], Id=Id) if Id else sp['kw']))
    kind = sp['kind']
    log = []
    ctx.desc(element=elems.describe(sp), freqs=fs, log=log, Id=Id)
    asked = at = None
    Zo = sp['kw'].get('Zbase', 50.)
    for _ in range(int(rng.integers(2, 7))):
        u = rng.random()
        if u < .5:
            f = pick(rng, fs)
            z = None if rng.random() < .6 else float(logu(rng, 3, 300))
            q = f if rng.random() < .6 else [pick(rng, fs), f]
            if z:
                o.getS(q, Zbase=z)
            else:
                o.getS(q)
            asked, at = f, z
            log.append(f'getS {q} {z}')
        elif kind == 'obj' and u < .75:
            a = table(rng, o, sp)
            Zo, asked = sp['kw']['Zbase'], None
            log.append(a)
        elif u < .75 and kind in ('rlc', 'trl', 'arc'):
            a, v = newvalue(rng, sp, fs[0], .2)
            if sp['kw'].get(a) != v:
                asked = None
            sp['kw'][a] = v
            o.set(**{a: v})
            log.append(f'set {a}')
        elif u < .85:
            o = pick(rng, [o.copy, lambda: copy.copy(o)])()
            log.append('copy')
        what = f'text of {kind} after ' + '; '.join(log[-4:])
        t = o.__str__(1)
        ctx.ok(o.asstr(1) == t if hasattr(o, 'asstr') else True, f'{what}: asstr')
        ctx.ev('texts of elements read')
        if Id and kind != 'obj':
            ctx.ok(Id in t.split('\n')[0], f'{what}: Id', got=t.split('\n')[0])
        if kind in ('rlc', 'trl', 'arc', 'cpl'):
            values(ctx, sp, t, what)
        if kind == 'base' or kind == 'cpl':
            g = re.findall(r"\| +'(.*?)' +@ +(\S+)m", t)
            ctx.same([p for p, _ in g], list(elems.port_names(sp)), f'{what}: ports')
            ctx.close([float(x) for _, x in g], elems.port_xpos(sp), f'{what}: positions', atol=5.1e-4)
        if kind == 'base':
            g = re.search(r'\| (\d+) frequencies from (\S+) to +(\S+) Hz', t)
            ctx.ok(g and int(g[1]) == len(sp['fs']) and float(g[2]) == min(sp['fs']) and float(g[3]) == max(sp['fs']), f'{what}: frequencies', text=t)
        if kind == 'obj':
            g = re.search(r'# (\d+) frequencies', t)
            ctx.ok(g and int(g[1]) == len(sp['fs']), f'{what}: frequencies', text=t)
            g = re.search(r'Portnames=\[(.*?)\n *\]', t, re.S)
            ctx.same(re.findall(r"'(.*?)',", g[1]), list(elems.port_names(sp)), f'{what}: ports')
            g = re.findall(r'^  Zbase = (\S+?),?(?: \[default\])?$', t, re.M)
            ctx.ok(len(g) == 1 and float(g[0]) == Zo, f'{what}: reference impedance', text=t, want=Zo)
            for a, v in (('ports', elems.port_names(sp)), ('xpos', elems.port_xpos(sp))):
                g = re.findall(rf'^  {a} = (.*?),?$', t, re.M)
                if g:
                    ctx.ok(g == [repr(list(v))], f'{what}: {a}', got=g, want=v)
                    ctx.ev('values read')
        g = re.search(r'last evaluation (?:at|@) *([\d_.e+-]+) ?Hz', t)
        if kind in ('rlc', 'arc'):
            continue
        # (an evaluation shown is of the present definition)
        if g and asked is None:
            ctx.fail(f'{what}: an evaluation is shown', text=t)
        if g and kind in ('trl', 'cpl', 'obj'):
            ctx.ok(abs(float(g[1].replace('_', '')) - asked) < .06, f'{what}: frequency of the last evaluation', got=g[0], want=asked)
            S = carray(t[g.end():].split('\n'))
            z = at if at and kind == 'obj' else Zo           # (tables show the answer)
            w = elems.AB_to_S(*elems.ref(sp, asked, z), z)
            ctx.ok(S is not None and S.shape == w.shape, f'{what}: size of the last evaluation', text=t)
            ctx.close(S, w, f'{what}: last evaluation', tol=1e-6, atol=1e-7)
            ctx.ev('evaluations read')
        elif g and kind == 'base':
            rows = [l for l in t[g.end():].split('\n') if '\u00b0' in l or re.match(r'\| +0 ', l)]
            w = elems.AB_to_S(*elems.ref(sp, asked, Zo), Zo)
            v = [(float(a), float(b)) for l in rows for a, b in re.findall(r'([\d.]+) +([+-][\d.]+)\u00b0', l)]
            if len(v) == w.size:
                got = np.array([a * np.exp(1j * np.pi / 180 * b) for a, b in v]).reshape(w.shape)
                ctx.close(got, w, f'{what}: last evaluation', atol=2e-3)
                ctx.ev('evaluations read')
        if asked is not None:
            ctx.ok(g, f'{what}: the last evaluation is not shown', text=t)
    ctx.nontrivial(kind, sorted(sp['kw']), [l.split()[0] for l in log])


def gtl(ctx, rng):
    from .c26 import Gtl
    fs = prog.freqs(rng)
    g = Gtl(ctx, rng, fs)
    kw = dict(Zbase=float(np.round(logu(rng, 5, 200), 3))) if rng.random() < .6 else {}
    ctx.desc(text=g.text, variables=g.V.over, kw=kw)
    Zb = kw.get('Zbase', 50.)
    for f in fs:
        prog.Model(g.spec(Zb)).check(f)
    c = g.load(**kw)
    asked = None
    for what in ('text of a model file', 'text of a model file after an answer', 'text after a second answer'):
        depth = pick(rng, [1, 9])
        t = c.__str__(depth)
        L = t.split('\n')
        ctx.ev('texts of model files read')
        ctx.ok(f'Portnames          : {", ".join(g.ext)}' in t, f'{what}: ports', text=t)
        k = next(k for k, l in enumerate(L) if 'Portnames   ' in l) + 1
        rows = [re.match(r'\|   (.*?) *: (\S+)m$', l) for l in L[k:k + len(g.ext)]]
        ctx.ok(all(rows), f'{what}: positions', text=t)
        ctx.same({m[1]: True for m in rows}, {p: True for p in g.ext}, f'{what}: ports')
        for m in rows:
            ctx.close(float(m[2]), g.nodes[m[1]], f'{what}: position of {m[1]}', atol=6e-5)
        z = re.search(r'Zbase +: (\S+) Ohm', t)
        ctx.close(float(z[1]), Zb, f'{what}: reference impedance', atol=6e-4)
        for key, want in (('global', {**g.V.glo, **g.V.over}), ('local', g.V.loc)):
            k = [k for k, l in enumerate(L) if re.match(rf'\|  {key} variables +:', l)]
            ctx.ok(len(k) == (1 if want else 0), f'{what}: {key} variables', text=t, want=want)
            rows = {}
            for l in L[k[0] + 1:] if k else []:
                if not l.startswith('|  |  '):
                    break
                rows[l[6:].split(' :')[0].strip()] = l.split(' : ', 1)[1].split('->')[0].strip()
            ctx.same(sorted(rows.items()), sorted((n, str(v)) for n, v in want.items()), f'{what}: {key} variables')
        if '|  local variables' in t:
            k = next(k for k, l in enumerate(L) if l.startswith('|  local variables')) + 1
            while L[k].startswith('|  |  '):
                name = L[k][6:].split()[0]
                v = g.V.val.get(name)
                ctx.ok(name in g.V.val, f'{what}: variable {name}', text=t)
                last = L[k].split(':', 1)[1].split('->')[-1].strip()
                try:
                    last = float(last)
                except ValueError:
                    last = None            # an expression of the other ones
                if last is not None:
                    ctx.close(last, v, f'{what}: value of variable {name}', tol=1e-9)
                    ctx.ev('variables read')
                k += 1
        e = re.search(r'^\|  \+ last evaluation at ([\d_.e+-]+) Hz', t, re.M)
        ctx.ok(e or asked is None or depth == 1, f'{what}: last evaluation', text=t)
        if e:
            if asked is None:              # (one was made when the model was loaded)
                asked = float(e[1].replace('_', ''))
            ctx.ok(abs(float(e[1].replace('_', '')) - asked) < .06, f'{what}: frequency of the last evaluation', got=e[0], want=asked)
            rows = []
            for l in t[e.end():].split('\n')[1:]:
                l = re.sub(r'^\|  ', '', l)
                if not l.startswith('|'):
                    break
                rows.append(l)
            S = carray(rows)
            ctx.ok(S is not None and len(S) == len(c.ports), f'{what}: size of the last evaluation', text=t)
            m = prog.Model(g.spec(Zb))
            ix = [m.order().index(p) for p in c.ports]
            ctx.close(S, m.S(asked)[np.ix_(ix, ix)], f'{what}: last evaluation', tol=1e-6, atol=1e-7)
            ctx.ev('evaluations read')
        asked = pick(rng, fs)
        if rng.random() < .5:
            c.getS(asked)
        else:
            c.getS([pick(rng, fs), asked], Zbase=33.)
    ctx.nontrivial(g.shape())


def nonuniform(ctx, rng):
    """lines that need not be uniform"""
    fs = prog.freqs(rng, 3)
    ln = line.gen(rng, fs[0], True)
    kw = {k: p.arg for k, p in ln.P.items()}
    if rng.random() < .4:
        kw['dx'] = pick(rng, [100, 31, .05, .125, 1.])
    Zb = float(np.round(logu(rng, 5, 200), 3))
    o = ctx.rf.rfTRL(L=ln.L, ports=['a', 'b'], Zbase=Zb, **kw)
    ctx.desc(line=ln.text(), kw={k: v for k, v in kw.items() if k == 'dx'}, freqs=fs)
    asked = None
    for k in range(3):
        full = bool(rng.random() < .7)
        t = pick(rng, [lambda: o.__str__(full), lambda: o.asstr(full)])()
        what = f'text of a line ({k} answers)'
        ctx.ev('texts of lines read')
        g = re.findall(r'length: (\S+)m', t)
        ctx.close([float(x) for x in g], [ln.L], f'{what}: length', atol=5.1e-4)
        ctx.ok(f'| Zbase: {Zb} Ohm' in t and "| ports: ['a', 'b']" in t, f'{what}: Zbase and ports', text=t)
        v = kw.get('dx', 72)
        g = re.findall(r'dx: (\d+) pts per wavelength' if isinstance(v, int) else r'dx: (\S+)m', t)
        ctx.ok(len(g) == 1 and abs(float(g[0]) - v) < 5.1e-4, f'{what}: dx', got=g, want=v)
        ctx.ok(('constant TL parameters' in t) == bool(o.constant) and ('ODE integration' in t) == (not o.constant), f'{what}: kind', text=t)
        f = float(re.search(r'values at (\S+) MHz', t)[1]) * 1e6
        if asked is not None:
            ctx.ok(abs(f - asked) <= 501., f'{what}: frequency of the values', got=f, want=asked)
            f = asked
        for a, p in ln.P.items():
            g = re.findall(rf'^\| {a} +=.*\binput? +.*= (\S+) *$' if full else rf'^\| {a} +=.* = (\S+) *$', t, re.M)
            ctx.ok(len(g) == 1, f'{what}: {a} is not shown', text=t)
            ctx.close(complex(g[0]), ln.v(a, 2 * np.pi * f, 0.), f'{what}: {a} at the beginning', tol=1e-6)
            ctx.ev('values of lines read')
        e = re.search(r'last evaluation at ([\d_.e+-]+) Hz', t)
        ctx.ok(bool(e) == (asked is not None), f'{what}: last evaluation', text=t)
        if e:
            ctx.ok(abs(float(e[1].replace('_', '')) - asked) < .06, f'{what}: frequency of the last evaluation', got=e[0], want=asked)
            S = carray(t[e.end():].split('\n'))
            ctx.close(S, np.asarray(o.getS(asked)), f'{what}: last evaluation', tol=1e-6, atol=1e-7)
            ctx.ev('evaluations of lines read')
        asked = pick(rng, fs)
        o.getS(asked) if rng.random() < .6 else o.getS([pick(rng, fs), asked])
    ctx.nontrivial(sorted(kw), bool(o.constant), ln.text())


def empty(ctx, rng):
    """objects without ports, and what becomes of them"""
    rf, Id, Zb = ctx.rf, pick(rng, ['e', 'an empty one']), float(np.round(logu(rng, 5, 200), 2))
    for o in (rf.rfBase(Id=Id, Zbase=Zb), rf.rfCircuit(Id=Id, Zbase=Zb)):
        k = type(o).__name__
        t = o.__str__(1)
        h = re.match(r'(\w+) Id="(.*)" @ Zbase=([\d.]+) Ohm', t)
        ctx.ok(h and h[1] == k and h[2] == Id and abs(float(h[3]) - Zb) < .0051, f'heading of an empty {k}', got=t)
        ctx.ok('<empty>' in t and 'last evaluation' not in t and 'frequencies' not in t, f'text of an empty {k}', got=t)
        ctx.ok(len(o) == 0 and list(o.ports) == [], f'size of an empty {k}')
        if k == 'rfCircuit':
            ctx.ok(re.search(r'^\+ 0 equations, 0 unknowns', t, re.M), f'equations of an empty {k}', got=t)
            ctx.ok(o.listBlocks() == [] and o.findObj('x') is None, 'blocks of an empty circuit')
            sp = elems.gen(rng, prog.freqs(rng), pick(rng, ['base', 'rlc', 'trl']), 'passive')
            o.addblock('A', elems.make(rf, sp), ports=[f'q{i}' for i in range(sp['n'])])
            t = o.__str__(1)
            T = Text(ctx, t)
            ctx.ok(T.ports == [f'A.q{i}' for i in range(sp['n'])] and T.neqn == sp['n'] and T.nunk == 2 * sp['n'] and '<empty>' not in t.split('\n'),
                   'text after the first block', got=t)
        ctx.ev('empty objects')
    ctx.nontrivial(Id, Zb)


SCENARIOS = [('nonuniform', nonuniform, 1), ('empty', empty, .2), ('flat', flat, 3), ('nested', nested, 3), ('shared', shared, 1), ('element', element, 3), ('gtl', gtl, 1)]
MIN_EVENTS = {'texts of circuits read': 1000, 'evaluations read': 300, 'printed equations solved': 200, 'values read': 1000, 'lookups': 1000,
              'values of lines read': 300, 'evaluations of lines read': 100, 'empty objects': 50}
