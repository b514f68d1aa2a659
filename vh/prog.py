"""random build programs of circuits: generation, real execution, reference model

circuit spec: dict(kind='circ', Zbase, Portnames (or None), Id (or None), ops=[..])
  ('add', name, child spec, ports, relpos, params)   ports: None|list|dict|'%d'-pattern
  ('con', (port, ...))
  ('term', port, {} | {'Z':..} | {'Y':..} | {'RC':..})
"""
import zlib
import copy, itertools
import numpy as np
from .core import Skip
from . import elems, tsf
from .elems import pick, logu
from .net import Net


def eff(child, params):
    """the child as modified by the params given to addblock"""
    if not params:
        return child
    child = copy.deepcopy(child)
    if child['kind'] == 'circ':
        child['ops'] = [(op[0], op[1], eff(op[2], params.get(op[1])), *op[3:])
                        if op[0] == 'add' else op for op in child['ops']]
    else:
        child['kw'].update(params)
    return child


class Model:
    """what the circuit described by the spec means (no library code involved)"""
    def __init__(self, spec, upto=None):
        self.spec, self.Zbase = spec, spec['Zbase']
        self.net = Net()
        self.free = []         # free ports in natural order
        self.ports = {}        # every port ever: name -> (terminal, [terminals])
        self.pos = {}          # likewise -> position
        self.termd = {}
        self.subs = {}         # name -> Model of nested circuits
        self.blocks = {}       # name -> (child spec, block port names, relpos)
        self.nested = {}       # names of ports at deeper levels -> (terminal, terms)
        self.nestedpos = {}
        self.created = []
        for op in spec['ops'][:upto]:
            self.apply(op)

    def apply(self, op):
        getattr(self, '_' + op[0])(*op[1:])

    def _add(self, name, child, ports=None, relpos=0., params=None):
        child = eff(child, params)
        if child['kind'] == 'circ':
            sub = Model(child)
            self.subs[name] = sub
            o = self.net.absorb(sub.net, name)
            cports = sub.order()
            mp = lambda v: (v[0] + o, [t + o for t in v[1]])
            leads = [mp(sub.ports[p]) for p in cports]
            xs = [sub.pos[p] for p in cports]
            for src, dst, srcpos in ((sub.ports, self.nested, sub.pos),
                                     (sub.nested, self.nested, sub.nestedpos)):
                for p, v in src.items():
                    dst[f'{name}.{p}'] = mp(v)
                    self.nestedpos[f'{name}.{p}'] = relpos + srcpos[p]
        else:
            ts = self.net.leaf(name, child, self.Zbase)
            cports = elems.port_names(child)
            leads = [(t, [t]) for t in ts]
            xs = elems.port_xpos(child)
        n = len(leads)
        if ports is None:
            oports = cports if cports else [str(k) for k in range(1, n + 1)]
        elif isinstance(ports, dict):
            oports = [ports.get(p, p) for p in cports]
        elif isinstance(ports, str):
            oports = [ports % k for k in range(1, n + 1)]
        else:
            oports = list(ports)
        self.blocks[name] = (child, oports, relpos)
        for p, lead, x in zip(oports, leads, xs):
            q = f'{name}.{p}'
            self.ports[q] = lead
            self.pos[q] = relpos + x
            self.free.append(q)

    def _con(self, ports):
        new = [p for p in ports if p not in self.ports]
        old = [p for p in ports if p in self.ports]
        assert len(new) <= 1 and old and all(p in self.free for p in old), (new, old)
        self.net.join([self.ports[p][0] for p in old])
        for p in new:
            self.ports[p] = (self.ports[old[0]][0], sum([self.ports[q][1] for q in old], []))
            self.pos[p] = self.pos[old[0]]
            self.free.append(p)
            self.created.append(p)
        for p in old:
            self.free.remove(p)

    def _term(self, port, kw):
        if port in self.free:
            self.free.remove(port)
            self.termd[port] = self.ports[port][0]
        k, v = list(kw.items())[0] if kw else ('RC', 0.)
        self.net.closures[self.termd[port]] = ('load', k, v, self.Zbase)

    # -----------------------------------------------------------------------
    def order(self):
        return list(self.spec.get('Portnames') or self.free)

    def exts(self, order=None):
        return {p: self.ports[p] for p in (order or self.order())}

    def all(self):
        """name -> (terminal, terms) over all levels"""
        return dict(self.nested, **self.ports)

    def allpos(self):
        return dict(self.nestedpos, **self.pos)

    def ambiguous(self):
        """the same name stands for different nodes (of different levels)"""
        return any(s.ambiguous() for s in self.subs.values()) or \
            any(self.ports[p][0] != self.nested[p][0] for p in self.ports if p in self.nested)

    def check(self, f):
        """skip networks one of whose levels is ill-conditioned on its own"""
        for s in self.subs.values():
            s.check(f)
        self.net.solve(f, self.exts(), self.Zbase, np.eye(len(self.free)))

    def S(self, f, Zb=None, order=None):
        self.check(f)
        return self.net.S(f, self.exts(order), Zb or self.Zbase)

    def solution(self, f, E, Zb=None):
        """{node: (V, I, Vf, Vr)} on all levels for the excitation {port: a at Zb}"""
        Zb = Zb or self.Zbase
        self.check(f)
        a = np.array([[E[p] for p in self.order()]])
        V, I = self.net.solve(f, self.exts(), Zb, a)
        res = {}
        for p, (t, terms) in self.all().items():
            v, i = V[0, t], I[0, terms].sum()
            res[p] = (v, i, (v + Zb * i) / 2, (v - Zb * i) / 2)
        return res

    def raw(self, f, E, Zb=None):
        """terminal voltages and currents"""
        a = np.array([[E[p] for p in self.order()]])
        V, I = self.net.solve(f, self.exts(), Zb or self.Zbase, a)
        return V[0], I[0]


# ------------------------------------------------------------------- real objects
def build(rf, spec, env=None, upto=None, hook=None):
    env = {} if env is None else env
    key = spec.get('share')
    if key is not None and key in env:
        return env[key]
    if spec['kind'] != 'circ':
        obj = elems.make(rf, spec)
    else:
        kw = {}
        if spec.get('Portnames'):
            kw['Portnames'] = list(spec['Portnames'])
        if spec.get('Id'):
            kw['Id'] = spec['Id']
        if spec.get('sNp'):
            kw['sNp'] = spec['sNp']
        obj = rf.rfCircuit(Zbase=spec['Zbase'], **kw)
        for k, op in enumerate(spec['ops'][:upto]):
            do(rf, obj, op, env)
            if hook:
                hook(obj, k)
    if key is not None:
        env[key] = obj
    return obj


def do(rf, c, op, env=None):
    if op[0] == 'add':
        _, name, child, ports, relpos, params = op
        kw = {}
        if ports is not None:
            kw['ports'] = copy.deepcopy(ports)
        if relpos:
            kw['relpos'] = relpos
        if params:
            kw['params'] = copy.deepcopy(params)
        c.addblock(name, build(rf, child, env), **kw)
    elif op[0] == 'con':
        c.connect(*op[1])
    elif op[0] == 'term':
        c.terminate(op[1], **load_form(op[1], op[2]))


def load_form(port, kw):
    """some of the opens and shorts are passed as the other, infinite quantity"""
    for k, other in (('Y', 'Z'), ('Z', 'Y')):
        if list(kw) == [k] and not isinstance(kw[k], (str, np.ndarray)) and kw[k] == 0 and zlib.crc32(port.encode()) % 3 == 0:
            return {other: np.inf}
    return kw


def unshare(spec, tag=None):
    """a copied spec: what it shares, it only shares inside itself"""
    tag = next(SHARE) if tag is None else tag
    if spec.get('share') is not None:
        spec['share'] = f"{spec['share']}'{tag}"
    for o in spec.get('ops', []):
        if o[0] == 'add':
            unshare(o[2], tag)
    return spec


# ---------------------------------------------------------------- described by data
def with_data(rng, spec, fs, true=False, p=.5):
    """some of the circuits are also described by touchstone data (of the circuit itself, or of something else);
    -> the spec with ['sNp'] (text) and ['data'] (the equivalent element)"""
    new = dict(spec, ops=[(o[0], o[1], with_data(rng, o[2], fs, true, p), *o[3:])
                          if o[0] == 'add' and o[2]['kind'] == 'circ' else o for o in spec['ops']])
    new.pop('share', None)
    if rng.random() < p:
        m = Model(spec)
        n, Z = len(m.order()), float(logu(rng, 5, 200))
        fd = sorted(fs) if len(fs) > 1 else [fs[0], 2 * fs[0]]
        if true:
            try:
                Ss = np.array([m.S(f, Z) for f in fd])
            except Skip:
                return new
        else:
            Ss = np.array([elems.rand_S(rng, n) for _ in fd])
        new['sNp'] = tsf.write(rng, fd, Ss, dict(unit='HZ', type='S', fmt='RI', R=Z, crlf=False), n)
        if '\n' not in new['sNp']:
            new['sNp'] += '\n'
        new['data'] = dict(kind='base', n=n, fs=fd, Ss=Ss, kw=dict(Zbase=Z, ports=list(m.order())))
    return new


def by_data(spec):
    """what it means when the data are used"""
    if 'data' in spec:
        return spec['data']
    if spec['kind'] != 'circ':
        return spec
    return dict(spec, ops=[(o[0], o[1], by_data(o[2]), *o[3:]) if o[0] == 'add' else o for o in spec['ops']])


def without_data(spec):
    if spec['kind'] != 'circ':
        return spec
    return {k: [(o[0], o[1], without_data(o[2]), *o[3:]) if o[0] == 'add' else o for o in v] if k == 'ops' else v
            for k, v in spec.items() if k not in ('sNp', 'data')}


# ---------------------------------------------------------------------- generator
SHARE = itertools.count()
BLK = ['A', 'B', 'A1', 'TL', 'TL_2', 'blk 3', 'C', 'sub', 'subs', 'X', 'Y2', 'A11', 'T', 'Z9']
NEW = ['n', 'n1', 'in', 'T0', 'a', 'b', 'ext', 'N12', 'p_', 'q', '1', '2', 'out']


def gen_load(rng, cls, Zb):
    u = int(rng.integers(8))
    react = cls.startswith('lossless')
    z = 1j * logu(rng, 1, 500) * pick(rng, [1, -1])
    if not react:
        z = z * rng.random() + logu(rng, 1, 500)
    z = complex(z)
    if u == 0:
        return {'Z': 0}
    if u == 1:
        return {'Y': 0.}
    if u == 2:
        return {'Y': 1 / z}
    if u == 3:
        if react:
            return {'RC': complex(np.exp(1j * rng.uniform(0, 6.28)))}
        return {'RC': complex(rng.uniform(0, 1) * np.exp(1j * rng.uniform(0, 6.28)))}
    if u == 4 and not react:
        return {}
    if u == 5 and not react:
        return {'Z': float(Zb)}
    if u == 6:
        return {'RC': float(pick(rng, [1., -1.]))} if react or rng.random() < .5 else {'RC': 0.}
    return {'Z': z}


def gen_ports(rng, child, cports, n, nested):
    """a renaming form for addblock"""
    u = rng.random()
    if u < .45:
        return None
    if u < .6:
        return pick(rng, ['p%d', 'x%02d', 'port_%d'] + ['%d'] * (not nested))
    if u < .8 or cports is None:
        nm = elems.names(rng, n)
        if nested:      # do not collide with the names of nested nodes
            nm = [f'q{k}_{n}' for k in rng.permutation(n)]
        return nm
    if nested:
        sel = [p for p in cports if rng.random() < .6]
        return {p: f'r{k}' for k, p in enumerate(sel)}
    nm = [cports[k] for k in rng.permutation(n)] if rng.random() < .4 \
        else [f'{p}~{k}' for k, p in enumerate(cports)]
    d = dict(zip(cports, nm))
    if rng.random() < .4 and nm[0] not in cports:
        d.pop(cports[int(rng.integers(n))])
    return d


def gen_circuit(rng, freqs, depth=1, cls='passive', nblk=None, maxext=5, minext=1, kinds=None,
                share=.15, relpos=True, portnames=.3, force_nested=False, pterm=.15, _top=True):
    for _ in range(50):
        spec = _gen(rng, freqs, depth, cls, nblk, maxext, minext, kinds, share, relpos,
                    portnames, force_nested, pterm)
        if spec is not None:
            return spec
    raise Skip('no program generated')


def _gen(rng, freqs, depth, cls, nblk, maxext, minext, kinds, share, relpos, portnames, force_nested, pterm):
    spec = dict(kind='circ', Zbase=50. if rng.random() < .3 else float(np.round(logu(rng, 5, 300), 3)),
                Portnames=None, Id=None, ops=[])
    if rng.random() < .3:
        spec['Id'] = f'circ{int(rng.integers(1000))}'
    m = Model(spec)
    blk = [BLK[i] for i in rng.permutation(len(BLK))]
    new = [NEW[i] for i in rng.permutation(len(NEW))]
    nb = nblk or int(rng.integers(1, 5 if depth else 4))
    left, pool = nb, []

    def op(*o):
        spec['ops'].append(o)
        m.apply(o)

    def add():
        name = blk.pop()
        nested = depth > 0 and (rng.random() < .35 or (force_nested and left == nb))
        if pool and rng.random() < share:
            child = pick(rng, pool)
            nested = child['kind'] == 'circ'
        elif nested:
            child = gen_circuit(rng, freqs, depth - 1, cls, None, 3, 1, kinds, share, relpos,
                                portnames)
            child['share'] = f's{next(SHARE)}'
            pool.append(child)
        else:
            child = elems.gen(rng, freqs, pick(rng, kinds) if kinds else None, cls, xpos=relpos)
            if rng.random() < .3:
                child['share'] = f's{next(SHARE)}'
                pool.append(child)
        if nested:
            cports = Model(child).order()
            n = len(cports)
        else:
            cports, n = elems.port_names(child), child['n']
        x = float(np.round(rng.uniform(-5, 5), 3)) if relpos and rng.random() < .5 else 0.
        op('add', name, child, gen_ports(rng, child, cports, n, nested), x, None)

    def con():
        n = min(len(m.free), pick(rng, [1, 2, 2, 2, 2, 3, 3, 4, 5]))
        if n == 1 and rng.random() < .7:
            return
        if len(m.free) > 1 and rng.random() < .04:      # nothing but one port: it is left open
            op('con', (pick(rng, m.free),))
            return
        ports = [m.free[i] for i in rng.permutation(len(m.free))[:n]]
        if new and (rng.random() < .5 or n == 1):
            ports.insert(int(rng.integers(len(ports) + 1)), new.pop())
        op('con', tuple(ports))

    def term():
        op('term', pick(rng, m.free), gen_load(rng, cls, spec['Zbase']))

    add()
    left -= 1
    while left or rng.random() < .6 or len(m.free) > maxext:
        u = rng.random()
        if left and (u < .45 or not m.free):
            add()
            left -= 1
        elif not m.free:
            break
        elif u < 1 - pterm:
            con()
        elif len(m.free) > 1 or left:
            term()
    if not (minext <= len(m.free) <= maxext):
        return None
    if rng.random() < portnames:
        spec['Portnames'] = [m.free[i] for i in rng.permutation(len(m.free))]
    return spec


def size(spec):
    """(circuits, leaves, junctions, terminations, depth)"""
    c, l, j, t, d = 1, 0, 0, 0, 0
    for o in spec['ops']:
        if o[0] == 'add':
            if o[2]['kind'] == 'circ':
                r = size(o[2])
                c, l, j, t, d = c + r[0], l + r[1], j + r[2], t + r[3], max(d, r[4] + 1)
            else:
                l += 1
        elif o[0] == 'con':
            j += 1
        else:
            t += 1
    return c, l, j, t, d


def shape(spec):
    """structure without values: signature for counting distinct programs"""
    res = []
    for o in spec['ops']:
        if o[0] == 'add':
            ch = shape(o[2]) if o[2]['kind'] == 'circ' else (o[2]['kind'], tuple(sorted(o[2]['kw'])), o[2]['n'])
            res.append(('add', ch, type(o[3]).__name__, bool(o[4])))
        elif o[0] == 'con':
            res.append(('con', o[1]))
        else:
            res.append(('term', o[1], tuple(o[2])))
    return tuple(res), tuple(spec['Portnames'] or ())


def text(spec):
    """readable description"""
    res = [f"circuit Zbase={spec['Zbase']:g} Portnames={spec['Portnames']}"]
    if spec.get('sNp'):
        res.append(['data', spec['sNp']])
    for o in spec['ops']:
        if o[0] == 'add':
            ch = text(o[2]) if o[2]['kind'] == 'circ' else elems.describe(o[2])
            res.append(['addblock', o[1], ch, dict(ports=o[3], relpos=o[4], params=o[5])])
        else:
            res.append([{'con': 'connect', 'term': 'terminate'}[o[0]], *map(repr, o[1:])])
    return res


def observe(ctx, spec):
    c, l, j, t, d = size(spec)
    ctx.ev('circuits', c)
    ctx.ev('elements', l)
    ctx.ev('junctions', j)
    ctx.ev('terminations', t)
    ctx.ev(f'depth {d}')


def freqs(rng, n=None):
    n = n or int(rng.integers(1, 4))
    f0 = logu(rng, 1e6, 1e9)
    fs = [float(np.round(f0 * x)) for x in rng.uniform(.7, 1.4, n)]
    return sorted(set(fs)) if rng.random() < .7 else list(dict.fromkeys(fs))
