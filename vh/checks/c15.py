"""C15: all ways to set a nested parameter are equivalent and all-or-nothing"""
import copy
import numpy as np
from .. import prog, elems
from ..common import *
from ..hist import Hist, settables, paths, newvalue, present, set_forms, as_kwargs, fresh, DEFAULT
from ..elems import pick, logu
from ..core import Skip

RULE = ('random nested circuits; one or several parameters at any depth are set with every documented call form (each on its own '
        'freshly built, partly already queried, circuit), requests mix forms, repeat objects, and contain unknown blocks, attributes '
        'or malformed arguments at any place; the answers are compared with the model of the circuit with these values and with the '
        'circuit built with them; non-trivial: at least one parameter changed or request refused')
ASSUMPTIONS = ASSUME + ['settable attributes are the ones an element declares (rfRLC: all, rfTRL: L, rfArcObj: Larc)',
                        'a parameter set twice in one request has the last value']
QUICK, THOROUGH = 6000, 40000


def gen(ctx, rng, depth=None, share=0.):
    fs = prog.freqs(rng)
    for _ in range(30):
        spec = prog.gen_circuit(rng, fs, depth=pick(rng, [1, 2, 2, 3]) if depth is None else depth, share=share, maxext=4,
                                kinds=['rlc', 'rlc', 'trl', 'arc', 'arr', 'cpl', 'base'], relpos=False)
        if settables(spec):
            break
    else:
        raise Skip('nothing to set')
    for f in fs:
        prog.Model(spec).check(f)
    prog.observe(ctx, spec)
    ctx.desc(program=prog.text(spec), freqs=fs)
    return fs, spec


def leafof(spec, path):
    return dict(settables(spec))[path]


def state(spec, c):
    """values of all settable attributes on the real circuit"""
    return [(p, a, getattr(c.object(p), a)) for p, leaf in settables(spec)
            for a in {'rlc': list(DEFAULT)[:6], 'trl': ['L'], 'arc': ['Larc']}[leaf['kind']]]


def wanted(spec):
    return [(p, a, present(leaf, a)) for p, leaf in settables(spec)
            for a in {'rlc': list(DEFAULT)[:6], 'trl': ['L'], 'arc': ['Larc']}[leaf['kind']]]


def judge(ctx, rng, c, spec, fs, what):
    m = prog.Model(spec)
    f = pick(rng, fs)
    compS(ctx, c, m, f, None if rng.random() < .6 else float(logu(rng, 3, 300)), what=f'{what}: S-matrix')
    ctx.same(state(spec, c), wanted(spec), f'{what}: values in the elements')
    if rng.random() < .3:
        E = excite(rng, m.order())
        comp_sol(ctx, c.Solution(f, E), m.solution(f, E), f'{what}: solution')


def warm(ctx, rng, c, fs):
    """the circuit may have been used before"""
    if rng.random() < .5:
        c.getS(pick(rng, fs))
        ctx.ev('used before')


def forms(ctx, rng):
    fs, spec = gen(ctx, rng)
    path, leaf = pick(rng, settables(spec))
    sets = dict(newvalue(rng, leaf, fs[0], same=.2) for _ in range(int(rng.integers(1, 4))))
    if rng.random() < .1:
        sets = {a: present(leaf, a) for a in sets}
    changed = any(present(leaf, a) != v for a, v in sets.items())
    new = copy.deepcopy(spec)
    leafof(new, path)['kw'].update(sets)
    ctx.desc(path=path, sets=sets)
    for f in fs:
        prog.Model(new).check(f)
    fl = set_forms(path, sets)
    nested = as_kwargs(path, dict(sets))
    fl += [('getS(params=)', None), ('object.set', lambda c: c.object(path).set(**sets))]
    for k in rng.permutation(len(fl))[:6]:
        name, fun = fl[k]
        c = prog.build(ctx.rf, spec)
        warm(ctx, rng, c, fs)
        before = state(spec, c)
        if fun is None:
            r = changed
            arg = copy.deepcopy(nested)
            S = c.getS(fs[0], params=arg)
            compS(ctx, c, prog.Model(new), fs[0], S=S, what=f'{name} {path} {sets}')
            ctx.same(arg, nested, 'argument modified')
        else:
            r = fun(c)
        ctx.ok(bool(r) == changed, f'{name}: return value', got=r, want=changed, sets=sets, before=before)
        judge(ctx, rng, c, new, fs, f'{name} {path} {sets}')
        ctx.ev('form ' + name)
        # and again: nothing changes any more
        if fun is not None:
            r = fun(c)
            ctx.ok(not r, f'{name}: return value when repeated', got=r)
            judge(ctx, rng, c, new, fs, f'{name} {path} {sets} repeated')
    if changed:
        ctx.nontrivial(prog.shape(spec), path, sorted(sets))


def atbuild(ctx, rng):
    """params of addblock: as building the block with those values"""
    fs, spec = gen(ctx, rng)
    tops = {}
    for path, leaf in settables(spec):
        tops.setdefault(path.split('.')[0], []).append((path, leaf))
    name = pick(rng, list(tops))
    path, leaf = pick(rng, tops[name])
    a, v = newvalue(rng, leaf, fs[0])
    new = copy.deepcopy(spec)
    leafof(new, path)['kw'][a] = v
    params = as_kwargs(path, {a: v})[name]
    k = [i for i, op in enumerate(spec['ops']) if op[0] == 'add' and op[1] == name][0]
    given = copy.deepcopy(spec)
    given['ops'][k] = (*spec['ops'][k][:5], copy.deepcopy(params))
    c = prog.build(ctx.rf, given)
    ctx.desc(path=path, params=params)
    m = prog.Model(new)
    for f in fs:
        compS(ctx, c, m, f, what=f'addblock(params={params})')
    ctx.ev('params at building')
    ctx.nontrivial(prog.shape(spec), path, a)


def mixed(ctx, rng):
    """one request for several parameters in mixed forms"""
    fs, spec = gen(ctx, rng)
    leaves = settables(spec)
    args, kwargs, log = [], {}, []
    new = copy.deepcopy(spec)
    old = copy.deepcopy(spec)
    touched = {}
    for _ in range(int(rng.integers(2, 6))):
        path, leaf = pick(rng, leaves)
        a, v = newvalue(rng, leaf, fs[0])
        if (path, a) in touched:
            continue
        touched[path, a] = v
        u = int(rng.integers(6))
        if u == 0:
            args.append({f'{path}.{a}': v})
        elif u == 1:
            args.append((f'{path}.{a}', v))
        elif u == 2:
            args += [f'{path}.{a}', v]
        elif u == 3:
            args.append((path, {a: v}))
        elif u == 4:
            args.append(as_kwargs(path, {a: v}))
        else:
            kw = as_kwargs(path, {a: v})
            if set(kw) & set(kwargs):
                args.append(kw)
            else:
                kwargs.update(kw)
        ctx.ev('settings in mixed requests')
        leafof(new, path)['kw'][a] = v
    changed = any(present(leafof(old, p), a) != v for (p, a), v in touched.items())
    ctx.desc(args=repr(args), kwargs=repr(kwargs))
    c = prog.build(ctx.rf, spec)
    warm(ctx, rng, c, fs)
    keep = copy.deepcopy((args, kwargs))
    r = c.set(*args, **kwargs)
    ctx.ok(bool(r) == changed, 'return value of a mixed request', got=r, want=changed)
    ctx.same((args, kwargs), keep, 'arguments modified')
    judge(ctx, rng, c, new, fs, f'set(*{args}, **{kwargs})')
    ctx.nontrivial(prog.shape(spec), len(args), sorted(kwargs), sorted(map(repr, touched)))


def bad(rng, spec):
    """a request that has to be refused: (name, args, kwargs)"""
    allp = [(p, ch) for p, ch in paths(spec)]
    path, ch = pick(rng, allp)
    up = path.rpartition('.')[0]
    leaf = ch['kind'] != 'circ'
    r = [('unknown block', [(f'{up}.' if up else '') + 'NOSUCH.Ls', 1.], {}),
         ('unknown block (dict)', [as_kwargs((f'{up}.' if up else '') + 'NOSUCH', {'Ls': 1.})], {}),
         ('unknown attribute', [f'{path}.NOSUCH', 1.], {}),
         ('unknown attribute (dict)', [as_kwargs(path, {'NOSUCH': 1.})], {}),
         ('unknown attribute (keyword)', [], as_kwargs(path, {'nosuch': 1.})),
         ('address without attribute', [path.split('.')[0], 1.], {}),
         ('number as address', [{3: {'Ls': 1.}}], {}),
         ('path without value', [path], {}),
         ('number', [3.], {}),
         ('triple', [(path, 'Ls', 1.)], {})]
    if leaf:
        r += [('block in an element', [f'{path}.sub.Ls', 1.], {}), ('block in an element (dict)', [as_kwargs(path + '.sub', {'Ls': 1.})], {})]
    if ch['kind'] in ('arr', 'base', 'cpl'):
        r += [('nothing to set', [f'{path}.Ls', 1e-9], {})]
    return pick(rng, r)


def refused(ctx, rng):
    fs, spec = gen(ctx, rng)
    c = prog.build(ctx.rf, spec)
    ctx._desc['log'] = log = []
    kinds = []
    for _ in range(int(rng.integers(1, 4))):
        warm(ctx, rng, c, fs)
        name, args, kwargs = bad(rng, spec)
        # valid settings before and after the bad one
        pre, post = [], []
        for _ in range(int(rng.integers(0, 3))):
            path, leaf = pick(rng, settables(spec))
            a, v = newvalue(rng, leaf, fs[0], same=0)
            (pre if rng.random() < .7 else post).append(
                pick(rng, [(f'{path}.{a}', v), {f'{path}.{a}': v}, (path, {a: v}), as_kwargs(path, {a: v})]))
        if name == 'path without value':
            post = []
        # a bad one besides good ones within the same dict
        if rng.random() < .3 and name == 'unknown attribute (dict)':
            path, leaf = pick(rng, settables(spec))
            a, v = newvalue(rng, leaf, fs[0], same=0)
            d = {a: v, 'NOSUCH': 1} if rng.random() < .5 else {'NOSUCH': 1, a: v}
            args = [(path, d)]
        log.append((name, repr(pre), repr(args), repr(kwargs), repr(post)))
        before = state(spec, c)
        ctx.raises(lambda: c.set(*pre, *args, *post, **kwargs), f'set({pre} {args} {post} {kwargs}) [{name}]',
                   (ValueError, KeyError, TypeError, AttributeError))
        ctx.same(state(spec, c), before, f'values after a refused request ({name})', request=log[-1])
        ctx.ev('refused: ' + name)
        kinds.append((name, len(pre)))
        judge(ctx, rng, c, spec, fs, f'after the refused request {log[-1]}')
    # the circuit can be set as before
    path, leaf = pick(rng, settables(spec))
    a, v = newvalue(rng, leaf, fs[0])
    ch = present(leaf, a) != v
    r = c.set(f'{path}.{a}', v)
    ctx.ok(bool(r) == ch, 'return value after refused requests', got=r)
    leaf['kw'][a] = v
    prog.Model(spec).check(fs[0])
    judge(ctx, rng, c, spec, fs, 'set after refused requests')
    ctx.nontrivial(prog.shape(spec), kinds)


def badparams(ctx, rng):
    """params with unknown attributes are refused by getS and leave no trace"""
    fs, spec = gen(ctx, rng)
    c = prog.build(ctx.rf, spec)
    warm(ctx, rng, c, fs)
    path, leaf = pick(rng, settables(spec))
    a, v = newvalue(rng, leaf, fs[0], same=0)
    before = state(spec, c)
    p = as_kwargs(path, {a: v, 'NOSUCH': 1.})
    ctx.desc(params=p)
    ctx.raises(lambda: c.getS(fs[0], params=p), 'getS with unknown parameters', (ValueError, KeyError, TypeError, AttributeError))
    ctx.same(state(spec, c), before, 'values after refused params')
    judge(ctx, rng, c, spec, fs, 'after refused params')
    ctx.nontrivial(prog.shape(spec), path, a)


def shared(ctx, rng):
    """one object in several places is reached through each of them"""
    fs, spec = gen(ctx, rng, depth=pick(rng, [0, 1]), share=.7)
    path, leaf = pick(rng, settables(spec))
    sets = dict(newvalue(rng, leaf, fs[0], same=0) for _ in range(2))
    c = prog.build(ctx.rf, spec)
    warm(ctx, rng, c, fs)
    name, fun = pick(rng, set_forms(path, sets))
    fun(c)
    leaf['kw'].update(sets)              # (the specs are shared likewise)
    judge(ctx, rng, c, spec, fs, f'{name} {path} {sets} of a shared object')
    n = sum(l is leaf for _, l in settables(spec))
    ctx.ev('places of shared objects', n)
    if n > 1:
        ctx.nontrivial(prog.shape(spec), path)


def places(ctx, rng):
    """one object in several places, each with its own params; used, set and replaced afterwards"""
    fs = prog.freqs(rng)
    if rng.random() < .5:
        base = prog.gen_circuit(rng, fs, depth=pick(rng, [0, 0, 1]), share=0, maxext=3, relpos=True, kinds=['rlc', 'rlc', 'trl', 'arc', 'arr'])
        lv, ports = settables(base), prog.Model(base).order()
    else:
        base = elems.gen(rng, fs, pick(rng, ['rlc', 'trl', 'arc']))
        lv, ports = [('', base)], elems.port_names(base)
    if not lv:
        raise Skip('nothing to set')
    base['share'] = 'the object'
    spec = dict(kind='circ', Zbase=float(logu(rng, 5, 200)), Portnames=None, Id=None, ops=[])
    nplc = int(rng.integers(2, 5))
    free = []
    for k in range(nplc):
        p = {}
        if rng.random() < .75:
            for path, leaf in [lv[int(i)] for i in rng.integers(len(lv), size=int(rng.integers(1, 3)))]:
                a, v = newvalue(rng, leaf, fs[0], same=.05)
                d = p
                for n in path.split('.') if path else []:
                    d = d.setdefault(n, {})
                d[a] = v
        spec['ops'].append(('add', f'U{k}', base, [f'q{i}' for i in range(len(ports))],
                            float(np.round(rng.uniform(-3, 3), 3)) if rng.random() < .5 else 0., p or None))
        free += [f'U{k}.q{i}' for i in range(len(ports))]
    free = [free[i] for i in rng.permutation(len(free))]
    while len(free) > 1 and (rng.random() < .7 or len(free) > 5):
        n = min(len(free), int(rng.integers(2, 4)))
        js, free = free[:n], free[n:]
        if rng.random() < .4 or not free:
            js.append(f'n{len(free)}')
            free.append(js[-1])
        spec['ops'].append(('con', tuple(js)))
    settled = dict(spec, ops=[(*o[:2], prog.eff(o[2], o[5]), *o[3:5], None) if o[0] == 'add' else o for o in spec['ops']])
    ctx.desc(program=prog.text(spec), freqs=fs)
    for f in fs:
        m = prog.Model(settled)
        m.check(f)
    if m.ambiguous():
        raise Skip('ambiguous node names')
    env = {}
    c = prog.build(ctx.rf, spec, env)
    h = Hist(ctx, rng, fs, settled, c)
    ctx.desc(log=h.log)
    for o in settled['ops']:                    # a changed copy is not the shared object any more
        if o[0] == 'add' and o[2] is not base:
            prog.unshare(o[2])
    for _ in range(2):
        h.query(['S', 'Svec', 'sol', 'maxV', 'sol'])
    for _ in range(int(rng.integers(0, 4))):
        h.modify(['set', 'replace', 'dotted', 'direct'])
        h.query(['S', 'sol', 'maxV', 'Svec'])
    ctx.ev('places with their own params', sum(bool(o[5]) for o in spec['ops'] if o[0] == 'add'))
    # the object itself and another user of it are not affected by the params
    if all(x.split()[0] != 'set' for x in h.log):
        d = ctx.rf.rfCircuit(Zbase=50.)
        d.addblock('Q', prog.build(ctx.rf, base, env), ports=[f'q{i}' for i in range(len(ports))])
        mb = prog.Model(dict(kind='circ', Zbase=50., Portnames=None, Id=None,
                             ops=[('add', 'Q', base, [f'q{i}' for i in range(len(ports))], 0., None)]))
        compS(ctx, d, mb, fs[0], what='the object elsewhere')
    ctx.nontrivial(prog.shape(spec), [sorted(o[5] or {}) for o in spec['ops'] if o[0] == 'add'])


SCENARIOS = [('places', places, 1.5), ('forms', forms, 4), ('mixed', mixed, 2), ('atbuild', atbuild, 1), ('refused', refused, 3), ('badparams', badparams, 1),
             ('shared', shared, 1)]
MIN_EVENTS = {'settings in mixed requests': 120, 'params at building': 20, 'used before': 300, 'refused_calls': 180}
