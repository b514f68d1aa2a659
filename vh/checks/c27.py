"""C27: post-processing of standing wave data and matrices"""
import contextlib, copy, io, re
import numpy as np
from .. import prog, elems
from ..core import Skip, deep_equal
from ..common import *
from ..elems import pick, logu

RULE = ('standing wave data of random circuits (maxV) and random nested data are scaled, printed, summarised and plotted; the '
        'numbers of the texts, the data of the plotted curves and the annotation shown for a pointer position are compared '
        'with the data handed over, matrices and sets of S-matrices with what is printed and plotted; inputs are compared '
        'before and after; non-trivial: something nested or complex was shown; distinct by structure of the data')
ASSUMPTIONS = ASSUME + ['plots are made with the Agg backend and read back through the figure', 'voltages are floating point numbers']
QUICK, THOROUGH = 1500, 40000

FLT = re.compile(r'[-+]?\d+\.\d+|[-+]?\bnan\b|[-+]?\binf\b')


def leaves(d, path=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


def data(ctx, rng, nodes=True, scalars=False):
    """nested standing wave data: from a circuit or made up"""
    if rng.random() < .45:
        fs = prog.freqs(rng)
        spec = prog.gen_circuit(rng, fs, depth=int(rng.integers(0, 3)), maxext=3)
        m = prog.Model(spec)
        m.check(fs[0])
        c = prog.build(ctx.rf, spec)
        E = excite(rng, m.order())
        if rng.random() < .2:
            for k in range(int(rng.integers(3, 8))):
                t = ctx.rf.rfCircuit(Zbase=float(logu(rng, 10, 100)))
                t.addblock(f'w{k}', c)
                E = {f'w{k}.{p}': a for p, a in E.items()}
                c = t
        _, _, d = c.maxV(fs[0], E)
        ctx.ev('data of circuits')
        ctx.desc(program=prog.text(spec), E=E)
        return d
    names = ['A', 'TL1', '_hidden', 'ψ', 'blk 2', '$x_1$', 'sub', 'n.a', 'T']

    def leaf():
        n = int(rng.integers(1, 7))
        if n == 1:
            x = [None if rng.random() < .15 and nodes else
                 pick(rng, [int, np.int64, np.float64])(rng.integers(-5, 6)) if rng.random() < .4 else float(np.round(rng.uniform(-5, 5), 4))]
            if x[0] is not None and rng.random() < .3:
                x = np.array(x)
        else:
            x = np.sort(rng.uniform(-5, 5, n))
            x = x if rng.random() < .6 else x.tolist()
        u = rng.random()
        V = logu(rng, .05, 50) * (elems.cplx(rng, n) if u < .4 else rng.normal(size=n) if u < .6 else np.abs(rng.normal(size=n)))
        if rng.random() < .1:
            V = V * 0 + V[0]
        if scalars and rng.random() < .15:
            return (float(rng.uniform(-5, 5)), V[0] if rng.random() < .5 else float(np.abs(V[0])))
        return (x, V if rng.random() < .6 else V.tolist())

    chain = int(rng.integers(4, 14)) if rng.random() < .2 else 0

    def node(depth):
        k = int(rng.integers(1, 4))
        return {names[i]: node(depth - 1) if depth and rng.random() < .5 else leaf() for i in rng.permutation(len(names))[:k]}
    d = node(int(rng.integers(0, 4)))
    for i in range(chain):       # a long way down
        d = {**({f'o{i}': leaf()} if rng.random() < .3 else {}), f'lev{i}' if i % 2 else 'lev': d}
    ctx.ev('deep data', chain > 0)
    return d


def shape(d):
    return {k: shape(v) if isinstance(v, dict) else np.shape(v[0]) for k, v in d.items()}


def scaling(ctx, rng):
    from pyRFtk import scaleVSW
    d = data(ctx, rng, scalars=True)
    ctx.desc(data=repr(d)[:3000])
    before = copy.deepcopy(d)
    holders = [v for _, v in leaves(d)]
    total = 1.
    for _ in range(int(rng.integers(1, 4))):
        s = float(pick(rng, [1e-3, 2., -1.5, 0.7, 1.]))
        scaleVSW(d, s)
        total *= s
        for (p, v), (_, w) in zip(leaves(d), leaves(before)):
            ctx.ok(deep_equal(v[0], w[0]), f'position of {p} changed by scaling', got=v[0], want=w[0])
            ctx.close(np.array(v[1], complex), np.array(w[1], complex) * total, f'scaled voltages of {p}', tol=1e-12)
            ctx.ok(isinstance(v, tuple) and isinstance(v[1], type(w[1])) or not hasattr(w[1], '__len__'), f'kind of data of {p}')
            ctx.ev('sections scaled')
    ctx.same([p for p, _ in leaves(d)], [p for p, _ in leaves(before)], 'names after scaling')
    ctx.ok(all(a is b for a, (_, b) in zip(holders, leaves(d)) if hasattr(a[1], '__len__')), 'scaling works in place')
    bad = pick(rng, [{'a': {'b': (1., 2., 3.)}}, {'a': 5.}, {'a': [1.]}])
    ctx.raises(lambda: scaleVSW(bad, 2.), 'scaling something else', ValueError)
    ctx.nontrivial(shape(before), total)


def num(x):
    return 'None' if x is None else abs(x) if isinstance(x, complex) else x


def texts(ctx, rng):
    from pyRFtk import strVSW, str_dict
    d = data(ctx, rng)
    before = copy.deepcopy(d)
    ctx.desc(data=repr(d)[:3000])
    lines = strVSW(d).split('\n')
    pos = 0

    def near(got, want, what, dig=3):
        ctx.ok(abs(got - want) <= .51 * 10 ** -dig + 1e-9 * abs(want), what, got=got, want=want)
        ctx.ev('printed numbers')

    def walk(d, depth):
        nonlocal pos
        for k, v in d.items():
            l = lines[pos]
            ctx.ok(l.strip() == str(k).strip(), f'strVSW: name of {k}', got=l)
            ind.setdefault(depth, len(l) - len(l.lstrip()))
            ctx.ok(len(l) - len(l.lstrip()) == ind[depth], f'strVSW: indentation of {k}', got=l)
            pos += 1
            if isinstance(v, dict):
                walk(v, depth + 1)
                continue
            for x, y in zip(*v):
                l = lines[pos]
                q = [float(t) for t in FLT.findall(l)]
                ctx.ok(len(q) == (1 if x is None else 2), f'strVSW: point of {k}', got=l)
                if x is not None:
                    near(q[0], x, f'strVSW: position in {k}')
                else:
                    ctx.ok('None' in l, 'strVSW: unknown position', got=l)
                near(q[-1], abs(y), f'strVSW: voltage in {k}')
                pos += 1
    ind = {}
    walk(d, 0)
    ctx.ok(sorted(ind.values()) == list(ind.values()) and len(set(ind.values())) == len(ind), 'strVSW: indentation of the levels', got=ind)
    ctx.ok(not any(l.strip() for l in lines[pos:]), 'strVSW: further lines', got=lines[pos:])

    # summary
    if rng.random() < .3:
        ctx.raises(lambda: str_dict({'a': {'b': (1, 2)}}), 'str_dict of something else', TypeError)
    for _ in range(2):
        rows = [l for l in str_dict(d).split('\n') if l.strip()]
        i = 0
        depth = 0
        ctx.ok(rows[0].strip() == '{' and rows[-1].strip() == '},', 'str_dict: braces', got=rows)

        def summ(d, i):
            for k, v in d.items():
                l = rows[i]
                ctx.ok(l.strip().startswith(f'{k}:'.strip()), f'str_dict: name of {k}', got=l)
                rest = l.strip()[len(f'{k}:'.strip()):]
                if isinstance(v, dict):
                    ctx.ok(rest.strip() == '{', f'str_dict: level {k}', got=l)
                    i = summ(v, i + 1)
                    ctx.ok(rows[i].strip() == '},', f'str_dict: end of level {k}', got=rows[i])
                else:
                    q = [float(t) for t in FLT.findall(rest)]
                    if len(v[0]) == 1:
                        ctx.ok('node' in rest, f'str_dict: {k} is a node', got=l)
                        if v[0][0] is None:
                            ctx.ok('N/A' in rest and not q, 'str_dict: unknown position', got=l)
                        else:
                            near(q[0], v[0][0], f'str_dict: position of {k}', 4)
                    else:
                        ctx.ok(re.search(rf'\b{len(v[0])} pts', rest), f'str_dict: number of points of {k}', got=l)
                        near(q[0], v[0][0], f'str_dict: begin of {k}', 4)
                        near(q[1], v[0][-1], f'str_dict: end of {k}', 4)
                i += 1
            return i
        i = summ(d, 1)
        ctx.ok(i == len(rows) - 1, 'str_dict: number of lines', got=rows)
    ctx.ok(deep_equal(d, before), 'the data was modified by printing')
    ctx.nontrivial(shape(d))


def plots(ctx, rng):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.backend_bases import MouseEvent
    from pyRFtk import plotVSWs
    plt.close('all')
    d = data(ctx, rng)
    before = copy.deepcopy(d)
    ctx.desc(data=repr(d)[:3000])
    kw = {}
    if rng.random() < .4:
        kw['Id'] = 'plot $V$'
    elif rng.random() < .3:
        kw['num'] = 'fig'
    if rng.random() < .5:
        kw['maxlev'] = int(rng.integers(1, 6))
    if rng.random() < .5:
        kw['plotnodes'] = True
    if rng.random() < .3:
        kw['plotpoints'] = True
    if rng.random() < .3:
        kw['figsize'] = (5, 4)
    plotVSWs(d, **kw)
    ctx.ok(deep_equal(d, before), 'the data was modified by plotting')
    fig = plt.gcf()
    ax = fig.get_axes()[0]
    want = []
    for p, (xs, V) in leaves(d):
        a = np.abs(V)
        if any(x != xs[0] for x in xs) or any(v != a[0] for v in a):
            want.append((p, xs, a, True))
        elif kw.get('plotnodes') and xs[0] is not None:
            want.append((p, xs, a, False))
    got = ax.get_lines()
    ctx.ok(len(got) == len(want), 'number of plotted curves', got=len(got), want=[w[0] for w in want])
    for g, (p, xs, a, curve) in zip(got, want):
        ctx.close(np.asarray(g.get_xdata(), float), np.asarray(xs, float), f'plotted positions of {p}', tol=1e-12)
        ctx.close(np.asarray(g.get_ydata(), float), a, f'plotted voltages of {p}', tol=1e-12)
        lbl = str(g.get_label())
        if len(p) < kw.get('maxlev', 4):
            ctx.ok(lbl.strip() == p[-1].strip() and not lbl.startswith('_'), f'label of {p}', got=lbl)
        else:
            ctx.ok(lbl.startswith('_'), f'label of {p} below the last level', got=lbl)
        if curve:
            ctx.ok((g.get_marker() not in ('None', None, '')) == bool(kw.get('plotpoints')), f'markers of {p}', got=g.get_marker())
        else:
            ctx.ok(g.get_marker() not in ('None', None, ''), f'marker of the node {p}')
        ctx.ev('plotted curves')
    # the annotation shown at the pointer
    cand = []
    for p, (xs, V) in leaves(d):
        if len(xs) == 1 and xs[0] is None:
            continue
        cand.append((p, np.asarray(xs, float), np.abs(V)))
    fig.canvas.draw()
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    ks = (x1 - x0) / (y1 - y0)
    ana = lambda: [t for t in ax.texts if t.get_visible()]
    for _ in range(4 if cand else 0):
        nid = {id(t) for t in ana()}
        p, xs, V = pick(rng, cand)
        k = int(rng.integers(len(xs)))
        xp, yp = (xs[k] + .05 * (x1 - x0) * rng.normal(), V[k] + .05 * (y1 - y0) * rng.normal()) if rng.random() < .7 else \
            (rng.uniform(x0, x1), rng.uniform(y0, y1))
        px, py = ax.transData.transform((xp, yp))
        inside = ax.bbox.contains(px, py)
        ev = MouseEvent('motion_notify_event', fig.canvas, px, py)
        fig.canvas.callbacks.process('motion_notify_event', ev)
        if not inside:
            continue
        xp, yp = ev.xdata, ev.ydata
        shown = ana()
        ctx.ok(len(shown) == 1, 'one annotation is shown', got=[t.get_text() for t in shown])
        best = {}
        for q, xs, V in cand:
            if len(xs) == 1:
                best[q] = ((xs[0] - xp) ** 2 + ks ** 2 * (V[0] - yp) ** 2) ** .5
            else:
                P = np.array([xs, ks * V]).T
                A, B, C = P[:-1], P[1:], np.array([xp, ks * yp])
                dd = ((B - A) ** 2).sum(1)
                t = np.clip(np.where(dd > 0, ((C - A) * (B - A)).sum(1) / np.where(dd > 0, dd, 1), 0), 0, 1)
                best[q] = float(np.min(np.hypot(*(A + t[:, None] * (B - A) - C).T)))
        dmin = min(best.values())
        txt = shown[0].get_text()
        name, val = txt.rsplit('\n', 1)
        tol = 1e-6 * (x1 - x0) + ks * 1e-12 * max(abs(y0), abs(y1))     # (rounding)
        ok = [q for q in best if best[q] <= dmin + tol]
        ctx.ok(name in ['.'.join(q) for q in ok], 'annotated section is not the closest', got=txt, want=ok, pointer=(xp, yp))
        ax_, ay_ = shown[0].xy
        ctx.ok(abs(np.hypot(ax_ - xp, ks * (ay_ - yp)) - dmin) <= 2 * tol, 'annotated point is not the closest', got=(ax_, ay_), pointer=(xp, yp))
        ctx.ok(abs(float(val.replace('kV', '')) - ay_) <= .00051, 'annotated voltage', got=txt, want=ay_)
        ctx.ev('annotations')
    ctx.ok(deep_equal(d, before), 'the data was modified by the annotations')
    if rng.random() < .3 and 'num' not in kw and 'Id' not in kw and len(d) > 1:
        # a further data set in the same axes
        e = data(ctx, rng, nodes=False)
        n = len(ax.get_lines())
        if len(e) > 1:
            plotVSWs(e)
            ctx.ok(plt.gcf() is fig and len(ax.get_lines()) >= n, 'further data are added to the figure')
    ctx.raises(lambda: plotVSWs(d, Id='a', num='b'), 'plot with two names', ValueError)
    plt.close('all')
    ctx.nontrivial(shape(d), sorted(kw))


def matrices(ctx, rng):
    import pyRFtk
    from pyRFtk import printMatrices as pm
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    M = elems.cplx(rng, n, m) * float(logu(rng, .01, 30))
    for _ in range(int(rng.integers(0, 4))):
        M[rng.integers(n), rng.integers(m)] = pick(rng, [0., 1e-9, -1e-8j, 1e-3j, 2.])
    arg = M.copy() if rng.random() < .6 else M.tolist()
    snap = copy.deepcopy(arg)
    ctx.desc(M=arg)
    pz = pick(rng, [None, '0', '', '.', '--'])
    kw = {} if pz is None else dict(printzeros=pz)
    pz = '0' if pz is None else pz
    forms = {'strM': (pm.strM, lambda x: (x.real, x.imag), 3, 3), 'printM': (pm.printM, lambda x: (x.real, x.imag), 3, 3),
             'printRI': (pm.printRI, lambda x: (x.real, x.imag), 3, 3),
             'printMA': (pm.printMA, lambda x: (abs(x), np.angle(x, deg=True)), 5, 2),
             'printDB': (pm.printDB, lambda x: (20 * np.log10(abs(x)), np.angle(x, deg=True)), 3, 1),
             'printR': (pm.printR, lambda x: (x.real,), 3, 3),
             'own': (pm.strM, lambda x: (x.imag, abs(x), x.real), 4, 4)}
    name = pick(rng, list(forms))
    fun, val, d0, d1 = forms[name]
    if name == 'printDB':
        M[M == 0] = 1.
        arg = M.copy()
        snap = arg.copy()
    if name == 'own':
        kw.update(pfmt='<%.4f|%.4f|%.4f>,', pfun=lambda x: (np.imag(x), np.abs(x), np.real(x)))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = fun(arg, **kw)
    text = out.getvalue() if r is None else r
    ctx.ok(deep_equal(arg, snap), f'{name} modified its matrix')
    rows = [l for l in text.split('\n') if l.strip()]
    ctx.ok(re.sub(r'\s', '', rows[0]) == f'[{n},{m}]', f'{name}: shape', got=rows[0])
    # (a row of zeros printed as blanks vanishes)
    if pz.strip() or not pz:
        ctx.ok(len(rows) == n + 1, f'{name}: number of rows', got=rows)
        for l, row in zip(rows[1:], M):
            toks = re.findall(r'[^\s,<>|°j]+', l.replace('+', ' +').replace('-', ' -').replace('e ', 'e')) if pz != '--' else \
                re.findall(r'--|[^\s,<>|°j]+', re.sub(r'(?<!-)-(?=\d)', ' -', l.replace('+', ' +')))
            want = []
            for x in row:
                if pz and abs(x) < 1e-7:
                    want.append(pz)
                else:
                    want += list(zip(val(x), (d0,) + (d1,) * 2))
            ctx.ok(len(toks) == len(want), f'{name}: entries of a row', got=l, want=want)
            for t, w in zip(toks, want):
                if isinstance(w, str):
                    ctx.ok(t == w, f'{name}: zero', got=l)
                else:
                    ctx.ok(abs(float(t) - w[0]) <= .51 * 10 ** -w[1] + 1e-9 * abs(w[0]), f'{name}: number', got=t, want=w[0], row=l)
                ctx.ev('matrix entries')
    ctx.nontrivial(name, n, m, pz)


def compare(ctx, rng):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from pyRFtk import compareSs
    plt.close('all')
    N, K = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    one = rng.random() < .5
    nf = [int(rng.integers(2, 6))] * K if one else [int(rng.integers(2, 6)) for _ in range(K)]
    fs = [np.sort(rng.uniform(30, 60, n)) for n in nf]
    if one:
        fs = [fs[0]] * K
    Ss = [np.array([elems.rand_S(rng, N) for _ in range(n)]) for n in nf]
    A = (fs[0] if one else list(fs), Ss[0] if K == 1 and rng.random() < .5 else list(Ss))
    snap = copy.deepcopy(A)
    kw = {}
    if rng.random() < .5:
        kw['lbls'] = ['one', 'two', 'three'][:K]
    if rng.random() < .5:
        kw['cs'] = ['k', 'g:'][:int(rng.integers(1, 3))]
    if rng.random() < .3:
        kw['figsize'] = (6, 5)
    ctx.desc(N=N, K=K, kw=kw)
    compareSs(*A, **kw)
    ctx.ok(deep_equal(A, snap), 'compareSs modified its data')
    axs = np.array(plt.gcf().get_axes(), dtype=object)
    ctx.ok(len(axs) == N * (N + 1), 'number of diagrams', got=len(axs))
    axs = axs.reshape(N, N + 1)
    for r in range(N):
        for c in range(r + 1):
            for ax, fun, what in ((axs[r][c], np.abs, 'magnitude'), (axs[c][r + 1], np.angle, 'phase')):
                ls = ax.get_lines()
                ctx.ok(len(ls) == K, f'{what} of S{r + 1}{c + 1}: curves', got=len(ls))
                ctx.ok(f'{r + 1}{c + 1}' in ax.get_title(), f'{what} of S{r + 1}{c + 1}: title', got=ax.get_title())
                for k, l in enumerate(ls):
                    ctx.close(np.asarray(l.get_xdata()), fs[k], f'{what} of S{r + 1}{c + 1}: frequencies', tol=1e-12)
                    ctx.close(np.asarray(l.get_ydata()), fun(Ss[k][:, r, c]), f'{what} of S{r + 1}{c + 1}', tol=1e-12)
                    ctx.same(str(l.get_label()), kw['lbls'][k] if 'lbls' in kw else str(k + 1), f'{what} of S{r + 1}{c + 1}: label')
                    ctx.ev('compared curves')
    bad = pick(rng, ['nf', 'shape', 'ns'])
    if bad == 'nf':
        f = lambda: compareSs(fs[0][:-1], Ss[0])
    elif bad == 'shape':
        f = lambda: compareSs(fs[0], [Ss[0], np.zeros((nf[0], N + 1, N + 1), complex)])
    else:
        f = lambda: compareSs([fs[0]] * (K + 1), list(Ss))
    ctx.raises(f, f'compareSs of incompatible data ({bad})', ValueError)
    plt.close('all')
    ctx.nontrivial(N, K, one, sorted(kw))


SCENARIOS = [('scaling', scaling, 3), ('texts', texts, 3), ('plots', plots, 3), ('matrices', matrices, 3), ('compare', compare, 1)]
MIN_EVENTS = {'data of circuits': 50, 'sections scaled': 500, 'printed numbers': 1000, 'plotted curves': 100, 'annotations': 100,
              'matrix entries': 300, 'compared curves': 50}
