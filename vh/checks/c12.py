"""C12: reading Touchstone depends on the data only"""
import io, os
import numpy as np
from .. import elems, tsf
from ..common import *
from ..elems import pick, logu, cplx
from ..core import Skip

RULE = ('random scattering data (1..7 ports) are written by an independent writer in random layouts (option line case, '
        'order and omissions, comments, blank lines, white space, line breaks, number styles, line ends), as text, '
        'file, path and stream, with or without HFSS port impedance and propagation blocks in either of their forms; '
        'frequencies, matrices, port names, impedances and propagation constants read are compared with the data; '
        'non-trivial: always; distinct by options, layout and source')
ASSUMPTIONS = ['Z and Y data in Ohm and Siemens', 'no other comments after a port impedance block',
               'real port impedances', 'a (frequency, values) record starts on its own line, pairs are not broken']
QUICK, THOROUGH = 16000, 150000


def source(ctx, rng, text):
    """(source argument, kind, function to close)"""
    k = pick(rng, ['text', 'path', 'file', 'stream'])
    if k == 'text' and '\n' not in text:
        k = 'stream'
    if k == 'text':
        return text, k, lambda: None
    if k == 'stream':
        return io.StringIO(text), k, lambda: None
    path = os.path.join(ctx.scratch, pick(rng, ['a.s2p', 'with space.ts', 'noext', 'X.S4P']))
    with open(path, 'w', newline='') as f:
        f.write(text)
    if k == 'path':
        return path, k, lambda: os.remove(path)
    f = open(path)
    return f, k, lambda: (f.close(), os.remove(path))


def data(rng, N, nf):
    """network data: S at 50 Ohm and the frequencies"""
    S = np.array([elems.rand_S(rng, N, 'any' if rng.random() < .5 else 'passive') for _ in range(nf)])
    f0 = logu(rng, 1e6, 1e10)
    fs = f0 * (1 + np.cumsum(rng.uniform(.01, .2, nf)))
    if rng.random() < .3:
        fs = np.round(fs, -3)
    return S, fs


def kwargs(rng, N):
    kw = {}
    if rng.random() < .7:
        kw['Zbase'] = pick(rng, [50., 50, float(logu(rng, 5, 300))])
    if rng.random() < .7:
        kw['funit'] = pick(rng, ['Hz', 'kHz', 'MHz', 'GHz', 'HZ', 'mhz'])
    u = rng.random()
    if u < .15:
        kw['ports'] = elems.names(rng, N)
    elif u < .3:
        kw['ports'] = pick(rng, ['p%d', 'port_%02d'])
    return kw


def expect_ports(kw, given, N):
    p = kw.get('ports')
    if isinstance(p, list):
        return p
    if isinstance(p, str):
        return [p % k for k in range(1, N + 1)]
    return given or ['port-%03d' % k for k in range(1, N + 1)]


def check(ctx, r, fs, Sf, kw, ports, N, what):
    """Sf(Z): the expected scattering matrices at Z"""
    ctx.close(np.asarray(r['fs']) * tsf.UNIT[kw.get('funit', 'GHz').upper()] / fs, np.ones(len(fs)), f'{what}: frequencies', tol=1e-12)
    Z = kw.get('Zbase')
    if Z is not None:
        ctx.ok(r['Zbase'] == Z, f'{what}: reference impedance', got=r['Zbase'], want=Z)
    ctx.ok(list(r['ports']) == expect_ports(kw, ports, N), f'{what}: ports', got=r['ports'], want=expect_ports(kw, ports, N))
    want = Sf(r['Zbase'])
    ctx.close(r['Ss'], want, f'{what}: scattering matrices at {r["Zbase"]} Ohm', tol=1e-8)
    ctx.ev('matrices compared', len(fs))


def plain(ctx, rng):
    N, nf = int(pick(rng, [1, 2, 2, 3, 4, 5, 7, 8, 9, 11])), int(rng.integers(1, 6))
    S, fs = data(rng, N, nf)
    o = dict(unit=pick(rng, list(tsf.UNIT)), type=pick(rng, 'SSSYZ'), fmt=pick(rng, ['RI', 'MA', 'DB']),
             R=None if rng.random() < .3 else float(np.round(logu(rng, 2, 400), int(rng.integers(0, 4)))))
    if o['R'] == 0:
        o['R'] = 50.
    if rng.random() < .4:
        o['ports'] = elems.names(rng, N)
    Zf = 50. if o['R'] is None else o['R']
    M = tsf.fromS(S, 50., o['type'], Zf)
    if M is None or np.abs(M).max() > 1e6:
        raise Skip('no such matrix')
    sigs = []
    for _ in range(2):
        text = tsf.write(rng, fs, M, o, N)
        kw = kwargs(rng, N)
        src, k, close = source(ctx, rng, text)
        ctx.desc(N=N, nf=nf, options=o, source=k, kw=kw, text=text[:1500])
        r = ctx.rf.ReadTSF(src, **kw)
        close()
        check(ctx, r, fs, lambda Z: tsf.toS(M, o['type'], Zf, Z), kw, o.get('ports'), N, k)
        ctx.ev('layouts')
        ctx.ev('source ' + k)
    # through an object
    text = tsf.write(rng, fs, M, o, N)
    src, k, close = source(ctx, rng, text)
    kw = {'Zbase': float(logu(rng, 5, 300))} if rng.random() < .6 else {}
    if rng.random() < .3:
        kw['ports'] = elems.names(rng, N)
    ctx.desc(text=text[:1500], kw=kw, source=k)
    b = ctx.rf.rfObject(touchstone=src, **kw)
    close()
    ctx.ok(list(b.ports) == expect_ports(kw, o.get('ports'), N), 'rfObject: ports', got=b.ports)
    ctx.ok(len(b) == N and (not kw.get('Zbase') or b.Zbase == kw['Zbase']), 'rfObject: size or Zbase')
    bf = np.array([f for f, _ in b])
    ctx.close(bf / fs, np.ones(nf), 'rfObject: frequencies', tol=1e-12)
    ctx.close(b.getS(bf), tsf.toS(M, o['type'], Zf, b.Zbase), 'rfObject: matrices', tol=1e-8)
    z = float(logu(rng, 5, 300))
    ctx.close(b.getS(bf[-1], Zbase=z), tsf.toS(M[-1:], o['type'], Zf, z)[0], 'rfObject: at another impedance', tol=1e-8)
    ctx.nontrivial(N, nf, o['unit'], o['type'], o['fmt'], o['R'] is None, k, sorted(kw))


def perport(ctx, rng):
    """option line with one resistance per port (power waves)"""
    N, nf = int(rng.integers(2, 5)), int(rng.integers(1, 4))
    S, fs = data(rng, N, nf)
    o = dict(unit=pick(rng, list(tsf.UNIT)), type='S', fmt=pick(rng, ['RI', 'MA', 'DB']), R=None)
    R = np.array([float(np.round(logu(rng, 5, 300), 1)) for _ in range(N)])
    if rng.random() < .5: # several ports with the same one
        R = R[rng.integers(0, int(rng.integers(1, N + 1)), N)]
    text = tsf.write(rng, fs, S, dict(o, R=1.), N)
    lines = text.split('\n')
    k = [i for i, l in enumerate(lines) if l.strip().startswith('#')][0]
    w = [o['unit'], 'S', o['fmt'], 'R ' + ' '.join(map(str, R))]
    lines[k] = '# ' + ' '.join(w[i] for i in rng.permutation(4))
    text = '\n'.join(lines)
    kw = kwargs(rng, N)
    ctx.desc(text=text[:1500], kw=kw, R=R)
    src, k, close = source(ctx, rng, text)
    r = ctx.rf.ReadTSF(src, **kw)
    close()
    check(ctx, r, fs, lambda Z: power(S, np.array([R] * nf), Z), kw, None, N, 'resistance per port')
    ctx.nontrivial(N, nf, o['fmt'], sorted(kw))


def power(S, R, Z):
    """power wave S with port resistances R (nf, N) -> S at Z"""
    res = []
    for s, r in zip(S, R):
        E, q = np.eye(len(s)), np.sqrt(r)
        V, I = q[:, None] * (E + s), (E - s) / q[:, None]
        a, b = (V + Z * I) / 2, (V - Z * I) / 2
        res.append(b @ np.linalg.inv(a))
    return np.array(res)


def hfss(ctx, rng):
    """port impedances and propagation constants in comments"""
    N, nf = int(pick(rng, [1, 2, 2, 3, 4, 5, 7, 8, 9, 11])), int(rng.integers(1, 5))
    S, fs = data(rng, N, nf)
    R = np.exp(rng.uniform(np.log(5), np.log(200), (nf, N)))
    if rng.random() < .3:
        R[:] = R[0]
    G = rng.uniform(0, 1, (nf, N)) + 1j * rng.uniform(.1, 30, (nf, N))
    square = N > 1 and rng.random() < .3
    bang = rng.random() < .4
    wrap = rng.random() < .5

    def block(label, v):
        v = np.asarray(v, complex)
        if square:
            v = np.diag(v).ravel()
        t = ['%.16g %s%.16g' % (x.real, pick(rng, ['', ' ', '    ']), x.imag) for x in v]
        out, line = [], label
        for j, x in enumerate(t):
            if j and wrap and j % 4 == 0:
                out.append(line)
                line = '!' + pick(rng, [' ', '        '])
            line += pick(rng, [' ', '    ']) + x
        return out + [line]
    blocks = [block('! Gamma ' + ('!' if bang else '  '), g) + block('! Port Impedance', z) for g, z in zip(G, R)]
    o = dict(unit=pick(rng, list(tsf.UNIT)), type='S', fmt=pick(rng, ['RI', 'MA', 'DB']),
             R=None if rng.random() < .5 else float(pick(rng, [50., R[0, 0]])), blocks=blocks, crlf=False)
    nvar = int(rng.integers(0, 4))
    V = {pick(rng, ['$', '']) + f'v_{k}': pick(rng, ['10mm', '1.5', '-3deg', '2mm + 1mm']) for k in range(nvar)}
    body = tsf.write(rng, fs, S, o, N)
    head = ['! Touchstone file exported from HFSS 2021.1.0', '!        File:           a.aedt', '!']
    if nvar:
        head += ['! Variables:'] + [f'!        {k} = {v}' for k, v in V.items()] + ['!']
    if rng.random() < .5:
        head.append('!Data is not renormalized')
    hd = rng.random() < .7
    text = ('\n'.join(head) + '\n' if hd else '') + body
    kw = kwargs(rng, N)
    ctx.desc(N=N, nf=nf, options={k: v for k, v in o.items() if k != 'blocks'}, square=bool(square), wrap=bool(wrap), kw=kw, text=text[:2500])
    src, k, close = source(ctx, rng, text)
    r = ctx.rf.ReadTSF(src, **kw)
    close()
    check(ctx, r, fs, lambda Z: power(S, R, Z), kw, None, N, 'port impedance comments')
    ctx.close(r['Zc'], R, 'port impedances', tol=1e-10)
    ctx.close(r['Gm'], G, 'propagation constants', tol=1e-10)
    if hd:
        ctx.ok({a: b.strip() for a, b in r['variables'].items()} == V, 'design variables', got=r['variables'], want=V)
    src, k, close = source(ctx, rng, text)
    b = ctx.rf.rfObject(touchstone=src, Zbase=float(logu(rng, 5, 300)))
    close()
    ctx.close([s for _, s in b], power(S, R, b.Zbase), 'rfObject: matrices', tol=1e-8)
    # re-sorting keeps impedances and propagation constants with their ports
    perm = list(rng.permutation(N))
    b.sortports([b.ports[j] for j in perm])
    for at, want in (('Zcs', R), ('Gms', G)):
        if hasattr(b, at):
            ctx.close(getattr(b, at), want[:, perm], f'{at} after sortports', tol=1e-10)
    ctx.ev('port impedances', R.size)
    ctx.ev('square blocks' if square else 'row blocks')
    ctx.nontrivial(N, nf, o['fmt'], o['unit'], o['R'] is None, bool(square), bool(wrap), bool(bang), hd, sorted(kw))


def special(ctx, rng):
    """two option lines, unknown directives, broken data are refused; PORTS of the wrong length is ignored"""
    N, nf = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    S, fs = data(rng, N, nf)
    o = dict(unit='MHZ', type='S', fmt='RI', R=50., crlf=False)
    text = tsf.write(rng, fs, S, o, N)
    lines = text.split('\n')
    k = [i for i, l in enumerate(lines) if l.strip().startswith('#')][0]
    two = lines[:k] + ['# HZ S RI R 50'] + lines[k:]
    ctx.raises(lambda: ctx.rf.ReadTSF('\n'.join(two)), 'two option lines')
    bad = lines[:k] + [lines[k].split('!')[0] + ' foo'] + lines[k + 1:]
    ctx.raises(lambda: ctx.rf.ReadTSF('\n'.join(bad)), 'unknown directive')
    j = [i for i, l in enumerate(lines) if i > k and l.split('!')[0].strip()][0]
    junk = lines[:j] + ['1.0 abc 2.0'] + lines[j:]
    ctx.raises(lambda: ctx.rf.ReadTSF('\n'.join(junk)), 'not a number')
    wrong = lines[:k] + ['!PORTS ' + ','.join(f'x{i}' for i in range(N + 1))] + lines[k:]
    r = ctx.rf.ReadTSF('\n'.join(wrong), funit='Hz')
    check(ctx, r, fs, lambda Z: tsf.toS(S, 'S', 50., Z), dict(funit='Hz'), None, N, 'wrong number of ports')
    ctx.desc(text=text[:1000])
    ctx.nontrivial(N, nf)


def remarks(ctx, rng):
    """the special comments of the header"""
    N, nf = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    S, fs = data(rng, N, nf)
    one = lambda v: v[0] if len(v) == 1 else tuple(v)
    case = lambda t: pick(rng, [t.upper(), t.lower(), t.capitalize()])
    want, pre = {}, []
    if rng.random() < .6:
        w = pick(rng, [['top'], ['left'], ['top', 'left'], ['bottom', 'right'], ['bottom']])
        pre.append('!PART ' + ' '.join(case(x) for x in w))
        want['part'] = one(w)
    if rng.random() < .6:
        w = [int(x) for x in rng.integers(1, 30, int(rng.integers(1, 3)))]
        pre.append(case('!SHAPE') + ' ' + ' '.join(map(str, w)))
        want['shape'] = tuple((w + [0])[:2])
    if rng.random() < .6:
        w = pick(rng, [['up'], ['down'], ['up', 'down'], ['down', 'up']])
        pre.append('!NUMBERING ' + ' '.join(case(x) for x in w))
        want['numbering'] = one(w)
    mk = None
    if rng.random() < .6:
        mk = [float(x) for x in np.round(rng.uniform(1, 60, int(rng.integers(1, 5))), 3)]
        pre.append('!MARKERS ' + pick(rng, [' ', '  ', '\t']).join(map(str, mk)))
    o = dict(unit=pick(rng, list(tsf.UNIT)), type='S', fmt=pick(rng, ['RI', 'MA', 'DB']), R=50.)
    if rng.random() < .5:
        o['ports'] = elems.names(rng, N)
    pre = [pre[i] for i in rng.permutation(len(pre))]
    for k in range(len(pre) - 1, -1, -1):
        if rng.random() < .3:
            pre.insert(k, pick(rng, ['! ', '!REM nothing', '!a PARTIAL remark', '']))
    o['pre'] = pre
    text = tsf.write(rng, fs, S, o, N)
    kw = kwargs(rng, N)
    ctx.desc(text=text[:1500], kw=kw)
    src, k, close = source(ctx, rng, text)
    r = ctx.rf.ReadTSF(src, **kw)
    close()
    check(ctx, r, fs, lambda Z: tsf.toS(S, 'S', 50., Z), kw, o.get('ports'), N, 'special comments')
    src, k, close = source(ctx, rng, text)
    b = ctx.rf.rfObject(touchstone=src)
    close()
    for nm in ('part', 'shape', 'numbering'):
        ctx.ok(r[nm] == want.get(nm), f'{nm} of the file', got=r[nm], want=want.get(nm))
        ctx.ok(getattr(b, nm) == want.get(nm), f'rfObject: {nm} of the file', got=getattr(b, nm), want=want.get(nm))
    for g in (r['markers'], b.markers):
        ctx.ok(g is None if mk is None else list(g) == mk, 'markers of the file', got=g, want=mk)
    ctx.ok(r['datafmt'].upper() == o['fmt'] and r['funit'].upper() == o['unit'], 'format of the file', got=(r['datafmt'], r['funit']))
    ctx.ev('special comments', len(want) + (mk is not None))
    ctx.nontrivial(N, sorted(want), mk is None, k)


SCENARIOS = [('remarks', remarks, 1), ('plain', plain, 5), ('hfss', hfss, 3), ('perport', perport, 1), ('special', special, 1)]
MIN_EVENTS = {'special comments': 100, 'layouts': 1000, 'matrices compared': 3000, 'port impedances': 1000, 'square blocks': 50, 'row blocks': 200,
              'source text': 100, 'source path': 100, 'source file': 100, 'source stream': 100}
