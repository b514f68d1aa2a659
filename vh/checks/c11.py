"""C11: Touchstone written and read back"""
import os
import numpy as np
from .. import elems, prog, tsf
from ..common import *
from ..elems import pick, logu
from ..core import Skip

RULE = ('random elements, tables and circuits (1..9 ports, not reciprocal) are written with both writers in every '
        'format, type, unit, reference resistance and number format, to text and to files; the text is parsed by an '
        'independent parser and compared with the data within the printed precision, and what ReadTSF, '
        'rfObject(touchstone=), rfCircuit(sNp=) and rfTRL(sNp=) make of it with an independent conversion; '
        'non-trivial: always; distinct by (writer, object kind, ports, type, format, unit, given options)')
ASSUMPTIONS = ['Z and Y data are in Ohm and Siemens (as the reader and both writers of this package take them)',
               'matrices without Z (Y) are not written as Z (Y)', 'objects whose frequency unit is Hz',
               'port names without commas']
QUICK, THOROUGH = 10000, 100000


def device(ctx, rng, fs, nmax=12, kinds=None):
    """(object, S at Z for every frequency, Z, has its own fs)"""
    k = pick(rng, kinds or ['base', 'base', 'obj', 'obj', 'trl', 'rlc', 'cpl', 'arc', 'circ', 'base0'])
    if k == 'circ':
        spec = prog.gen_circuit(rng, fs, depth=1, cls='passive', maxext=5)
        m = prog.Model(spec)
        c = prog.build(ctx.rf, spec)
        m.S(fs[0])
        o = m.order()
        Z = spec['Zbase']
        S = []
        for f in fs:
            s = m.S(f)
            c.getS(f)
            ix = [o.index(p) for p in c.ports]
            S.append(s[np.ix_(ix, ix)])
        return c, np.array(S), Z, k
    if k == 'base0':
        n = int(rng.integers(1, nmax + 1))
        Ss = np.array([elems.rand_S(rng, n, 'any') for _ in fs])
        Ss[:, rng.random((n, n)) < .4] = 0.         # zeros
        sp = dict(kind='base', n=n, fs=list(fs), Ss=Ss, kw=dict(Zbase=logu(rng, 5, 300), ports=elems.names(rng, n)))
    else:
        sp = elems.gen(rng, fs, k, 'any' if k in ('base', 'obj') else 'passive', nmax=nmax)
        if 'Larc' in sp['kw'] and np.isinf(sp['kw']['Larc']):
            sp['kw'].pop('Larc')
    o = elems.make(ctx.rf, sp)
    Z = sp['kw'].get('Zbase', 50.)
    S = np.array([elems.AB_to_S(*elems.ref(sp, f, Z), Z) for f in fs])
    return o, S, Z, k


def grid(rng):
    n = int(rng.integers(1, 6))
    f0 = float(np.round(logu(rng, 1e7, 9e8), -3))
    return [float(f0 + k * np.round(f0 * .013, -5) + k * 1e5) for k in range(n)]


def opts(rng):
    typ, fmt, unit = pick(rng, 'SSSYZ'), pick(rng, ['RI', 'MA', 'DB']), pick(rng, list(tsf.UNIT))
    R = None if rng.random() < .3 else float(np.round(logu(rng, 5, 300), int(rng.integers(0, 3))))
    return typ, fmt, unit, R


def optline(rng, typ, fmt, unit, R, keep_unit=False):
    w = []
    if unit != 'GHZ' or keep_unit or rng.random() < .5:
        w.append(unit)
    if typ != 'S' or rng.random() < .5:
        w.append(typ)
    if fmt != 'MA' or rng.random() < .5:
        w.append(fmt)
    if R is not None:
        w.append(f'R {R:g}' if float(f'{R:g}') == R else f'R {R!r}')
    w = [w[i] for i in rng.permutation(len(w))]
    s = ' '.join(w)
    return s.lower() if rng.random() < .2 else s


def resolution(fmt):
    """(absolute, relative) half units in the last place of a number format"""
    p = int(fmt.split('.')[1][:-1])
    return (.5 * 10. ** -p, 0.) if fmt[-1] == 'f' else (0., .5 * 10. ** -p)


def printed(ctx, d, fs, want, fmt, nf, what, ports, typ, R, unit):
    """the text against the data, to the printed precision"""
    ctx.ok(d['opt'] == 1, f'{what}: option line', got=d['opt'])
    ctx.ok([d['type'], d['fmt'], d['unit']] == [typ, fmt, unit], f'{what}: options', got=[d['type'], d['fmt'], d['unit']],
           want=[typ, fmt, unit])
    ctx.close(d['R'], R, f'{what}: reference resistance', tol=1e-12)
    ctx.ok(d['ports'] == ports, f'{what}: port names', got=d['ports'], want=ports)
    ctx.ok(len(d['fs']) == len(fs), f'{what}: number of frequencies', got=len(d['fs']), want=len(fs))
    fa, fr = resolution(nf[0])
    u = tsf.UNIT[unit]
    for f, g in zip(fs, d['fs']):
        ctx.ok(abs(f - g) <= 1.02 * (fa * u + fr * f) + 1e-13 * f, f'{what}: frequency', got=g, want=f)
    a1, r1 = resolution(nf[1])
    a2, r2 = resolution(nf[2])
    mag = np.abs(want)
    if fmt == 'RI':
        lim = np.hypot(a1 + r1 * np.abs(want.real), a2 + r2 * np.abs(want.imag))
    else:
        ph = np.deg2rad(a2 + r2 * np.abs(np.angle(want, deg=True)))
        if fmt == 'MA':
            lim = a1 + r1 * mag + mag * ph
        else:
            with np.errstate(divide='ignore'):
                db = np.where(mag > 0, np.abs(20 * np.log10(np.maximum(mag, 1e-300))), 0)
            lim = mag * (np.log(10) / 20 * (a1 + r1 * db) + ph)
    lim = 1.05 * lim + 1e-8 * mag.max() + 1e-12
    e = np.abs(d['M'] - want)
    ctx.ok(e.shape == lim.shape and np.all(e <= lim), f'{what}: printed data', err=float(np.max(e)), worst=float(np.max(e / lim)),
           got=d['M'], want=want)
    ctx.ev('printed numbers', e.size)


def readback(ctx, rng, text, d, N, what, files):
    """what the readers make of the text against the independent parser"""
    Z = None if rng.random() < .3 else float(logu(rng, 5, 300))
    fu = pick(rng, [None, 'Hz', 'MHz', 'GHz', 'kHz'])
    kw = {}
    if Z:
        kw['Zbase'] = Z
    if fu:
        kw['funit'] = fu
    src = pick(rng, [text] + files)
    r = ctx.rf.ReadTSF(src, **kw)
    ctx.close(np.asarray(r['fs']) * tsf.UNIT[(fu or 'GHz').upper()], d['fs'], f'{what}: frequencies read', tol=1e-12)
    ctx.ok(list(r['ports']) == d['ports'], f'{what}: ports read', got=r['ports'], want=d['ports'])
    ctx.ok(not Z or r['Zbase'] == Z, f'{what}: Zbase read', got=r['Zbase'], want=Z)
    want = tsf.toS(d['M'], d['type'], d['R'], r['Zbase'])
    ctx.close(r['Ss'], want, f'{what}: S read (Zbase={Z})', tol=1e-7)
    # as an object
    kw = {'Zbase': Z} if Z else {}
    o = ctx.rf.rfObject(touchstone=pick(rng, [text] + files), **kw)
    ctx.ok(list(o.ports) == d['ports'], f'{what}: ports of the object', got=o.ports)
    z = pick(rng, [None, float(logu(rng, 5, 300))])
    got = o.getS(list(d['fs'])) if z is None else o.getS(list(d['fs']), Zbase=z)
    ctx.close(got, tsf.toS(d['M'], d['type'], d['R'], z or o.Zbase), f'{what}: object (Zbase={Z}, {z})', tol=1e-7)
    ctx.ev('read back')
    return o


def roundtrip(ctx, rng, writer):
    fs = grid(rng)
    o, S, Z, kind = device(ctx, rng, fs, kinds=['base', 'base', 'cpl', 'arc', 'circ', 'base0'] if writer == 'tsf2str' else None)
    N = S.shape[-1]
    ports = list(o.ports)
    typ, fmt, unit, R = opts(rng)
    kw, nf = {}, None
    if writer == 'tsf2str':
        if rng.random() < .25:
            typ, fmt, unit, R = 'S', 'MA', 'MHZ', None
        else:
            kw['tfmt'] = pick(rng, ['# ', '#', '']) + optline(rng, typ, fmt, unit, R)
            if kw['tfmt'].startswith('#') and not kw['tfmt'].startswith('# '):
                kw['tfmt'] = '# ' + kw['tfmt'][1:]
            if not kw['tfmt'].strip():
                kw['tfmt'] = '#'
        Rx = R if R is not None else Z
        if rng.random() < .4:
            kw['Zbase'] = float(np.round(logu(rng, 5, 300), 2))
            Rx = R if R is not None else kw['Zbase']
        if kind in ('base', 'base0') and rng.random() < .4:
            pass
        else:
            kw['fs'] = pick(rng, [list(fs), np.array(fs)])
        if rng.random() < .5:
            kw['comments'] = pick(rng, ['', 'one line', 'two\nlines', ['a', 'list'], '1.0 2.0 3.0\n# GHz'])
        nf = {'RI': ('18.15e', '11.8f', '11.8f'), 'MA': ('18.14e', '15.12f', '9.4f'), 'DB': ('18.14e', '15.10f', '9.4f')}[fmt]
        nf = ('18.14e',) + nf[1:]
        call = lambda: o.tsf2str(**kw)
    else:
        if rng.random() < .2:
            typ, fmt, unit, R = 'S', 'DB', 'MHZ', 50.
        else:
            kw['tsf_format'] = optline(rng, typ, fmt, unit, R, keep_unit=True)
        Rx = 50. if R is None else R
        if not (kind in ('base', 'obj', 'base0') and len(fs) > 1 and rng.random() < .4):
            kw['fs'] = pick(rng, [list(fs), np.array(fs)])
        nf = ('9.5f', '15.12f', '+8.4f') if fmt != 'RI' else ('8.4f', '10.7f', '10.7f')
        if rng.random() < .5:
            e = pick(rng, ['20.14e', '18.10f', '22.12e', '24.15f'])
            nf = kw['num_format'] = (pick(rng, ['20.12f', '22.15e', '18.9f']), e, e)
        if rng.random() < .3:
            kw['comments'] = pick(rng, ['one', 'two\nlines', '# GHz S'])
        call = lambda: ctx.rf.WriteTSF(o, **kw)
    want = tsf.fromS(S, Z, typ, Rx)
    if want is None:
        raise Skip('no such matrix')
    if np.abs(want).max() > 1e8:
        raise Skip('values too large to print')
    ctx.desc(writer=writer, kind=kind, N=N, kw=kw, Z=Z)
    text = call()
    d = tsf.parse(text, N)
    printed(ctx, d, fs, want, fmt, nf, writer, ports, typ, Rx, unit)
    # to a file
    base = os.path.join(ctx.scratch, 'out file')
    path = f'{base}.s{N}p'
    if writer == 'tsf2str':
        o.write_tsf(base, **kw)
    else:
        ctx.rf.WriteTSF(o, path, **kw)
    ft = open(path).read()
    nodate = lambda t: [l for l in t.split('\n') if not l.startswith('! Date')]
    if 'comments' in kw or writer != 'tsf2str':
        ctx.ok(nodate(ft) == nodate(text), f'{writer}: file differs from text')
    if 'comments' in kw:
        lines = kw['comments'] if isinstance(kw['comments'], list) else kw['comments'].split('\n')
        ctx.ok(all(any(c.strip() == l.strip() for c in d['comments']) for l in lines), f'{writer}: comments', got=d['comments'][:5])
    if typ != 'S' and np.max(np.linalg.cond(d['M'])) > 1e6:
        pass
    readback(ctx, rng, text, d, N, writer, [path])
    # and the network itself, to the accuracy of the print
    if fmt != 'RI' or typ == 'S':
        z = float(logu(rng, 20, 100))
        r = ctx.rf.ReadTSF(path, Zbase=z, funit='Hz')
        w = tsf.toS(S, 'S', Z, z)
        amp = 1e-5 * (max(Rx / z, z / Rx) if typ == 'S' else 1e2)
        lim = max(np.linalg.cond(np.eye(N) - s) for s in tsf.toS(S, 'S', Z, Rx)) if typ == 'S' else 1.
        if typ == 'S' and lim < 100 and np.abs(w).max() < 3:
            ctx.close(r['Ss'], w, f'{writer}: network read back', tol=amp * lim * 10)
            ctx.ev('networks compared')
    os.remove(path)
    ctx.nontrivial(writer, kind, N, typ, fmt, unit, sorted(kw))


def strings(ctx, rng):
    roundtrip(ctx, rng, 'tsf2str')


def writetsf(ctx, rng):
    roundtrip(ctx, rng, 'WriteTSF')


def again(ctx, rng):
    """chains: write, read, write, read"""
    fs = grid(rng)
    o, S, Z, kind = device(ctx, rng, fs, kinds=['base', 'obj', 'trl', 'circ'])
    N = S.shape[-1]
    p1, p2 = (os.path.join(ctx.scratch, f'{k}.s{N}p') for k in 'ab')
    prec = ('22.15e', '22.15e', '22.15e')
    kinds = []
    for p in (p1, p2):
        typ, fmt, unit, R = opts(rng)
        if tsf.fromS(S, Z, typ, R or 50.) is None:
            typ = 'S'
        ctx.rf.WriteTSF(o, p, fs=fs, tsf_format=optline(rng, typ, fmt, unit, R, True), num_format=prec)
        ports = list(o.ports)
        o = ctx.rf.rfObject(touchstone=p, Zbase=float(logu(rng, 10, 200)))
        ctx.ok(list(o.ports) == ports, 'ports after reading', got=o.ports, want=ports)
        kinds.append((typ, fmt, unit))
    z = float(logu(rng, 10, 200))
    ctx.desc(kind=kind, N=N, chain=kinds)
    ctx.close(o.getS(fs, Zbase=z), tsf.toS(S, 'S', Z, z), 'written and read twice', tol=1e-6)
    ctx.ev('chains')
    ctx.nontrivial(kinds, N)
    os.remove(p1)
    os.remove(p2)


def users(ctx, rng):
    """objects that take their data from a file: circuits, lines"""
    fs = grid(rng)
    n = 2 if rng.random() < .5 else int(rng.integers(1, 5))
    S = np.array([elems.rand_S(rng, n, 'any') for _ in fs])
    Z = float(logu(rng, 10, 200))
    b = ctx.rf.rfBase(Ss=S.copy(), fs=list(fs), Zbase=Z, ports=elems.names(rng, n))
    path = os.path.join(ctx.scratch, f'u.s{n}p')
    typ, fmt, unit, R = opts(rng)
    ctx.rf.WriteTSF(b, path, tsf_format=optline(rng, 'S', fmt, unit, R, True), num_format=('22.15e', '22.15e', '22.15e'))
    if n == 2:
        z = float(logu(rng, 10, 200))
        t = ctx.rf.rfTRL(L=1., Z0TL=z, Zbase=z, sNp=path)
        w = tsf.toS(S, 'S', Z, z)
        ctx.close(t.getS(fs), w, 'rfTRL(sNp=)', tol=1e-6)
        zz = float(logu(rng, 10, 200))
        ctx.close([t.getS(f, Zbase=zz) for f in fs], tsf.toS(S, 'S', Z, zz), 'rfTRL(sNp=) at another impedance', tol=1e-6)
    z = float(logu(rng, 10, 200))
    P = elems.names(rng, n)
    c = ctx.rf.rfCircuit(Zbase=z, sNp=path)
    c.addblock('X', elems.rand_S(rng, n, 'passive'), ports=P)
    w = tsf.toS(S, 'S', Z, z)
    ctx.close(c.getS(fs), w, 'rfCircuit(sNp=)', tol=1e-6)
    f = pick(rng, fs)
    ctx.close(c.getS(f, Zbase=2 * z), tsf.toS(S, 'S', Z, 2 * z)[fs.index(f)], 'rfCircuit(sNp=) at another impedance', tol=1e-6)
    d = ctx.rf.rfCircuit(Zbase=float(logu(rng, 10, 200)))
    d.addblock('Y', c)
    ctx.close(d.getS(f, Zbase=z), w[fs.index(f)], 'circuit with sNp inside a circuit', tol=1e-6)
    ctx.desc(n=n, Z=Z, fmt=fmt, unit=unit, R=R)
    ctx.ev('users of files')
    ctx.nontrivial(n, fmt, unit, R is None)
    os.remove(path)


SCENARIOS = [('strings', strings, 4), ('writetsf', writetsf, 4), ('again', again, 1), ('users', users, 1)]
MIN_EVENTS = {'printed numbers': 20000, 'read back': 500, 'networks compared': 200, 'chains': 60, 'users of files': 60}
