"""independent reading and free-form writing of Touchstone v1 text"""
import re
import numpy as np
from .elems import pick

UNIT = {'HZ': 1., 'KHZ': 1e3, 'MHZ': 1e6, 'GHZ': 1e9}


def tocomplex(a, b, fmt):
    if fmt == 'RI':
        return a + 1j * b
    m = a if fmt == 'MA' else 10 ** (a / 20)
    return m * np.exp(1j * np.deg2rad(b))


def parse(text, N):
    """-> dict(unit, type, fmt, R, fs [Hz], M [f, N, N] (as in the file), ports, comments)"""
    d = dict(unit='GHZ', type='S', fmt='MA', R=50., ports=None, opt=0, comments=[])
    nums = []
    for line in text.split('\n'):
        body, _, rem = line.partition('!')
        if _:
            d['comments'].append(rem)
            m = re.match(r'PORTS (.*)', rem)
            if m:
                d['ports'] = [p.strip() for p in m.group(1).split(',')]
        body = body.strip()
        if body.startswith('#'):
            d['opt'] += 1
            w = body[1:].upper().split()
            k = 0
            while k < len(w):
                if w[k] in UNIT:
                    d['unit'] = w[k]
                elif w[k] in 'SYZ':
                    d['type'] = w[k]
                elif w[k] in ('RI', 'MA', 'DB'):
                    d['fmt'] = w[k]
                elif w[k] == 'R':
                    k += 1
                    d['R'] = float(w[k])
                else:
                    raise ValueError('option line: ' + body)
                k += 1
        elif body:
            if not d['opt']:
                raise ValueError('data before the option line')
            nums += [float(x) for x in body.split()]
    A = np.array(nums).reshape(-1, 1 + 2 * N * N)
    d['fs'] = A[:, 0] * UNIT[d['unit']]
    M = tocomplex(A[:, 1::2], A[:, 2::2], d['fmt']).reshape(-1, N, N)
    d['M'] = M.transpose(0, 2, 1) if N == 2 else M
    return d


def toS(M, typ, R, Z):
    """S at Z of the data (S at R; Z, Y in Ohm, Siemens)"""
    E = np.eye(M.shape[-1])
    res = []
    for m in M:
        if typ == 'S':
            A, B = E - m, -R * (E + m)
        elif typ == 'Z':
            A, B = E.astype(complex), -m
        else:
            A, B = -m, E.astype(complex)
        res.append(np.linalg.solve(B / Z - A, A + B / Z))
    return np.array(res)


def fromS(S, Z, typ, R):
    """the data of the given type of S at Z; None when (nearly) singular"""
    E = np.eye(S.shape[-1])
    res = []
    for s in S:
        if typ == 'S':
            res.append(toS(np.array([s]), 'S', Z, R)[0])
        else:
            P, Q = Z * (E + s), E - s          # V = P u, I = Q u
            if typ == 'Y':
                P, Q = Q, P
            if np.linalg.cond(Q / 50 if typ == 'Y' else Q) > 1e5:
                return None
            res.append(P @ np.linalg.inv(Q))
    return np.array(res)


def write(rng, fs, M, o, N):
    """the same data in a random layout; o: dict(unit, type, fmt, R (None: not given), opts)"""
    sep = lambda: pick(rng, [' ', '  ', '\t', '   \t ', '     '])
    num = lambda x: pick(rng, ['%.16g', '%.16e', '%+.16e', '%.17g', '%.16E']) % x
    case = lambda t: pick(rng, [t.upper(), t.lower(), t.capitalize()])
    cmt = lambda: pick(rng, ['', ' a comment', ' 1.0 2.0 3.0', ' # GHz S MA R 1', '-----', ' row 1', '! !', ' Freq S11 S21'])
    out = []

    def noise(p=.2, also=()):
        while rng.random() < p:
            out.append(pick(rng, ['', '   ', '\t', '!' + cmt(), '  !' + cmt()]))
    noise(.6)
    w = []
    if o['unit'] != 'GHZ' or rng.random() < .5:
        w.append(case(o['unit']))
    if o['type'] != 'S' or rng.random() < .5:
        w.append(case(o['type']))
    if o['fmt'] != 'MA' or rng.random() < .5:
        w.append(case(o['fmt']))
    if o['R'] is not None:
        r = o['R']
        w.append(case('R') + sep() + pick(rng, [repr(r), '%.16e' % r, '%g' % r if float('%g' % r) == r else repr(r)]))
    w = [w[i] for i in rng.permutation(len(w))]
    if w or rng.random() < .7:
        out.append(pick(rng, ['', ' ']) + '#' + pick(rng, ['', ' ', '  ', '\t']) + sep().join(w)
                   + pick(rng, ['', '', ' ', ' !' + cmt(), '!' + cmt()]))
    noise(.4)
    if o.get('ports'):
        out.append('!PORTS ' + pick(rng, [', ', ',', ' , ']).join(o['ports']))
        noise(.3)
    for line in o.get('pre', ()):
        out.append(line)
    for k, (f, m) in enumerate(zip(fs, M)):
        m = m.T if N == 2 else m
        pairs = []
        for v in m.ravel():
            if o['fmt'] == 'RI':
                a, b = v.real, v.imag
            else:
                a, b = np.abs(v), np.angle(v, deg=True)
                if rng.random() < .2:
                    b += 360 * int(rng.integers(-2, 3))
                if o['fmt'] == 'DB':
                    a = 20 * np.log10(a)
            pairs.append(num(a) + sep() + num(b))
        line = pick(rng, ['', '', ' ', '\t']) + num(f / UNIT[o['unit']])
        style = int(rng.integers(4))        # one line, rows, rows of at most 4, random
        n = 0
        for j, p in enumerate(pairs):
            if n and ((style == 1 and N > 2 and j % N == 0) or (style == 2 and (j % N == 0 and N > 2 or j % N % 4 == 0 and j % N))
                      or (style == 3 and rng.random() < .3)):
                out.append(line + pick(rng, ['', '', ' ', ' !' + cmt(), '!' + cmt()]))
                if not o.get('blocks'):
                    noise(.1)
                line, n = sep(), 0
                line += p
                n = 1
                continue
            line += sep() + p
            n += 1
        out.append(line + pick(rng, ['', '', ' ', ' !' + cmt(), '!' + cmt()]))
        if o.get('blocks'):
            out.extend(o['blocks'][k])
        else:
            noise(.2)
    eol = pick(rng, ['\n', '\n', '\r\n']) if o.get('crlf', True) else '\n'
    return eol.join(out) + (eol if rng.random() < .8 or len(out) < 2 else '')
