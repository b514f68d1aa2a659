"""C05: general conversion of waves and port impedances"""
import numpy as np
from ..core import Skip
from ..elems import logu, pick, cplx, rand_S

RULE = ('random networks are given by their allowed (V, I) states; scattering data of either wave type and '
        'impedance layout are computed from the documented wave definitions, converted by the library and '
        'checked to relate the same states; round trips, chains and slices as well; non-trivial: the types or '
        'impedances differ; distinct by types, layouts, N, stack')
ASSUMPTIONS = ['impedances with a positive real part; the documented formulas are also applied to complex impedances of '
               'voltage and power waves (square roots: principal value)',
               'generalised waves as by Orfanidis: a = (V+Z I)/(2 sqrt(Re Z)), b = (V-Z* I)/(2 sqrt(Re Z))']
QUICK, THOROUGH = 20000, 120000


def waves(V, I, Z, typ):
    """Z (n,), V, I (n, k)"""
    Z = np.asarray(Z)[:, None]
    if typ == 'V':
        return (V + Z * I) / 2, (V - Z * I) / 2
    if typ == 'P':
        return (V + Z * I) / 2 / np.sqrt(Z), (V - Z * I) / 2 / np.sqrt(Z)
    r = 2 * np.sqrt(np.real(Z))
    return (V + Z * I) / r, (V - np.conj(Z) * I) / r


def imp(rng, typ, nf, n, real=False):
    """impedance specification: (argument, (nf, n) array, layout)"""
    def one(*sh):
        z = np.exp(rng.uniform(np.log(2), np.log(500), sh))
        if not (real and typ != 'G') and rng.random() < (.8 if typ == 'G' else .25):
            z = z + 1j * rng.uniform(-3, 3, sh) * z
        return z
    u = int(rng.integers(6))
    if u == 0:
        z = 50.
        return z, np.full((nf, n), z), 'scalar'
    if u == 1:
        z = one()
        z = z[()]
        return z, np.full((nf, n), z), 'scalar'
    if u in (2, 3):
        z = one(n)
        return (z.tolist() if u == 2 else z), np.array([z] * nf), 'per port'
    z = one(nf, n)
    return (z.tolist() if u == 4 else z), z, 'per frequency and port'


def data(rng, nf, n):
    V, I = cplx(rng, nf, n, n), cplx(rng, nf, n, n) / 50
    return V, I


def S_of(V, I, Z, typ):
    r = []
    for v, i, z in zip(V, I, Z):
        a, b = waves(v, i, z, typ)
        if np.linalg.cond(a) > 1e4:
            raise Skip('S does not exist')
        r.append(b @ np.linalg.inv(a))
    return np.array(r)


def relation(ctx, S, V, I, Z, typ, what):
    for s, v, i, z in zip(S, V, I, Z):
        a, b = waves(v, i, z, typ)
        ctx.close(s @ a, b, what, tol=1e-7 * max(1, np.abs(s).max(), np.abs(a).max()))
        ctx.ev('slices checked')


def call(rf, Z2, S, Z1, t1, t2, rng):
    if t1 == t2 == 'V' and rng.random() < .5:
        return rf.ConvertGeneral(Z2, S, Z1)
    if rng.random() < .5:
        return rf.ConvertGeneral(Z2, S, Z1, t1, t2)
    return rf.ConvertGeneral(Z2, S, Z1, type1=t1, type2=t2)


def conv(ctx, rng):
    n, nf = int(rng.integers(1, 6)), int(pick(rng, [1, 1, 2, 3, 5]))
    if rng.random() < .2:
        nf = n
    V, I = data(rng, nf, n)
    t1, t2 = pick(rng, 'VPG'), pick(rng, 'VPG')
    (z1, Z1, l1), (z2, Z2, l2) = imp(rng, t1, nf, n), imp(rng, t2, nf, n)
    S1, want = S_of(V, I, Z1, t1), S_of(V, I, Z2, t2)
    ctx.desc(n=n, nf=nf, types=t1 + t2, layouts=[l1, l2], Z1=z1, Z2=z2)
    ctx.ev('types ' + t1 + t2)
    ctx.ev('impedances ' + l1)
    args = [('3-D', S1, nf), ('3-D list', S1.tolist(), nf)]
    if nf == 1:
        args += [('2-D', S1[0], 1), ('2-D list', S1[0].tolist(), 1)]
        if n == 1:
            args += [('scalar', S1[0, 0, 0], 1), ('python scalar', complex(S1[0, 0, 0]), 1)]
    if n == 1:
        args += [('1-D', S1[:, 0, 0], nf), ('1-D list', S1[:, 0, 0].tolist(), nf)]
    for form, arg, _ in args:
        keep = np.array(arg, copy=True), np.array(z1, copy=True), np.array(z2, copy=True)
        S2 = call(ctx.rf, z2, arg, z1, t1, t2, rng)
        ctx.ok(all(np.array_equal(a, np.array(b)) for a, b in zip(keep, (arg, z1, z2))),
               'an argument was modified', form=form)
        ctx.ok(np.shape(S2) == np.shape(arg), 'shape of the result', form=form, got=np.shape(S2),
               want=np.shape(arg))
        R = np.asarray(S2).reshape(nf, n, n)
        relation(ctx, R, V, I, Z2, t2, f'states related after {t1}->{t2} ({form})')
        back = call(ctx.rf, z1, S2, z2, t2, t1, rng)
        ctx.close(back, np.array(arg), f'{t1}->{t2} and back ({form})',
                  tol=1e-6 * max(1, np.abs(R).max()) ** 2)
        ctx.ev('rank ' + form.split()[0])
    if t1 != t2 or not np.array_equal(Z1, Z2):
        ctx.nontrivial(n, nf, t1, t2, l1, l2)


def chain(ctx, rng):
    n, nf = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    V, I = data(rng, nf, n)
    steps = []
    for _ in range(int(rng.integers(2, 5))):
        t = pick(rng, 'VPG')
        steps.append((t, *imp(rng, t, nf, n)))
    t, z, Z, _ = steps[0]
    S = S_of(V, I, Z, t)
    for s in steps:
        S_of(V, I, s[2], s[0])
    direct = ctx.rf.ConvertGeneral(steps[-1][1], S, z, t, steps[-1][0])
    for t2, z2, Z2, _ in steps[1:]:
        S = ctx.rf.ConvertGeneral(z2, S, z, t, t2)
        relation(ctx, S, V, I, Z2, t2, 'states related after a chain')
        t, z = t2, z2
    ctx.close(S, direct, 'chain against direct conversion', tol=1e-6 * max(1, np.abs(direct).max()))
    k = int(rng.integers(nf))
    t, z, Z, _ = steps[0]
    one = ctx.rf.ConvertGeneral(steps[-1][2][k], S_of(V, I, Z, t)[k], Z[k], t, steps[-1][0])
    ctx.close(one, direct[k], 'one frequency alone', tol=1e-6 * max(1, np.abs(direct).max()))
    ctx.desc(n=n, nf=nf, types=[s[0] for s in steps], layouts=[s[3] for s in steps])
    ctx.nontrivial(n, nf, [(s[0], s[3]) for s in steps])
    ctx.ev('chains')


def same(ctx, rng):
    """identical definitions change nothing; power of lossless networks kept by power waves"""
    n, nf = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    S = np.array([rand_S(rng, n, 'lossless') for _ in range(nf)])
    t = pick(rng, 'VPG')
    z, Z, lay = imp(rng, t, nf, n)
    ctx.close(ctx.rf.ConvertGeneral(z, S, z, t, t), S, 'conversion to the same definition', tol=1e-9)
    t1, t2 = pick(rng, 'PG'), pick(rng, 'PG')
    z1, Z1, _ = imp(rng, t1, nf, n, True)
    z2, Z2, lay = imp(rng, t2, nf, n, True)
    R = ctx.rf.ConvertGeneral(z2, S, z1, t1, t2)
    ctx.close(np.conj(np.transpose(R, (0, 2, 1))) @ R, np.eye(n) + 0 * R,
              'lossless network after conversion between power waves', tol=1e-6)
    ctx.desc(n=n, nf=nf, types=t1 + t2)
    ctx.nontrivial(n, nf, t1, t2, lay)


def refused(ctx, rng):
    n, nf = int(rng.integers(2, 5)), int(rng.integers(1, 4))
    S = np.array([rand_S(rng, n) for _ in range(nf)])
    cg = ctx.rf.ConvertGeneral
    for bad in (np.ones(n + 1) * 30, np.ones((nf + 1, n)) * 30, np.ones((nf, n + 1)) * 30, np.ones((1, nf, n))):
        ctx.raises(lambda: cg(bad, S, 50.), 'impedances of a wrong shape')
        ctx.raises(lambda: cg(50., S, bad), 'impedances of a wrong shape')
    ctx.raises(lambda: cg(50., S, 30., 'X'), 'unknown wave type')
    ctx.raises(lambda: cg(50., S, 30., 'V', 'Q'), 'unknown wave type')
    ctx.desc(n=n, nf=nf)


SCENARIOS = [('conv', conv, 6), ('chain', chain, 2), ('same', same, 1), ('refused', refused, 1)]
MIN_EVENTS = dict({'types ' + a + b: 40 for a in 'VPG' for b in 'VPG'}, **{
    'slices checked': 3000, 'rank 1-D': 100, 'rank scalar': 30, 'rank 2-D': 100,
    'impedances per port': 100, 'impedances per frequency and port': 100})
