"""C04: conversions between S, Z, Y and VI descriptions"""
import numpy as np
from ..core import Skip
from ..elems import logu, pick, cplx, rand_S

RULE = ('random well-conditioned N-ports (N = 1..6, symmetric or not, real or complex, stacks of 1..6) are '
        'converted in every direction and input rank; the defining relations V = Z I, I = Y V, '
        '(V - Zb I) = S (V + Zb I) are monitored on random currents/voltages of every slice, never a formula of '
        'the code; non-trivial: N >= 2 or a stack of >= 2; distinct by rank, N, stack, function and data')
ASSUMPTIONS = ['matrices with condition number below 1e6 and a target that exists']
QUICK, THOROUGH = 20000, 120000


def stack(rng, what, nf, n, Zb):
    """physical networks as (V, I) bases: columns are the allowed port states"""
    M = np.array([rand_S(rng, n, pick(rng, ['any', 'passive', 'recip'])) for _ in range(nf)])
    if what == 'S':
        V, I = np.eye(n) + M, (np.eye(n) - M) / Zb
    elif what == 'Z':
        M = M * logu(rng, .1, 10) * Zb + np.eye(n) * Zb * rng.uniform(-1, 2)
        V, I = M, np.eye(n) + 0 * M
    else:
        M = (M * logu(rng, .1, 10) + np.eye(n) * rng.uniform(-1, 2)) / Zb
        V, I = np.eye(n) + 0 * M, M
    if rng.random() < .1:
        M = M.real.copy()
        if what == 'S':
            V, I = np.eye(n) + M, (np.eye(n) - M) / Zb
        elif what == 'Z':
            V = M
        else:
            I = M
    return M, np.broadcast_to(V, (nf, n, n)), np.broadcast_to(I, (nf, n, n))


def forms(rng, M):
    """the ranks in which the stack can be given: (argument, function putting the result back to 3-D)"""
    nf, n = M.shape[:2]
    res = [('3-D', M.copy()), ('3-D list', M.tolist())]
    if nf == 1:
        res += [('2-D', M[0].copy()), ('2-D list', M[0].tolist())]
        if n == 1:
            res += [('scalar', M[0, 0, 0]), ('python scalar', complex(M[0, 0, 0])),
                    ('0-D', np.array(M[0, 0, 0]))]
    if n == 1:
        res += [('1-D', M[:, 0, 0].copy()), ('1-D list', M[:, 0, 0].tolist())]
    return res


FUN = dict(S=dict(Z='Z_from_S', Y='Y_from_S'), Z=dict(S='S_from_Z'), Y=dict(S='S_from_Y'))


def relation(ctx, kind, M, V, I, Zb, what):
    """M (3-D, of the kind) has to relate the states V, I"""
    Iz = I * Zb
    sc = max(np.abs(V).max(), np.abs(Iz).max())
    if kind == 'Z':
        L, R = V, M @ I
    elif kind == 'Y':
        L, R = Iz, Zb * (M @ V)
    else:
        L, R = V - Iz, M @ (V + Iz)
    ctx.ev('slices checked', len(M))
    ctx.close(L, R, what, tol=0, atol=1e-7 * sc)


def conv(ctx, rng):
    n = int(pick(rng, [1, 1, 2, 2, 3, 4, 6]))
    nf = int(pick(rng, [1, 1, 2, 3, 6]))
    if rng.random() < .15:
        nf = n                                  # ambiguous sizes
    Zb = 50. if rng.random() < .3 else logu(rng, .5, 2000)
    src = pick(rng, list(FUN))
    dst = pick(rng, list(FUN[src]))
    M, V, I = stack(rng, src, nf, n, Zb)
    den = {'Z': I, 'Y': V, 'S': V + Zb * I}[dst]
    if max(np.linalg.cond(d) for d in den) > 1e4:
        raise Skip('target does not exist')
    fun = getattr(ctx.rf, FUN[src][dst])
    ctx.desc(function=FUN[src][dst], n=n, nf=nf, Zbase=Zb, M=M)
    for form, arg in forms(rng, M):
        keep = np.array(arg, copy=True)
        if Zb == 50. and rng.random() < .5:
            r = fun(arg)
        elif rng.random() < .5:
            r = fun(arg, Zb)
        else:
            r = fun(arg, Zbase=Zb)
        ctx.ok(np.array_equal(keep, np.array(arg)), 'the argument was modified', form=form)
        ctx.ok(np.shape(r) == np.shape(arg), f'{FUN[src][dst]}: shape of the result', form=form,
               got=np.shape(r), want=np.shape(arg))
        R = np.asarray(r).reshape(nf, n, n)
        relation(ctx, dst, R, V, I, Zb, f'{FUN[src][dst]}: defining relation ({form})')
        back = getattr(ctx.rf, FUN[dst][src])(r, Zb) if src in FUN[dst] else None
        if back is not None:
            sc = max(1, np.abs(R).max() * (Zb if dst == 'Y' else 1 / Zb if dst == 'Z' else 1))
            ctx.close(back, np.array(arg), f'{FUN[src][dst]} and back', tol=1e-6 * sc)
        ctx.ev('rank ' + form.split()[0])
    if n > 1 or nf > 1:
        ctx.nontrivial(src, dst, n, nf, round(Zb), round(abs(M[0, 0, 0]), 4))


def chain(ctx, rng):
    """S -> Z -> S' -> Y -> S'' at several impedances, slices independent"""
    n, nf = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    Z1, Z2 = logu(rng, 1, 500), logu(rng, 1, 500)
    S, V, I = stack(rng, 'S', nf, n, Z1)
    if max(np.linalg.cond(x) for x in [*V, *(V + Z2 * I)]) > 1e4 or max(np.linalg.cond(x) for x in I) > 1e4:
        raise Skip('target does not exist')
    rf = ctx.rf
    Z, Y = rf.Z_from_S(S, Z1), rf.Y_from_S(S, Z1)
    ctx.close(Z @ Y, np.eye(n) + 0 * Z, 'Z Y = 1', tol=1e-7)
    S2, S2y = rf.S_from_Z(Z, Z2), rf.S_from_Y(Y, Z2)
    relation(ctx, 'S', S2, V, I, Z2, 'S at the second impedance through Z')
    relation(ctx, 'S', S2y, V, I, Z2, 'S at the second impedance through Y')
    ctx.close(rf.ConvertGeneral(Z2, S, Z1), S2, 'ConvertGeneral against S -> Z -> S', tol=1e-6)
    k = int(rng.integers(nf))
    for f, a, w in ((rf.Z_from_S, S, Z), (rf.Y_from_S, S, Y)):
        ctx.close(f(a[k], Z1), w[k], f'{f.__name__}: slice alone', tol=1e-9)
        T = a.copy()
        for j in range(nf):
            if j != k:
                T[j] = rand_S(rng, n)
        ctx.close(f(T, Z1)[k], w[k], f'{f.__name__}: slice independent of the others', tol=1e-9)
    for f, a, w in ((rf.S_from_Z, Z, S2), (rf.S_from_Y, Y, S2)):
        ctx.close(f(a[k], Z2), w[k], f'{f.__name__}: slice alone', tol=1e-9)
    # the methods of tables, at the reference impedance of the table (also after it was changed)
    o = rf.rfObject(S[k], Zbase=Z2 if rng.random() < .5 else Z1, ports=[f'p{j}' for j in range(n)])
    if o.Zbase != Z2:
        o.convert2newZbase(Z2)
    for f, a, w in ((o.S_from_Z, Z, S2), (o.S_from_Y, Y, S2)):
        ctx.close(f(a), w, f'rfObject.{f.__name__}', tol=1e-9)
        ctx.close(f(a[k]), w[k], f'rfObject.{f.__name__}: slice alone', tol=1e-9)
        ctx.ev('methods of tables', 2)
    if nf > 1 or n > 1:
        ctx.nontrivial(n, nf, round(Z1), round(Z2))


def vi(ctx, rng):
    """S_from_VI: [V2, I2] = M [V1, I1], I1 leaving and I2 entering the two-port"""
    M = cplx(rng, 2, 2) * np.array([[1, logu(rng, 1, 300)], [1 / logu(rng, 1, 300), 1]])
    if rng.random() < .3:
        M = M.real
    Z0 = 30. if rng.random() < .2 else logu(rng, 1, 500)
    A = np.array([[1, -Z0], [M[0, 0] + Z0 * M[1, 0], M[0, 1] + Z0 * M[1, 1]]])
    if np.linalg.cond(A / [1, Z0]) > 1e5:
        raise Skip('target does not exist')
    S = ctx.rf.S_from_VI(M.tolist() if rng.random() < .3 else M, *([] if Z0 == 30. else [Z0]))
    ctx.desc(M=M, Z0=Z0)
    for _ in range(3):
        v1, i1 = cplx(rng, 2)
        i1 /= Z0
        v2, i2 = M @ [v1, i1]
        a = np.array([v1 - Z0 * i1, v2 + Z0 * i2])
        b = np.array([v1 + Z0 * i1, v2 - Z0 * i2])
        ctx.close(S @ a, b, 'S_from_VI: defining relation', tol=1e-7 * max(1, np.abs(S).max()))
        ctx.ev('VI states checked')
    ctx.nontrivial(round(Z0, 3), round(abs(M[0, 0]), 4))
    ctx.raises(lambda: ctx.rf.S_from_VI(np.eye(3)), 'S_from_VI of a 3x3 matrix')


def shapes(ctx, rng):
    """_check_3D_shape_ and refusal of what is neither"""
    n, nf = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    M = cplx(rng, nf, n, n)
    chk = ctx.rf._check_3D_shape_
    for r, a, w in ((3, M, M), (2, M[0], M[:1]), (1, M[:, 0, 0], M[:, :1, :1]), (0, M[0, 0, 0], M[:1, :1, :1])):
        for x in (a, a.tolist()):
            L, R = chk(x)
            ctx.ok(L == r, 'rank reported', got=L, want=r)
            ctx.same(np.asarray(R), w, 'data put in 3-D')
    for bad in (cplx(rng, n, n + 1), cplx(rng, nf, n, n + 1), cplx(rng, 1, nf, n, n)):
        for f in (chk, ctx.rf.S_from_Z, ctx.rf.S_from_Y, ctx.rf.Z_from_S, ctx.rf.Y_from_S):
            ctx.raises(lambda: f(bad), f'{f.__name__} of data that is not square')
    ctx.desc(n=n, nf=nf)
    ctx.nontrivial(n, nf)


SCENARIOS = [('conv', conv, 6), ('chain', chain, 2), ('vi', vi, 2), ('shapes', shapes, 1)]
MIN_EVENTS = {'methods of tables': 200, 'slices checked': 3000, 'rank 1-D': 100, 'rank scalar': 30, 'rank 2-D': 100, 'VI states checked': 300}
