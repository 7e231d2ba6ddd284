from symx.harness import harness, s_and, s_or
import numpy as np
from symx.util import spd, wrap, sexp, slog
from symx import symnp
import hyperion.utils.math as hm


@harness('P22', configs=[dict(shape=(n,), axis=-1) for n in (1, 2, 3)] +
         [dict(shape=(2, 2), axis=0), dict(shape=(2, 2), axis=-1), dict(shape=(2, 3), axis=1), dict(shape=(3, 2), axis=0)],
         engine=dict(exp_overflow=True),
         bounds='vectors up to 3, matrices up to 2x3, all axes, values up to +-2000')
def softmax_logsumexp(E, shape, axis):
    r = E.real('r', shape, lo=-2000, hi=2000)
    r0 = r.copy()
    p = hm.softmax(r, axis=axis)
    E.same('input untouched', r, r0)
    E.eq('sums to one', p.sum(axis=axis), np.ones(p.sum(axis=axis).shape))
    E.claim('positive', p > 0) if E.symbolic else E.claim('positive', p >= 0)
    # ratio p_i / p_j = exp(r_i - r_j)
    pm, rm = np.moveaxis(np.asarray(p), axis, -1), np.moveaxis(np.asarray(r), axis, -1)
    if E.symbolic or np.max(np.abs(r)) < 30:
        for i in range(pm.shape[-1]):
            E.eq('ratio', pm[..., i], pm[..., 0] * sexp(E, rm[..., i] - rm[..., 0]))
    l = hm.logsumexp(r, axis=axis)
    E.same('input untouched', r, r0)
    E.claim('shape', np.shape(l) == rm.shape[:-1])
    E.reach()
    # logsumexp >= max, and exact up to the documented 1e-20 floor
    m = np.moveaxis(np.asarray(r), axis, -1)
    lf = np.asarray(l).reshape(-1)
    ml = m.reshape(-1, m.shape[-1])
    for k in range(len(ml)):
        mx = ml[k][0]
        for v in ml[k][1:]:
            if v > mx:
                mx = v
        tot = sum(sexp(E, v - mx) for v in ml[k])
        E.eq('logsumexp', sexp(E, lf[k] - mx), tot)


@harness('P22', configs=[dict(d=d) for d in (1, 2, 3)], bounds='positive definite matrices up to 3x3')
def pdmat_inversion(E, d):
    A, L = spd(E, 'L', d)
    A0 = A.copy()
    x = E.real('x', (d, 2))
    y = E.real('y', (2, d))
    f, R, logdet, iA = hm.invert_pdmat(A, return_logdet=True, return_inv=True)
    E.reach()
    E.same('input untouched', A, A0)
    E.eq('A inv(A) = I', A.dot(iA), np.eye(d))
    E.eq('A f(x) = x', A.dot(f(x)), x)
    E.eq('R^T R = A', R.T.dot(R), A)
    ld = sum(slog(E, L[i, i]) for i in range(d)) * 2
    E.eq('logdet', logdet, ld)
    E.eq('logdet_pdmat', hm.logdet_pdmat(A), ld)
    g = hm.invert_pdmat(A, right_inv=True)[0]
    E.eq('g(y) A = y', g(y).dot(A), y)
    r = hm.invert_pdmat(A, return_inv=True)
    E.claim('arity', len(r) == 3)
    E.eq('inv only', r[2], iA)
    E.claim('arity', len(hm.invert_pdmat(A, return_logdet=True)) == 3 and len(hm.invert_pdmat(A)) == 2)


@harness('P22', configs=[dict(d=d, lower=l) for d in (1, 2, 3) for l in (False, True)],
         bounds='triangular matrices up to 3x3 with positive diagonal')
def trimat_inversion(E, d, lower):
    L = spd(E, 'L', d)[1]
    A = L if lower else L.T
    A = wrap(A) if E.symbolic else A
    x = E.real('x', (d, 2))
    y = E.real('y', (2, d))
    f, logdet, iA = hm.invert_trimat(A, lower=lower, return_logdet=True, return_inv=True)
    E.eq('A inv(A)=I', A.dot(iA), np.eye(d))
    E.eq('A f(x)=x', A.dot(f(x)), x)
    E.eq('logdet', logdet, sum(slog(E, L[i, i]) for i in range(d)))
    g = hm.invert_trimat(A, lower=lower, right_inv=True)
    E.eq('g(y)A=y', g(y).dot(A), y)
    E.reach()


@harness('P22', configs=[dict(d=d, lower=l) for d in (1, 2, 3, 4) for l in (False, True)],
         bounds='matrices up to 4x4')
def triangular_vectors(E, d, lower):
    n = d * (d + 1) // 2
    v = E.real('v', (n,))
    A = hm.vec2symmat(v, lower=lower)
    E.claim('shape', A.shape == (d, d))
    E.eq('symmetric', A, A.T)
    E.eq('round trip', hm.symmat2vec(A, lower=lower), v)
    A0 = A.copy()
    E.eq('diag factor round trip', hm.vec2symmat(hm.symmat2vec(A, lower=lower, diag_factor=2), lower=lower, diag_factor=0.5), A)
    E.eq('no side effect', A, A0)
    # element order: row by row over the requested triangle
    k = 0
    for i in range(d):
        for j in (range(i + 1) if lower else range(i, d)):
            E.eq('order', A[i, j], v[k])
            k += 1
    T = hm.vec2trimat(v, lower=lower)
    E.eq('tri round trip', hm.trimat2vec(T, lower=lower), v)
    k = 0
    for i in range(d):
        for j in range(d):
            inside = j <= i if lower else j >= i
            E.eq('tri element', T[i, j], v[k] if inside else 0.0)
            k += int(inside)
    E.reach()


@harness('P22', configs=[dict(n=1), dict(n=2), dict(n=3)], bounds='vectors up to 3')
def sigmoids(E, n):
    x = E.real('x', (n,), lo=-600, hi=600)
    x0 = x.copy()
    p, lp, nlp = hm.sigmoid(x), hm.logsigmoid(x), hm.neglogsigmoid(x)
    E.same('input untouched', x, x0)
    E.eq('neg', lp, -nlp)
    E.reach()
    for i in range(n):
        if x[i] >= -100:
            if E.symbolic or abs(x[i]) < 30:
                e = sexp(E, x[i])
                E.eq('sigmoid', p[i] * (1 + e), e)
                E.eq('log', sexp(E, lp[i]), p[i])
        else:
            E.eq('saturated', p[i], 0.)
            E.eq('saturated log', lp[i], x[i])


@harness('P22', configs=[dict(d=1), dict(d=2)], bounds='dimension up to 2')
def fisher(E, d):
    A, _ = spd(E, 'A', d)
    B, _ = spd(E, 'B', d)
    m1, m2 = E.real('m1', (d,)), E.real('m2', (d,))
    r = hm.fisher_ratio(m1, A, m2, B)
    C = A + B
    dl = m1 - m2
    if d == 1:
        exp = dl[0] * dl[0] / C[0, 0]
    else:
        det = C[0, 0] * C[1, 1] - C[0, 1] * C[1, 0]
        exp = (dl[0] * dl[0] * C[1, 1] - 2 * dl[0] * dl[1] * C[0, 1] + dl[1] * dl[1] * C[0, 0]) / det
    E.eq('fisher', r, exp)
    E.reach()


@harness('P22', configs=[dict(n=n, m=m) for n in (1, 2, 3) for m in (1, 2, 3, None)], bounds='up to 3 ids, 3 classes')
def onehot(E, n, m):
    mm = m if m is not None else 3
    c = np.array([E.choice('c%d' % i, mm) for i in range(n)])
    p = hm.int2onehot(c, m)
    E.reach()
    k = m if m is not None else int(max(c)) + 1
    E.claim('shape', p.shape == (n, k))
    for i in range(n):
        for j in range(k):
            E.eq('onehot', p[i, j], 1.0 if c[i] == j else 0.0)


@harness('P22', configs=[dict(d=d, mat=m, lower=l, form=f) for d in (1, 2) for m in (0, 1) for l in (0, 1) for f in ('cov', 'chol', 'cov_of_chol') if not (f == 'cov_of_chol' and not m) and not (f == 'cov' and l)],
         bounds='1 and 2 dimensions, any floor and any covariance')
def variance_floor(E, d, mat, lower, form):
    """the floored covariance has the same directions, relative to the floor, and no variance below it"""
    if d == 2:
        t = E.real('t', lo=-4, hi=4)
        c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
        U = wrap(np.array([[c, -s], [s, c]]))
    else:
        U = wrap(np.array([[E.real('one', lo=1, hi=1) * 0 + 1]]))
    e = E.real('e', d, lo=0.125, hi=4)
    if d == 2:
        E.assume(e[0] > e[1])
    if mat:
        F, L = spd(E, 'f', d)
    else:
        F = E.real('f', pos=True)
        L = wrap(np.eye(d) * F)
    R = wrap(np.asarray(L).T)                            # upper factor of the floor
    V = e * e
    T = wrap((np.asarray(U) * V).dot(np.asarray(U).T))
    fl = np.array([E_max(v) for v in V])
    if form == 'cov':
        S = wrap(np.asarray(R).T.dot(T).dot(R)) if mat else T * F
        want = wrap(np.asarray(R).T.dot((np.asarray(U) * fl).dot(np.asarray(U).T)).dot(R)) if mat else wrap((np.asarray(U) * fl).dot(np.asarray(U).T)) * F
    else:
        S = wrap(np.asarray(R).T.dot(T).dot(R))
        want = wrap(np.asarray(R).T.dot((np.asarray(U) * fl).dot(np.asarray(U).T)).dot(R))
    if E.symbolic:
        symnp.EIGS.append((T, None, U, list(V)))
    try:
        if form == 'cov':
            got = hm.fullcov_varfloor(S, F)
        elif form == 'cov_of_chol':
            got = hm.fullcov_varfloor(S, L if lower else R, F_is_chol=True, lower=bool(lower))
        else:
            G = wrap((np.asarray(U) * e).T.dot(R))          # G^T G = S
            if not E.symbolic:
                G = np.linalg.cholesky(S).T
            G0 = G.copy()
            C = hm.fullcov_varfloor_from_cholS(G.T if lower else G, (L if lower else R) if mat else F, lower=bool(lower))
            E.same('input untouched', G, G0)
            if d == 2:
                E.eq('triangular', C[0, 1] if lower else C[1, 0], 0)
            for i in range(d):
                E.claim('positive diagonal', C[i, i] > 0)
            got = wrap(np.asarray(C).dot(np.asarray(C).T) if lower else np.asarray(C).T.dot(np.asarray(C)))
    finally:
        if E.symbolic:
            symnp.EIGS.pop()
    E.reach()
    E.eq('floored', got, want)


def E_max(v):
    return v if v > 1 else v * 0 + 1
