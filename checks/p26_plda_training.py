"""PLDA training: posteriors, objective, EM updates, sampling, averaging and persistence"""
import numpy as np
from symx.harness import harness, s_and, s_or
from symx.util import sexp, slog, ssqrt, wrap, array, zeros, spd, inv
from symx.pldalib import plda, pd, quad, ginv, gdet
from symx.fakeh5 import patch_h5
from hyperion.pdfs.plda import FRPLDA, SPLDA, PLDA

LOG2PI = float(np.log(2 * np.pi))
CLS = dict(fr=FRPLDA, s=SPLDA, p=PLDA)
KINDS = ('fr', 's', 'p')
COUNTS = [(1.,), (2., 1.), (1., 3., 1.), (1.5, 0.25)]


def tri(E, S):
    return ginv(E, S)


def free_stats(E, N, d):
    F = E.real('F', (len(N), d), lo=-5, hi=5)
    S = zeros(E, (d, d))
    for i in range(d):
        for j in range(i + 1):
            S[i, j] = S[j, i] = E.real('S%d%d' % (i, j), lo=-50, hi=50)
    return np.array(N), F, S


@harness('P26', configs=[dict(kind=k, N=n, d=d) for k in KINDS for n in COUNTS for d in (1, 2) if not (d == 2 and (k == 'p' or len(n) == 3))],
         bounds='up to 3 classes with fixed (integer or fractional) counts, dimension up to 2, one-dimensional factors for SPLDA/PLDA; arbitrary statistics')
def posterior(E, kind, N, d):
    o = plda(E, kind, d)
    D = free_stats(E, N, d)
    F0, S0 = D[1].copy(), D[2].copy()
    y = o.m.compute_py_g_x(D)
    y2, C = o.m.compute_py_g_x(D, return_cov=True)[:2]
    E.reach()
    E.same('statistics', D[1], F0)
    E.same('statistics', D[2], S0)
    E.claim('counts', list(D[0]) == list(N))
    W = ginv(E, o.Sw)
    for i, n in enumerate(N):
        if kind == 'fr':
            L = o.B + n * W
            g = np.asarray(W).dot(np.asarray(D[1][i])) + np.asarray(o.B).dot(np.asarray(o.mu))
        else:
            V = np.asarray(o.V)
            L = wrap(V.dot(np.asarray(W)).dot(V.T) * n)
            for k in range(len(V)):
                L[k, k] = L[k, k] + 1
            g = V.dot(np.asarray(W)).dot(np.asarray(D[1][i]) - np.asarray(o.mu) * n)
        P = ginv(E, L)
        want = np.asarray(P).dot(g)
        E.eq('posterior mean', y[i], want)
        E.eq('posterior mean', y2[i], want)
        E.eq('posterior covariance', C[i], P)


@harness('P26', configs=[dict(kind=k, n=n) for k in KINDS for n in ((1,), (1, 1), (2,), (3, 1), (2, 1, 1))],
         bounds='up to 4 samples of dimension 1 in up to 3 classes')
def objective(E, kind, n):
    """the lower bound is exact: the log likelihood of the data"""
    o = plda(E, kind, 1)
    ids = np.array([c for c, k in enumerate(n) for _ in range(k)])
    x = E.real('x', (len(ids), 1), lo=-3, hi=3)
    D = o.m.compute_stats_hard(x, ids)
    e = o.m.elbo(o.m.Estep(D))
    E.reach()
    q, det = 0, 1
    for c, k in enumerate(n):
        xs = [x[i, 0] for i in range(len(ids)) if ids[i] == c]
        mean = sum(xs) / k
        Sw, Sb = o.Sw[0, 0], o.Sb[0, 0]
        q = q + sum((v - mean) ** 2 for v in xs) / Sw + k * (mean - o.mu[0]) ** 2 / (Sw + k * Sb)
        det = det * Sw ** (k - 1) * (Sw + k * Sb)
    N = len(ids)
    if E.symbolic:
        E.eq('log likelihood', sexp(E, 2 * e + N * LOG2PI + q) * det, 1)
    else:
        E.eq('log likelihood', e, -0.5 * (N * LOG2PI + q + np.log(det)))


def data_with_posterior(E, o, N):
    """statistics (dimension 1) with any posterior means: F, means, variances"""
    M = len(N)
    yh = E.real('y', M, lo=-3, hi=3)
    W, mu = 1 / o.Sw[0, 0], o.mu[0]
    F, P = zeros(E, (M, 1)), []
    if o.kind != 'fr':
        E.assume(s_or(o.V[0, 0] > 0.05, o.V[0, 0] < -0.05))
    for i, n in enumerate(N):
        if o.kind == 'fr':
            L = o.B[0, 0] + n * W
            F[i, 0] = (L * yh[i] - o.B[0, 0] * mu) / W
        else:
            L = 1 + n * o.V[0, 0] ** 2 * W
            F[i, 0] = n * mu + L * yh[i] / (o.V[0, 0] * W)
        P.append(1 / L)
    return F, yh, P


@harness('P26', configs=[dict(N=n, um=um, ub=ub, uw=uw, full=f) for n in COUNTS for um in (0, 1) for ub in (0, 1) for uw in (0, 1) for f in (0, 1) if f or n == COUNTS[1]],
         bounds='dimension 1, up to 3 classes; every combination of update switches')
def fr_update(E, N, um, ub, uw, full):
    o = plda(E, 'fr', 1, update_mu=bool(um), update_B=bool(ub), update_W=bool(uw), fullcov_W=bool(full))
    m = o.m
    p0 = {k: v.copy() for k, v in o.par.items()}
    F, y, P = data_with_posterior(E, o, N)
    M, Nt = len(N), sum(N)
    w = E.real('w', lo=0.1, hi=10)
    S = zeros(E, (1, 1))
    S[0, 0] = Nt * w + sum(2 * F[i, 0] * y[i] - N[i] * (y[i] * y[i] + P[i]) for i in range(M))
    st = m.Estep((np.array(N), F, S))
    m.MstepML(st)
    E.reach()
    for k, v in o.par.items():
        E.same('given arrays', v, p0[k])
    nm = sum(y) / M if um else o.mu[0]
    E.eq('mean', m.mu, [nm])
    E.eq('between class precision', m.B[0, 0] * sum(P[i] + (y[i] - nm) * (y[i] - nm) for i in range(M)) if ub else m.B[0, 0], M if ub else o.B[0, 0])
    E.eq('within class precision', m.W[0, 0] * w if uw else m.W[0, 0], 1 if uw else o.W[0, 0])
    E.claim('shape', m.mu.shape == (1,) and m.B.shape == (1, 1) and m.W.shape == (1, 1))
    B, W, mu = m.B, m.W, m.mu
    m.MstepMD(st)
    E.claim('no minimum divergence step', m.B is B and m.W is W and m.mu is mu)


@harness('P26', configs=[dict(N=n, um=um, uv=uv, uw=uw, full=f) for n in COUNTS for um in (0, 1) for uv in (0, 1) for uw in (0, 1) for f in (0, 1) if f or n == COUNTS[1]],
         bounds='dimension 1, up to 3 classes; every combination of update switches')
def s_update(E, N, um, uv, uw, full):
    o = plda(E, 's', 1, update_mu=bool(um), update_V=bool(uv), update_W=bool(uw), fullcov_W=bool(full))
    m = o.m
    p0 = {k: v.copy() for k, v in o.par.items()}
    F, y, P = data_with_posterior(E, o, N)
    M, Nt = len(N), sum(N)
    Ry1 = sum(N[i] * y[i] for i in range(M))
    Ry = sum(N[i] * (y[i] * y[i] + P[i]) for i in range(M))
    Cy = sum(F[i, 0] * y[i] for i in range(M))
    Fs = sum(F[i, 0] for i in range(M))
    # weighted least squares of the data on the factor
    dt = Nt * Ry - Ry1 * Ry1
    V, mu = o.V[0, 0], o.mu[0]
    if um and uv:
        V, mu = (Nt * Cy - Ry1 * Fs) / dt, (Ry * Fs - Ry1 * Cy) / dt
    elif uv:
        V = (Cy - Ry1 * mu) / Ry
    elif um:
        mu = (Fs - Ry1 * V) / Nt
    w = E.real('w', lo=0.1, hi=10)
    S = zeros(E, (1, 1))
    S[0, 0] = Nt * w + 2 * V * Cy + 2 * mu * Fs - V * V * Ry - 2 * mu * V * Ry1 - Nt * mu * mu
    m.MstepML(m.Estep((np.array(N), F, S)))
    E.reach()
    for k, v in o.par.items():
        E.same('given arrays', v, p0[k])
    E.eq('factor', m.V, [[V]])
    E.eq('mean', m.mu, [mu])
    E.eq('within class precision', m.W[0, 0] * w if uw else m.W[0, 0], 1 if uw else o.W[0, 0])
    E.claim('shape', m.mu.shape == (1,) and m.V.shape == (1, 1) and m.W.shape == (1, 1))


@harness('P26', configs=[dict(N=n, um=um, uv=uv) for n in COUNTS for um in (0, 1) for uv in (0, 1)], bounds='dimension 1, up to 3 classes')
def s_minimum_divergence(E, N, um, uv):
    o = plda(E, 's', 1, update_mu=bool(um), update_V=bool(uv))
    m = o.m
    p0 = {k: v.copy() for k, v in o.par.items()}
    F, y, P = data_with_posterior(E, o, N)
    M = len(N)
    S = E.real('S', (1, 1))
    m.MstepMD(m.Estep((np.array(N), F, S)))
    E.reach()
    for k, v in o.par.items():
        E.same('given arrays', v, p0[k])
    a = sum(y) / M
    c = sum(P[i] + y[i] * y[i] for i in range(M)) / M - a * a
    E.eq('mean', m.mu, [o.mu[0] + (a * o.V[0, 0] if um else 0)])
    E.eq('between class covariance', m.V[0, 0] * m.V[0, 0], o.V[0, 0] * o.V[0, 0] * (c if uv else 1))
    E.eq('precision', m.W, o.W)


@harness('P26', configs=[dict(N=n) for n in COUNTS], bounds='dimension 1, one-dimensional factors; one class with a fixed mean, or up to 3 classes with fixed model parameters')
def p_statistics(E, N):
    """the second order statistics of the two factors: seen through a maximum likelihood update of each parameter alone"""
    par = None
    for upd in ('mu', 'V', 'U'):
        if par is None:
            num = dict(mu=0.5) if len(N) == 1 else dict(mu=0.5, V=1.5, U=-0.75, D=2.0)
            o = plda(Fixed(E, num), 'p', 1, update_mu=True, update_V=False, update_U=False, update_D=False)
            par = o.par
            mu, V, U, d = o.mu[0], o.V[0, 0], o.U[0, 0], o.D[0]
            F, y, P = data_with_posterior(E, o, N)
            S = E.real('S', (1, 1), lo=0, hi=50)
            S2 = S[0, 0] + sum(F[i, 0] * F[i, 0] / N[i] for i in range(len(N)))
            m = o.m
        else:
            m = PLDA(mu=par['mu'], V=par['V'], U=par['U'], D=par['D'], update_mu=False, update_V=upd == 'V', update_U=upd == 'U', update_D=False)
            E.claim('initialized', m.is_init)
        m.MstepML(m.Estep((np.array(N), F, array(E, [[S2]]))))
        M, Nt = len(N), sum(N)
        Lz = 1 + U * U * d
        a = U * d / Lz
        b = a * V
        Fs = sum(F[i, 0] for i in range(M))
        Ry1 = sum(N[i] * y[i] for i in range(M))
        Ry = sum(N[i] * (y[i] * y[i] + P[i]) for i in range(M))
        Cy = sum(F[i, 0] * y[i] for i in range(M))
        Rz1 = a * (Fs - Nt * mu) - b * Ry1
        Cz = a * (S2 - Fs * mu) - b * Cy
        Cb = Cy - mu * Ry1
        Ryz = a * Cb - b * Ry
        Sc = S2 - 2 * mu * Fs + Nt * mu * mu
        Rz = a * a * Sc - 2 * a * b * Cb + b * b * Ry + Nt / Lz
        if upd == 'mu':
            E.eq('mean', m.mu[0] * Nt, Fs - Ry1 * V - Rz1 * U)
        E.eq('factor V', m.V[0, 0] * (Ry if upd == 'V' else 1), Cy - Ry1 * mu - Ryz * U if upd == 'V' else V)
        E.eq('factor U', m.U[0, 0] * (Rz if upd == 'U' else 1), Cz - Ryz * V - Rz1 * mu if upd == 'U' else U)
    E.reach()


def p_stats(E, N):
    """any sufficient statistics of one-dimensional data and factors"""
    A, L = spd(E, 'R', 3)
    L[2, 2]
    R = lambda i, j: A[i, j]     # noqa
    Cy, Cz = E.real('Cy', (1, 1), lo=-9, hi=9), E.real('Cz', (1, 1), lo=-9, hi=9)
    F = E.real('F', 1, lo=-9, hi=9)
    Nt = R(2, 2)
    y = E.real('ym', 1, lo=-3, hi=3)
    return A, Cy, Cz, F, Nt, y


@harness('P26', configs=[dict(um=um, uv=uv, uu=uu, ud=ud) for um in (0, 1) for uv in (0, 1) for uu in (0, 1) for ud in (0, 1)],
         bounds='dimension 1 with arbitrary consistent statistics; every combination of update switches')
def p_update(E, um, uv, uu, ud):
    o = plda(E, 'p', 1, update_mu=bool(um), update_V=bool(uv), update_U=bool(uu), update_D=bool(ud), floor_iD=0.01)
    m = o.m
    E.claim('initialized', m.is_init)
    p0 = {k: v.copy() for k, v in o.par.items()}
    A, Cy, Cz, F, Nt, y = p_stats(E, 1)
    c = [Cy[0, 0], Cz[0, 0], F[0]]
    upd = [i for i, f in enumerate((uv, uu, um)) if f]
    p = [o.V[0, 0], o.U[0, 0], o.mu[0]]
    fixed = [i for i in range(3) if i not in upd]
    if upd:
        Q = ginv(E, A[np.ix_(upd, upd)])
        r = [c[i] - sum(A[i, j] * p[j] for j in fixed) for i in upd]
        for k, i in enumerate(upd):
            p[i] = sum(Q[k, j] * r[j] for j in range(len(upd)))
    w = E.real('w', lo=0.001, hi=10)
    S = Nt * w + 2 * sum(c[i] * p[i] for i in range(3)) - sum(p[i] * A[i, j] * p[j] for i in range(3) for j in range(3))
    a1 = lambda v: array(E, [v])       # noqa
    a2 = lambda v: array(E, [[v]])     # noqa
    stats = (Nt, 2, F, a2(S), 0., y, a1(A[0, 2]), a2(A[0, 0]), Cy, a2(A[0, 0]), a1(A[1, 2]), a2(A[1, 1]), a2(A[0, 1]), Cz)
    m.MstepML(stats)
    E.reach()
    for k, v in o.par.items():
        E.same('given arrays', v, p0[k])
    E.eq('factor V', m.V, [[p[0]]])
    E.eq('factor U', m.U, [[p[1]]])
    E.eq('mean', m.mu, [p[2]])
    E.claim('shapes', m.V.shape == (1, 1) and m.U.shape == (1, 1) and m.mu.shape == (1,) and m.D.shape == (1,))
    if ud:
        E.claim('residual precision', s_or(s_and(w >= 0.01, m.D[0] * w == 1), s_and(w < 0.01, m.D[0] * 0.01 == 1)) if E.symbolic else abs(m.D[0] * max(w, 0.01) - 1) < 1e-6)
    else:
        E.eq('residual precision', m.D, o.D)


@harness('P26', configs=[dict(what=w) for w in ('ml', 'md', 'avg')], bounds='dimension 1, one-dimensional factors')
def p_derived(E, what):
    """after an update scores are those of a fresh model with the new parameters"""
    o = plda(E, 'p', 1, update_V=what != 'ml', update_U=what != 'ml')
    m = o.m
    E.claim('initialized', m.is_init)
    A, Cy, Cz, F, Nt, y = p_stats(E, 1)
    if what == 'avg':
        q = PLDA(mu=E.real('mu2', 1, lo=-3, hi=3), V=E.real('V2', (1, 1), lo=-3, hi=3), U=E.real('U2', (1, 1), lo=-3, hi=3), D=E.real('D2', 1, lo=0.1, hi=8))
        q.is_init
        m.weighted_avg_model(q, 0.5, 0.25, 0.75)
    else:
        a1 = lambda v: array(E, [v])       # noqa
        a2 = lambda v: array(E, [[v]])     # noqa
        w = E.real('w', lo=0.1, hi=10)
        R1 = A[0, 2] * A[0, 2] / Nt
        if what == 'ml':
            V, U = o.V[0, 0], o.U[0, 0]
            mu = (F[0] - A[0, 2] * V - A[1, 2] * U) / Nt
            p, c = [V, U, mu], [Cy[0, 0], Cz[0, 0], F[0]]
            S = Nt * w + 2 * sum(c[i] * p[i] for i in range(3)) - sum(p[i] * A[i, j] * p[j] for i in range(3) for j in range(3))
        else:
            S = w
        Py = 2 * (y[0] * y[0] / 4 + w)
        m_ = m.MstepML if what == 'ml' else m.MstepMD
        m_((Nt, 2, F, a2(S), 0., y, a1(A[0, 2]), a2(A[0, 0]), Cy, a2(Py), a1(A[1, 2]), a2(A[1, 1]), a2(A[0, 1]), Cz))
    n = PLDA(mu=m.mu, V=m.V, U=m.U, D=m.D)
    E.claim('initialized', n.is_init)
    E.reach()
    for k in ('_W', '_VW', '_VWV', '_Lz', '_DU'):
        if hasattr(n, k):
            E.eq('derived ' + k, getattr(m, k), getattr(n, k))


@harness('P26', bounds='dimension 1, one-dimensional factors, arbitrary consistent statistics')
def p_minimum_divergence(E):
    o = plda(E, 'p', 1)
    m = o.m
    E.claim('initialized', m.is_init)
    p0 = {k: v.copy() for k, v in o.par.items()}
    A, Cy, Cz, F, Nt, y = p_stats(E, 1)
    cy = E.real('cy', lo=0.1, hi=4)
    mean = y[0] / 2
    Py = 2 * (mean * mean + cy)
    a1 = lambda v: array(E, [v])       # noqa
    a2 = lambda v: array(E, [[v]])     # noqa
    m.MstepMD((Nt, 2, F, a2(E.real('S')), 0., y, a1(A[0, 2]), a2(A[0, 0]), Cy, a2(Py), a1(A[1, 2]), a2(A[1, 1]), a2(A[0, 1]), Cz))
    E.reach()
    for k, v in o.par.items():
        E.same('given arrays', v, p0[k])
    # linear regression of the channel factor on the class factor
    H = (A[0, 1] - A[0, 2] * A[1, 2] / Nt) / (A[0, 0] - A[0, 2] * A[0, 2] / Nt)
    mz = (A[1, 2] - H * A[0, 2]) / Nt
    cz = (A[1, 1] - 2 * H * A[0, 1] + H * H * A[0, 0]) / Nt - mz * mz
    V, U = o.V[0, 0], o.U[0, 0]
    E.eq('mean', m.mu, [o.mu[0] + mean * (V + H * U) + mz * U])
    E.eq('between class covariance', m.V[0, 0] * m.V[0, 0], (V + H * U) * (V + H * U) * cy)
    E.eq('channel covariance', m.U[0, 0] * m.U[0, 0], U * U * cz)
    E.eq('residual', m.D, o.D)


@harness('P26', configs=[dict(kind=k, w=w, d=d) for k in KINDS for w in ((0., 0., 0.), (0.5, 0.25, 0.75), (1., 1., 1.), (0.25, 0., 0.5), (0., 0.5, 0.)) for d in (1, 2) if not (d == 2 and k != 'fr')],
         bounds='dimension up to 2 (1 for SPLDA and PLDA)')
def average(E, kind, w, d):
    o, p = plda(E, kind, d), None
    E.claim('initialized', o.m.is_init)
    p0 = {k: v.copy() for k, v in o.par.items()}
    E2 = Prefix(E, 'q')
    p = plda(E2, kind, d)
    o.m.weighted_avg_model(p.m, *w)
    E.reach()
    for k, v in o.par.items():
        E.same('given arrays', v, p0[k])
    m = o.m
    E.eq('mean', m.mu, [w[0] * p.mu[i] + (1 - w[0]) * o.mu[i] for i in range(d)])
    if kind == 'fr':
        for nm, X, a, b, t in (('between', m.B, o.Sb, p.Sb, w[1]), ('within', m.W, o.Sw, p.Sw, w[2])):
            E.eq(nm + ' class covariance', ginv(E, X), t * b + (1 - t) * a)
        return
    E.eq('between class covariance', wrap(np.asarray(m.V).T.dot(np.asarray(m.V))), w[1] * p.Sb + (1 - w[1]) * o.Sb)
    if kind == 's':
        E.eq('within class covariance', ginv(E, m.W), w[2] * p.Sw + (1 - w[2]) * o.Sw)
    elif w[2] == 0:
        E.eq('channel', m.U, o.U)
        E.eq('residual', m.D, o.D)
    else:
        # the one-dimensional channel factor takes all but the floor of the residual
        E.eq('within class covariance', m.U[0, 0] * m.U[0, 0], w[2] * p.Sw[0, 0] + (1 - w[2]) * o.Sw[0, 0])
        E.eq('residual', m.D[0] * m.floor_iD, 1)


@harness('P26', configs=[dict(ax=ax, w=w) for ax in (0, 1) for w in ((0.5, 0.25, 0.75), (0., 0.5, 0.), (0., 0., 0.5))], bounds='dimension 2, factors along one axis, one-dimensional channel')
def average_in_two_dimensions(E, ax, w):
    """the factors keep the directions of largest variance"""
    def one(nm):
        v, u = E.real(nm + 'v', lo=0.1, hi=3), E.real(nm + 'u', lo=0.1, hi=3)
        mu, D = E.real(nm + 'mu', 2, lo=-3, hi=3), E.real(nm + 'D', 2, lo=0.1, hi=8)
        e = lambda x: array(E, [[x if i == ax else 0 * x for i in range(2)]])      # noqa
        return v, u, mu, D, PLDA(mu=mu, V=e(v), U=e(u), D=D)
    v1, u1, mu1, D1, m = one('a')
    v2, u2, mu2, D2, q = one('b')
    E.claim('initialized', m.is_init and q.is_init)
    sw = [w[2] * (1 / D2[i] + (u2 * u2 if i == ax else 0)) + (1 - w[2]) * (1 / D1[i] + (u1 * u1 if i == ax else 0)) for i in range(2)]
    E.assume(s_or(sw[0] > sw[1] + 0.01, sw[1] > sw[0] + 0.01))
    m.weighted_avg_model(q, *w)
    E.reach()
    E.eq('mean', m.mu, array(E, [w[0] * mu2[i] + (1 - w[0]) * mu1[i] for i in range(2)]))
    Sb = wrap(np.asarray(m.V).T.dot(np.asarray(m.V)))
    E.eq('between class covariance', Sb, array(E, [[w[1] * v2 * v2 + (1 - w[1]) * v1 * v1 if i == j == ax else 0 for j in range(2)] for i in range(2)]))
    if w[2] == 0:
        E.eq('channel', m.U[0, ax], u1)
        E.eq('residual', m.D, D1)
        return
    big = 0 if sw[0] > sw[1] else 1
    E.eq('channel variance', m.U[0, big] * m.U[0, big], sw[big])
    E.eq('channel direction', m.U[0, 1 - big], 0)
    E.eq('residual of the channel', m.D[big] * m.floor_iD, 1)
    f = sw[1 - big] if sw[1 - big] > m.floor_iD else m.floor_iD
    E.eq('residual', m.D[1 - big] * f, 1)


@harness('P26', configs=[dict(kind=k, t=t) for k in ('s', 'p') for t in (0.5, 1.)], bounds='dimension 2, two factors along the axes')
def average_of_two_factors(E, kind, t):
    """the between class covariance of several factors is the average, by dimension"""
    def one(nm):
        v = E.real(nm + 'v', 2, lo=0.1, hi=3)
        V = array(E, [[v[0], 0 * v[0]], [0 * v[1], v[1]]])
        mu = np.array([0.5, -1.])
        return v, (SPLDA(mu=mu, V=V, W=np.diag([2., 0.5])) if kind == 's' else PLDA(mu=mu, V=V, U=np.array([[0.5, 0.]]), D=np.array([2., 4.])))
    v1, m = one('a')
    v2, q = one('b')
    E.claim('initialized', m.is_init and q.is_init)
    b = [t * v2[i] * v2[i] + (1 - t) * v1[i] * v1[i] for i in range(2)]
    E.assume(s_or(b[0] > b[1] + 0.01, b[1] > b[0] + 0.01))
    m.weighted_avg_model(q, 0., t, 0.)
    E.reach()
    Sb = wrap(np.asarray(m.V).T.dot(np.asarray(m.V)))
    E.eq('between class covariance', Sb, array(E, [[b[i] if i == j else 0 for j in range(2)] for i in range(2)]))


class Fixed(object):
    """some inputs with a fixed value"""
    def __init__(self, E, num):
        self._E, self._n = E, num

    def real(self, name, shape=None, **k):
        if name in self._n:
            return array(self._E, np.full(shape, self._n[name]))
        return self._E.real(name, shape, **k)

    def __getattr__(self, k):
        return getattr(self._E, k)


class Prefix(object):
    """inputs with another name"""
    def __init__(self, E, p):
        self._E, self._p = E, p

    def real(self, name, *a, **k):
        return self._E.real(self._p + name, *a, **k)

    def __getattr__(self, k):
        return getattr(self._E, k)


@harness('P26', configs=[dict(n=n, d=d, y=y) for n, d in (((1, 1), 1), ((2, 1), 1), ((2, 3), 1), ((2, 2), 2)) for y in (0, 1) if not (y and d == 2)], bounds='up to 5 samples in two classes, dimension up to 2')
def fr_initialize(E, n, d, y):
    """first model: averages of class means, their covariance and the within class covariance"""
    m = FRPLDA()
    M = 2
    z = E.real('y', (M, d), lo=-3, hi=3)
    C, L = spd(E, 'C', d)
    Nt = sum(n)
    F = array(E, [[n[i] * z[i, k] for k in range(d)] for i in range(M)])
    if d == 2:
        return two_dim(E, m, n)
    E.assume(s_or(z[0, 0] - z[1, 0] > 0.01, z[0, 0] - z[1, 0] < -0.01))
    S = array(E, [[Nt * C[i, j] + sum(n[c] * z[c, i] * z[c, j] for c in range(M)) for j in range(d)] for i in range(d)])
    m.initialize((np.array(n, dtype=float), F, S))
    E.reach()
    E.claim('dimensions', m.x_dim == d and m.y_dim == d and m.is_init)
    E.eq('mean', m.mu, [(z[0, 0] + z[1, 0]) / 2])
    E.eq('between class', m.B[0, 0] * (z[0, 0] - z[1, 0]) ** 2, 4)
    E.eq('within class', m.W[0, 0] * C[0, 0], 1)


def two_dim(E, m, n):
    """three classes placed on the axes so that the class means span the plane"""
    a, b = E.real('a', lo=0.1, hi=3), E.real('b', lo=0.1, hi=3)
    u = E.real('u', 2, lo=-3, hi=3)
    z = [[u[0] + a, u[1]], [u[0] - a, u[1]], [u[0], u[1] + b], [u[0], u[1] - b]]
    n = [1., 2., 1., 4.]
    C, L = spd(E, 'C2', 2)
    F = array(E, [[n[i] * z[i][k] for k in range(2)] for i in range(4)])
    S = array(E, [[8 * C[i, j] + sum(n[c] * z[c][i] * z[c][j] for c in range(4)) for j in range(2)] for i in range(2)])
    m.initialize((np.array(n), F, S))
    E.reach()
    E.eq('mean', m.mu, u)
    E.eq('between class', m.B, array(E, [[2 / (a * a), 0 * a], [0 * a, 2 / (b * b)]]))
    E.eq('within class', wrap(np.asarray(m.W).dot(np.asarray(C))), [[1, 0], [0, 1]])


@harness('P26', configs=[dict(kind=k, d=d) for k in KINDS for d in (1, 2)], bounds='2 classes of 2 samples, dimension up to 2, one-dimensional factors')
def sampling(E, kind, d):
    """samples are mean + class term + residual, with the covariances of the model"""
    if kind == 'fr':
        LB, LW = spd(E, 'LB', d)[1], spd(E, 'LW', d)[1]
        mu = E.real('mu', d)
        Sb, Sw = wrap(np.asarray(LB).dot(np.asarray(LB).T)), wrap(np.asarray(LW).dot(np.asarray(LW).T))
        m = FRPLDA(mu=mu, B=ginv(E, Sb), W=ginv(E, Sw))
    elif kind == 's':
        LW = spd(E, 'LW', d)[1]
        mu, V = E.real('mu', d), E.real('V', (1, d))
        Sw = wrap(np.asarray(LW).dot(np.asarray(LW).T))
        m = SPLDA(mu=mu, V=V, W=ginv(E, Sw))
    else:
        mu, V, U = E.real('mu', d), E.real('V', (1, d)), E.real('U', (1, d))
        r = E.real('r', d, pos=True)
        m = PLDA(mu=mu, V=V, U=U, D=1 / (r * r))
        E.claim('initialized', m.is_init)
    draws = []

    class R(object):
        def normal(self, loc=0.0, scale=1.0, size=None):
            a = E.real('g%d' % len(draws), size, lo=-4, hi=4)
            draws.append(a)
            return a.copy()

        def randn(self, *s):
            return self.normal(size=s)
        standard_normal = normal
    x = m.sample(2, 2, rng=R())
    E.reach()
    E.claim('shape', x.shape == (4, d))
    # linear in the draws: mean, covariance within and across samples of a class
    if E.symbolic:
        from symx import symnp
    vs = [(i, t) for i, a in enumerate(draws) for t in np.ndindex(*a.shape)]
    base = dict()

    def at(val):
        k = [0]
        class Q(R):
            def normal(self, loc=0.0, scale=1.0, size=None):
                a = zeros(E, size) if E.symbolic else np.zeros(size)
                if val is not None and val[0] == k[0]:
                    a[val[1]] = 1
                k[0] += 1
                return a
        return m.sample(2, 2, rng=Q())
    x0 = at(None)
    E.eq('mean', x0, array(E, [[mu[i] for i in range(d)]] * 4))
    G = [at(v) - x0 for v in vs]
    tot = x0
    for v, g in zip(vs, G):
        tot = tot + draws[v[0]][v[1]] * g
    E.eq('linear', x, tot)
    for s in range(4):
        for t in range(4):
            for i in range(d):
                for j in range(d):
                    c = sum(g[s, i] * g[t, j] for g in G)
                    if kind == 'fr':
                        b, w = Sb[i, j], Sw[i, j]
                    elif kind == 's':
                        b, w = V[0, i] * V[0, j], Sw[i, j]
                    else:
                        b, w = V[0, i] * V[0, j], U[0, i] * U[0, j] + (r[i] * r[i] if i == j else 0)
                    E.eq('covariance', c, (b if s // 2 == t // 2 else 0) + (w if s == t else 0))


@harness('P26', configs=[dict(kind=k, nm=nm, flags=f) for k in KINDS for nm in (None, 'pl') for f in ((1, 1, 1, 1), (0, 1, 0, 1), (1, 0, 1, 0))], patch=patch_h5, text=True,
         assumptions=['file storage is replaced by an in-memory store in the symbolic runs (the replay uses h5py)'], bounds='dimension 2')
def persistence(E, kind, nm, flags):
    kw = dict(name=nm, update_mu=bool(flags[0]))
    if kind == 'fr':
        kw.update(update_B=bool(flags[1]), update_W=bool(flags[2]), fullcov_W=bool(flags[3]))
    elif kind == 's':
        kw.update(update_V=bool(flags[1]), update_W=bool(flags[2]), fullcov_W=bool(flags[3]))
    else:
        kw.update(update_V=bool(flags[1]), update_U=bool(flags[2]), update_D=bool(flags[3]), floor_iD=0.25)
    o = plda(E, kind, 2, **kw)
    f = E.tmp('m.h5')
    o.m.save(f)
    q = CLS[kind].load(f)
    E.reach()
    E.claim('type', type(q) is type(o.m) and q.is_init and q.x_dim == 2 and q.y_dim == (2 if kind == 'fr' else 1) and q.name == o.m.name)
    for k, v in kw.items():
        if k != 'name':
            E.claim('option', getattr(q, k) == v)
    for k, v in o.par.items():
        E.eq('parameter', getattr(q, k), v, 1e-4)


@harness('P26', configs=[dict(kind=k, ep=ep, mode=mo, md=md, val=v, soft=s, w=w) for k in KINDS for ep in (0, 1, 2) for mo in ('ml', 'md', 'ml+md') for md in (None, (1,)) for v in (0, 1) for s in (0, 1) for w in (0, 1)
                             if (ep == 2 or md is None) and (s == 0 or mo == 'ml')] +
         [dict(kind='s', ep=2, mode=mo, md=md, val=v, soft=s, w=w, adapt=1) for mo in ('ml', 'md', 'ml+md') for md in (None, (1,)) for v in (0, 1) for s in (0, 1) for w in (0, 1) if s == 0 or mo == 'ml'],
         bounds='up to 2 iterations on 2 samples of dimension 1; the iteration itself is replaced by a recorder')
def training_loop(E, kind, ep, mode, md, val, soft, w, adapt=0):
    """fit runs the E and M steps on the statistics of the data given, in order, and reports their objectives; adaptation averages with the prior model after each"""
    o = plda(E, kind, 1)
    m = o.m
    log = []
    x, xv = E.real('x', (2, 1)), E.real('xv', (3, 1))
    sw, swv = (E.real('sw', 2, lo=0.1, hi=5), E.real('swv', 3, lo=0.1, hi=5)) if w else (None, None)
    obj = E.real('o', 2 * ep) if ep else []

    def estep(D):
        log.append(('E', D))
        return ('stats', len([1 for a in log if a[0] == 'E']) - 1)
    m.Estep = estep
    m.elbo = lambda s: obj[s[1]]
    m.MstepML = lambda s: log.append(('ML', s))
    m.MstepMD = lambda s: log.append(('MD', s))
    m.initialize = lambda D: log.append(('init', D))
    ids, idv = np.array([0, 1]), np.array([1, 0, 1])
    P, Pv = E.real('P', (2, 2), lo=0.1), E.real('Pv', (3, 2), lo=0.1)
    kw = dict(ptheta=P, ptheta_val=Pv) if soft else dict(class_ids=ids, class_ids_val=idv)
    prior, f = object(), m.fit
    if adapt:
        m.weighted_avg_model = lambda *a: log.append(('avg', a))
        wts = tuple(E.real('wt', 3, lo=0, hi=1))
        f = m.fit_adapt_weighted_avg_model
        kw.update(plda0=prior, w_mu=wts[0], w_B=wts[1], w_W=wts[2])
    r = f(x, sample_weight=sw, x_val=xv if val else None, sample_weight_val=swv, epochs=ep, ml_md=mode, md_epochs=md, **kw)
    E.reach()
    want = []
    n = 0
    for e in range(ep):
        want.append(('E', 0))
        st = ('stats', n)
        n += 1
        if val:
            want.append(('E', 1))
            n += 1
        if mode != 'md':
            want.append(('ML', st))
        if mode != 'ml' and (md is None or e in md):
            want.append(('MD', st))
        if adapt:
            want.append(('avg', None))
    E.claim('steps', [a[0] for a in log] == [a[0] for a in want])
    h = lambda X, i, k: [[1.0 if i[t] == c else 0.0 for c in range(k)] for t in range(len(X))]     # noqa

    def chk(D, X, q, s):
        g = [[q[t][c] * (s[t] if s is not None else 1) for c in range(2)] for t in range(len(X))]
        E.eq('counts', D[0], [sum(g[t][c] for t in range(len(X))) for c in range(2)])
        E.eq('sums', D[1], array(E, [[sum(g[t][c] * X[t, 0] for t in range(len(X)))] for c in range(2)]))
        E.eq('second order', D[2], array(E, [[sum(sum(g[t]) * X[t, 0] * X[t, 0] for t in range(len(X)))]]))
    seen = [None, None]
    for a, b in zip(log, want):
        if a[0] == 'E':
            if seen[b[1]] is None:
                chk(a[1], xv if b[1] else x, (Pv if b[1] else P) if soft else h(xv if b[1] else x, idv if b[1] else ids, 2), swv if b[1] else sw)
                seen[b[1]] = a[1]
            E.claim('same statistics', a[1] is seen[b[1]])
        elif a[0] == 'avg':
            E.claim('average with the prior model', len(a[1]) == 4 and a[1][0] is prior)
            for u, v in zip(a[1][1:], wts):
                E.eq('weight of the average', u, v)
        else:
            E.claim('statistics of this iteration', a[1] == b[1])
    st = 2 if val else 1
    E.claim('results', len(r) == 2 * st)
    tot = lambda q, s: sum(sum(q[t]) * (s[t] if s is not None else 1) for t in range(len(q)))      # noqa
    for k in range(st):
        X, q, s = (xv, Pv if soft else h(xv, idv, 2), swv) if k else (x, P if soft else h(x, ids, 2), sw)
        E.eq('objective', r[2 * k], array(E, [obj[st * e + k] for e in range(ep)]) if ep else np.zeros(0))
        if ep:
            E.eq('objective per sample', r[2 * k + 1] * tot(q, s), r[2 * k])


@harness('P26', configs=[dict(kind=k, d=d, n=n) for k in ('s', 'p') for d, n in ((1, 1), (1, 2), (2, 1))], bounds='up to 2 samples, dimension up to 2, one-dimensional factors')
def conditional(E, kind, d, n):
    """log density of the samples given the factors"""
    o = plda(E, kind, d)
    y, z = E.real('y', (n, 1), lo=-3, hi=3), E.real('z', (n, 1), lo=-3, hi=3)
    r = E.real('r', (n, d), lo=-3, hi=3)
    x = array(E, [[r[t, i] + o.mu[i] + y[t, 0] * o.V[0, i] for i in range(d)] for t in range(n)])
    l = o.m.log_probx_g_y(x, y)
    E.reach()
    E.claim('shape', np.shape(l) == (n,))
    for t in range(n):
        q, det = quad(E, r[t], o.Sw)
        if E.symbolic:
            E.eq('given y', sexp(E, 2 * l[t] + d * LOG2PI + q) * det, 1)
        else:
            E.eq('given y', l[t], -0.5 * (d * LOG2PI + q + np.log(det)))
        if kind == 'p':
            lz = o.m.log_probx_g_yz(x, y, z)
            v = r[t] - z[t, 0] * o.U[0]
            q = sum(o.D[i] * v[i] * v[i] for i in range(d))
            E.eq('given y and z', lz[t], -0.5 * (d * LOG2PI + q - sum(slog(E, o.D[i]) for i in range(d))))


@harness('P26', configs=[dict(kind=k, n=n) for k in ('s', 'p') for n in ((1, 1), (2, 1), (2, 3), (1, 1, 2))], bounds='up to 5 samples of dimension 1 in up to three classes, one-dimensional factors')
def s_initialize(E, kind, n):
    """first model: average of the class means, their principal direction and the within class covariance"""
    m = SPLDA(y_dim=1) if kind == 's' else PLDA(y_dim=1, z_dim=1)
    M, Nt = len(n), sum(n)
    z = E.real('y', M, lo=-3, hi=3)
    C = E.real('C', lo=0.1, hi=9)
    E.assume(s_or(z[0] - z[1] > 0.01, z[0] - z[1] < -0.01))
    F = array(E, [[n[i] * z[i]] for i in range(M)])
    S = array(E, [[Nt * C + sum(n[c] * z[c] * z[c] for c in range(M))]])
    m.initialize((np.array(n, dtype=float), F, S))
    E.reach()
    mu = sum(z) / M
    E.claim('dimension', m.x_dim == 1 and m.is_init)
    E.eq('mean', m.mu, [mu])
    E.eq('between class', m.V[0, 0] * m.V[0, 0], sum((v - mu) * (v - mu) for v in z))
    if kind == 's':
        E.eq('within class', m.W[0, 0] * C, 1)
    else:
        E.eq('within class', m.U[0, 0] * m.U[0, 0], C)
        E.eq('floored channel noise', m.D[0] * m.floor_iD, 1)
