"""Gaussian mixtures: posteriors, density, statistics, estimation, splitting, sampling, persistence"""
import math
import sys
import numpy as np
from symx.harness import harness, s_and, s_or
from symx.util import slog, sexp, ssqrt, wrap, spd, array, zeros, eigen
from symx.fakeh5 import patch_h5
from hyperion.pdfs.mixtures import GMM, GMMDiagCov, GMMTiedDiagCov

LOG2PI = float(np.log(2 * np.pi))
CLS = dict(full=GMM, diag=GMMDiagCov, tied=GMMTiedDiagCov)
KINDS = ('full', 'diag', 'tied')
H5 = ['file storage is replaced by an in-memory store in the symbolic runs (the replay uses h5py)']


class Par(object):
    pass


def model(E, kind, K, d, **kw):
    o = Par()
    o.pi = E.real('pi', K, lo=0.05, hi=1)
    if K > 1:
        E.assume(sum(o.pi) == 1) if E.symbolic else None
        if not E.symbolic:
            o.pi = o.pi / np.sum(o.pi)
    else:
        o.pi = array(E, [1.0])
    o.mu = E.real('mu', (K, d), lo=-3, hi=3)
    o.P, o.ld = [], []
    if kind == 'full':
        L = [spd(E, 'L%d' % k, d) for k in range(K)]
        o.Lam = array(E, [np.asarray(a) for a, _ in L])
        o.P = [a for a, _ in L]
        o.ld = [2 * sum(slog(E, l[i, i]) for i in range(d)) for _, l in L]
    else:
        o.Lam = E.real('L', (K, d) if kind == 'diag' else d, lo=0.1, hi=10)
        for k in range(K):
            v = o.Lam[k] if kind == 'diag' else o.Lam
            m = zeros(E, (d, d))
            for i in range(d):
                m[i, i] = v[i]
            o.P.append(m)
            o.ld.append(sum(slog(E, v[i]) for i in range(d)))
    o.g = CLS[kind](x_dim=d, pi=o.pi, mu=o.mu, Lambda=o.Lam, **kw)
    o.lpi = [slog(E, o.pi[k] + 1e-15) for k in range(K)]
    return o


def logpk(o, x, k):
    d = len(x)
    q = sum((x[i] - o.mu[k, i]) * o.P[k][i, j] * (x[j] - o.mu[k, j]) for i in range(d) for j in range(d))
    return o.lpi[k] + o.ld[k] / 2 - q / 2 - d * LOG2PI / 2


def suff(x, w, kind):
    """weighted sums of x and of its products"""
    n, d = len(x), len(x[0])
    out = [sum(w[t] * x[t, i] for t in range(n)) for i in range(d)]
    return out + [sum(w[t] * x[t, i] * x[t, j] for t in range(n)) for i in range(d) for j in (range(i, d) if kind == 'full' else (i,))]


CF = [dict(kind=k, K=K, d=d) for k in KINDS for K, d in ((1, 1), (1, 2), (2, 1))]
DEEP = [dict(kind=k, K=K, d=d) for k in KINDS for K, d in ((2, 2), (3, 1))]


@harness('P24', configs=CF, thorough=DEEP, bounds='1 or 2 components of dimension 1, 1 of dimension 2 (thorough: up to 3 of dimension 1, 2 of dimension 2)')
def posteriors(E, kind, K, d):
    o = model(E, kind, K, d)
    x = E.real('x', (2 if K < 3 else 1, d), lo=-3, hi=3)
    x0 = x.copy()
    z = o.g.compute_pz(x)
    E.reach()
    E.same('input', x, x0)
    E.claim('shape', z.shape == (len(x), K))
    for t in range(len(x)):
        E.eq('sums to one', sum(z[t, k] for k in range(K)), 1)
        l = [logpk(o, x[t], k) for k in range(K)]
        for k in range(K):
            if not E.symbolic and abs(l[k] - l[0]) > 30:
                continue
            E.eq('ratio', z[t, k], z[t, 0] * sexp(E, l[k] - l[0]))
    E.eq('standard form', o.g.compute_pz(x, mode='std'), z)
    E.eq('from statistics', o.g.compute_pz(x, o.g.compute_suff_stats(x)), z)


@harness('P24', configs=CF, thorough=DEEP, bounds='1 or 2 components of dimension 1, 1 of dimension 2 (thorough: up to 3 of dimension 1, 2 of dimension 2)')
def density(E, kind, K, d):
    o = model(E, kind, K, d)
    x = E.real('x', (1, d), lo=-3, hi=3)
    l = [logpk(o, x[0], k) for k in range(K)]
    mx = l[0]
    for v in l[1:]:
        if v > mx:
            mx = v
    tot = sum(sexp(E, v - mx) for v in l)
    E.reach()
    for nm, r in (('natural', o.g.log_prob(x)), ('standard', o.g.log_prob(x, mode='std')), ('from statistics', o.g.log_prob(x, o.g.compute_suff_stats(x))),
                  ('all of the best', o.g.log_prob_nbest(x, nbest=K)), ('all given', o.g.log_prob_nbest(x, nbest_mode='given', nbest=list(range(K))))):
        E.eq(nm, sexp(E, r[0] - mx), tot)
    close = lambda v: s_and(v < 1e-9, v > -1e-9)   # noqa
    E.claim('best component', close(o.g.log_prob_nbest(x, nbest=1)[0] - mx))
    k = K - 1
    E.claim('component given', close(o.g.log_prob_nbest(x, nbest_mode='given', nbest=[k])[0] - l[k]))


@harness('P24', configs=CF, thorough=DEEP, bounds='1 or 2 components of dimension 1, 1 of dimension 2 (thorough: up to 3 of dimension 1, 2 of dimension 2)')
def natural_parameters(E, kind, K, d):
    o = model(E, kind, K, d)
    q = CLS[kind](x_dim=d, pi=o.pi, eta=o.g.eta)
    q.initialize()
    E.reach()
    E.claim('initialized', q.is_init and o.g.is_init and q.num_comp == K)
    E.eq('means', q.mu, o.mu)
    E.eq('precisions', q.Lambda, o.Lam)
    E.eq('log normalizers', q.A, o.g.A)
    E.eq('from standard', CLS[kind].compute_A_std(o.mu, o.Lam), o.g.A)
    E.eq('log determinants', o.g.logLambda, o.ld if kind != 'tied' else o.ld[0])
    for k in range(K):
        C = o.g.Sigma if kind == 'tied' else o.g.Sigma[k]
        if kind != 'full':
            C = np.diag(np.asarray(C))
        E.eq('covariance is the inverse', wrap(np.asarray(C).dot(np.asarray(o.P[k]))), np.eye(d))


def parts(E, o, x, w):
    z = o.g.compute_pz(x)
    n, K = z.shape
    return [[z[t, k] * (w[t] if w is not None else 1) for t in range(n)] for k in range(K)]


def check_stats(E, nm, kind, N, F, x, zw):
    E.eq(nm + ' counts', N, [sum(z) for z in zw])
    E.eq(nm + ' statistics', F, array(E, [suff(x, z, kind) for z in zw]))


@harness('P24', configs=[dict(kind=k, n=n, w=w, b=b, pre=pre) for k in KINDS for n in (1, 2, 3) for w in (0, 1) for b in (None, 1, 2) for pre in (0, 1) if not (pre and b)] +
         [dict(kind='full', n=2, w=1, b=None, pre=0, d=2)],
         bounds='2 components, up to 3 frames, weights, batches of 1 or 2, statistics given')
def statistics(E, kind, n, w, b, pre, d=1):
    o = model(E, kind, 2, d)
    x = E.real('x', (n, d), lo=-3, hi=3)
    s = E.real('w', n, lo=0, hi=5) if w else None
    zw = parts(E, o, x, s)
    x0 = x.copy()
    s0 = s.copy() if w else None
    u = o.g.compute_suff_stats(x) if pre else None
    u0 = u.copy() if pre else None
    N, F = o.g.Estep(x, u_x=u, sample_weight=s, batch_size=b)
    E.reach()
    E.same('input', x, x0)
    if w:
        E.same('weights', s, s0)
    if pre:
        E.same('statistics given', u, u0)
    check_stats(E, 'total', kind, N, F, x, zw)
    E.eq('counts add to the weights', sum(N), sum(s) if w else n)


@harness('P24', configs=[dict(n=n, w=w, b=b, pre=pre) for n in (2, 3) for w in (0, 1) for b in (None, 1, 2) for pre in (0, 1) if not (pre and b)],
         bounds='up to 3 frames, 2 segments with any (inclusive) limits, soft segment membership, weights, batches')
def segment_statistics(E, n, w, b, pre):
    o = model(E, 'diag', 2, 1)
    x = E.real('x', (n, 1), lo=-3, hi=3)
    s = E.real('w', n, lo=0, hi=5) if w else None
    zw = parts(E, o, x, s)
    u = o.g.compute_suff_stats(x) if pre else None
    i0 = E.choice('i0', n)
    seg = np.array([[i0, i0 + E.choice('l0', n - i0)], [n - 1, n - 1]])
    N, F = o.g.accum_suff_stats_segments(x, seg, u_x=u, sample_weight=s, batch_size=b)
    E.claim('segments', len(N) == 2 and len(F) == 2)
    for k, (a, e) in enumerate(seg):
        check_stats(E, 'segment', 'diag', N[k], F[k], x[a:e + 1], [z[a:e + 1] for z in zw])
    p = E.real('p', (n, 2), lo=0, hi=1)
    N, F = o.g.accum_suff_stats_segments_prob(x, p, u_x=u, sample_weight=s, batch_size=b)
    E.reach()
    for k in range(2):
        check_stats(E, 'soft segment', 'diag', N[k], F[k], x, [[z[t] * p[t, k] for t in range(n)] for z in zw])


@harness('P24', configs=[dict(n=n, fl=fl, fs=fs, w=w, b=b) for n, fl, fs in ((2, 2, 1), (2, 1, 1), (3, 2, 1), (3, 1, 2), (4, 2, 2), (4, 3, 1), (5, 1, 2))
                         for w in (0, 1) for b in (None, 4)], thorough=[dict(n=5, fl=fl, fs=fs, w=w, b=b) for fl, fs in ((2, 2), (3, 2), (2, 3)) for w in (0, 1) for b in (None, 4)],
         bounds='up to 5 frames, windows of 1-3 frames with shift 1-3, weights, batches')
def window_statistics(E, n, fl, fs, w, b):
    o = model(E, 'diag', 2, 1)
    x = E.real('x', (n, 1), lo=-3, hi=3)
    s = E.real('w', n, lo=0, hi=5) if w else None
    zw = parts(E, o, x, s)
    N, F = o.g.accum_suff_stats_sorttime(x, fl, fs, sample_weight=s, batch_size=b)
    m = (n - fl) // fs + 1
    E.reach()
    E.claim('windows', len(N) == m and len(F) == m)
    for k in range(m):
        a = k * fs
        check_stats(E, 'window', 'diag', N[k], F[k], x[a:a + fl], [z[a:a + fl] for z in zw])


@harness('P24', configs=[dict(m=m) for m in (1, 2, 3)], bounds='up to 3 sets')
def sum_of_statistics(E, m):
    g = GMMDiagCov(x_dim=1, num_comp=2)
    N = [E.real('N%d' % i, 2) for i in range(m)]
    F = [E.real('F%d' % i, (2, 2)) for i in range(m)]
    N0, F0 = [v.copy() for v in N], [v.copy() for v in F]
    a, f = g.sum_suff_stats(N, F)
    E.reach()
    E.eq('counts', a, [sum(N[i][k] for i in range(m)) for k in range(2)])
    E.eq('statistics', f, array(E, [[sum(F[i][k, j] for i in range(m)) for j in range(2)] for k in range(2)]))
    for i in range(m):
        E.same('input', N[i], N0[i])
        E.same('input', F[i], F0[i])


@harness('P24', configs=[dict(kind=k, K=K, d=d, um=um, ul=ul, up=up) for k in KINDS for K, d in ((1, 1), (2, 1), (1, 2), (2, 2)) for um, ul, up in
                         ((1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0), (0, 0, 0)) if not (k == 'full' and (K, d) == (2, 2) and ul)],
         bounds='up to 2 components of dimension up to 2; any counts, means and covariances; update switches')
def maximization(E, kind, K, d, um, ul, up):
    vf = 0.001
    o = model(E, kind, K, d, update_mu=bool(um), update_Lambda=bool(ul), update_pi=bool(up), var_floor=vf)
    pi0, mu0, Lam0 = o.pi.copy(), o.mu.copy(), o.Lam.copy()
    N = E.real('N', K, lo=0.5, hi=50)
    m = E.real('m', (K, d), lo=-3, hi=3)
    cen = m if um else o.mu
    C, rows = [], []
    for k in range(K):
        if kind == 'full':
            c, ij = spd(E, 'C%d' % k, d)[0], [(i, j) for i in range(d) for j in range(i, d)]
        else:
            v, ij = E.real('C%d' % k, d, lo=0, hi=10), [(i, i) for i in range(d)]
            c = {(i, i): v[i] for i in range(d)}
        C.append(c)
        rows.append([N[k] * m[k, i] for i in range(d)] + [N[k] * (c[i, j] + m[k, i] * cen[k, j] + cen[k, i] * m[k, j] - cen[k, i] * cen[k, j]) for i, j in ij])
    u = array(E, rows)
    u0, N0 = u.copy(), N.copy()
    for z in (o.g.log_pi, o.g.logLambda, o.g.cholLambda, o.g.Sigma):    # caches filled before the update
        pass
    o.g.Mstep(N, u)
    E.reach()
    for nm, a, b in (('counts', N, N0), ('statistics', u, u0), ('weights given', o.pi, pi0), ('means given', o.mu, mu0), ('precisions given', o.Lam, Lam0)):
        E.same(nm, a, b)
    E.eq('weights', o.g.pi, [N[k] / sum(N) for k in range(K)] if up else pi0)
    E.eq('means', o.g.mu, cen)
    if not ul:
        E.eq('precisions kept', o.g.Lambda, Lam0)
    elif kind == 'full':
        for k in range(K):
            if d > 1:       # one component: the floor is a fraction of the covariance itself
                S = C[k]
            else:
                f = vf * sum(c[0, 0] for c in C) / K
                v = C[k][0, 0]
                S = array(E, [[f if v < f else v]])
            E.eq('precisions', wrap(np.asarray(o.g.Lambda[k]).dot(np.asarray(S))), np.eye(d))
    else:
        V = [[None] * d for k in range(K)]
        for i in range(d):
            f = vf * sum(C[k][i, i] for k in range(K)) / K
            E.assume(f > 1e-5)
            for k in range(K):
                V[k][i] = f if C[k][i, i] < f else C[k][i, i]
        for i in range(d):
            if kind == 'tied':
                E.eq('pooled variance', o.g.Lambda[i] * sum(N[k] * V[k][i] for k in range(K)), sum(N))
            for k in range(K):
                if kind == 'diag':
                    E.eq('variance', o.g.Lambda[k, i] * V[k][i], 1)
    q = CLS[kind](x_dim=d, pi=o.g.pi, mu=o.g.mu, Lambda=o.g.Lambda)
    E.eq('natural parameters', o.g.eta, q.eta)
    E.eq('log normalizers', o.g.A, q.A)
    E.eq('log weights', o.g.log_pi, q.log_pi)
    E.eq('log determinants', o.g.logLambda, q.logLambda)
    E.eq('whitening', o.g.cholLambda, q.cholLambda)
    E.eq('covariances', o.g.Sigma, q.Sigma)


@harness('P24', configs=[dict(kind=k, K=K, vf=vf) for k in ('diag', 'tied') for K, vf in ((2, None), (2, 0.5), (3, 0.5))], bounds='up to 3 components of dimension 1, one under the minimum count')
def small_components(E, kind, K, vf):
    mn = E.real('min', lo=1, hi=10)
    o = model(E, kind, K, 1, min_N=mn, **({} if vf is None else dict(var_floor=vf)))
    N = E.real('N', K, lo=0.5, hi=50)
    E.assume(N[0] < mn)
    for k in range(1, K):
        E.assume(N[k] > mn)
    m, C = E.real('m', K, lo=-3, hi=3), E.real('C', K, lo=0.1, hi=10)
    u = array(E, [[N[k] * m[k], N[k] * (C[k] + m[k] * m[k])] for k in range(K)])
    N0, u0 = N.copy(), u.copy()
    o.g.Mstep(N, u)
    E.reach()
    E.same('counts', N, N0)
    E.same('statistics', u, u0)
    E.eq('weights', o.g.pi, [0] + [N0[k] / sum(N0[1:]) for k in range(1, K)])
    for k in range(1, K):
        E.eq('mean of the others', o.g.mu[k, 0], m[k])
    E.eq('mean reset', o.g.mu[0, 0], 0)
    if kind == 'diag':
        fl = (1e-5 if vf is None else vf) * sum(C[1:]) / (K - 1)
        for k in range(1, K):       # the floor is a fraction of the mean variance of the components with data
            E.eq('variance of the others', o.g.Lambda[k, 0] * (fl if C[k] < fl else C[k]), 1)
        E.eq('variance reset', o.g.Lambda[0, 0], 1)


@harness('P24', configs=[dict(kind=k, K=K, d=d) for k in KINDS for K, d in ((1, 1), (2, 1), (1, 2), (2, 2)) if k != 'tied'], bounds='up to 2 components of dimension up to 2, 2 frames')
def whitened_statistics(E, kind, K, d):
    o = model(E, kind, K, d)
    x = E.real('x', (2, d), lo=-3, hi=3)
    r = E.real('r', (K, 2), lo=0, hi=1)     # any soft assignment
    N = array(E, [r[k, 0] + r[k, 1] for k in range(K)])
    u = array(E, [suff(x, r[k], kind) for k in range(K)])
    u0, N0 = u.copy(), N.copy()
    N2, v = o.g.norm_suff_stats(N, u, return_order2=True)
    N1, f = o.g.norm_suff_stats(N, u)
    E.reach()
    E.same('statistics given', u, u0)
    E.same('counts given', N, N0)
    E.eq('counts', N2, N)
    E.eq('counts', N1, N)
    for k in range(K):
        W = np.asarray(o.g.cholLambda[k])
        W = np.diag(W) if kind == 'diag' else W
        E.eq('whitening transform', wrap(W.dot(W.T)), o.P[k])
        y = wrap(np.asarray(x - o.mu[k]).dot(W))
        want = suff(y, r[k], kind)
        E.eq('both orders', v[k], want)
        E.eq('first order', f[k], want[:d])


@harness('P24', configs=[dict(kind=k, w=w) for k in KINDS for w in (0, 1)], bounds='2 components, 2 frames')
def objective(E, kind, w):
    o = model(E, kind, 2, 1)
    x = E.real('x', (2, 1), lo=-3, hi=3)
    s = E.real('w', 2, lo=0, hi=4) if w else None
    zw = parts(E, o, x, s)
    want = sum(zw[k][t] * logpk(o, x[t], k) for k in range(2) for t in range(2))
    E.eq('expected complete log likelihood', o.g.elbo(x, sample_weight=s), want)
    N, u = o.g.Estep(x, sample_weight=s)
    E.eq('from statistics', o.g.elbo(None, N=N, u_x=u, log_h=0), want)
    E.reach()


@harness('P24', configs=[dict(kind=k, w=w, v=v, b=b) for k in KINDS for w in (0, 1) for v in (0, 1) for b in (None, 1)], bounds='one component, 3 frames of dimension 1, 2 epochs')
def fit_one(E, kind, w, v, b):
    g = CLS[kind](x_dim=1, num_comp=1)
    x = E.real('x', (3, 1), lo=-3, hi=3)
    s = E.real('w', 3, lo=0.5, hi=4) if w else None
    ww = list(s) if w else [1, 1, 1]
    y = E.real('y', (2, 1), lo=-3, hi=3) if v else None
    N = sum(ww)
    m0 = sum(x[i, 0] for i in range(3)) / 3
    V0 = sum((x[i, 0] - m0) * (x[i, 0] - m0) for i in range(3)) / 3
    m = sum(ww[i] * x[i, 0] for i in range(3)) / N
    V = sum(ww[i] * x[i, 0] * x[i, 0] for i in range(3)) / N - m * m
    E.assume(V >= 0.01)
    E.assume(V0 >= 0.01)
    g.initialize(x)
    E.eq('initial mean', g.mu[0, 0], m0)
    E.eq('initial variance', np.ravel(g.Lambda)[0] * V0, 1)
    r = g.fit(x, sample_weight=s, x_val=y, epochs=2, batch_size=b)
    E.reach()
    E.eq('mean', g.mu[0, 0], m)
    E.eq('variance', np.ravel(g.Lambda)[0] * V, 1)
    E.claim('values', len(r) == (4 if v else 2))
    E.eq('objective', r[0][1], g.elbo(x, sample_weight=s))
    E.eq('average', r[1] * 3, r[0])
    if v:
        E.eq('validation', r[2], [g.elbo(y)] * 2)
        E.eq('validation average', r[3] * 2, r[2])


@harness('P24', configs=[dict(kind=k, K=K, d=d) for k in KINDS for K, d in ((1, 1), (2, 1), (1, 2), (2, 2)) if (k, K, d) != ('full', 2, 2)], bounds='up to 2 clusters of 2-3 samples of dimension up to 2 (1 with full covariances)',
         assumptions=['the clusters are any partition of the samples, with their means (K-means is decided in P30)'])
def initial_clusters(E, kind, K, d):
    """the initial mixture has the weights, means and covariances of the clusters; without data it is the standard normal"""
    n = 2 * K + 1
    x = E.real('x', (n, d), lo=-3, hi=3)
    if K == 1:
        g = CLS[kind](x_dim=d, num_comp=1)
        g.initialize()
        E.eq('standard normal', g.log_prob(x), [-0.5 * (d * math.log(2 * math.pi) + sum(x[i, j] * x[i, j] for j in range(d))) for i in range(n)])
    if kind == 'full' and d == 2:
        E.reach()
        return
    lab = [i % K for i in range(2 * K)] + [E.choice('l', K)]
    ix = [[i for i in range(n) if lab[i] == k] for k in range(K)]
    mu = array(E, [[sum(x[i, j] for i in ix[k]) / len(ix[k]) for j in range(d)] for k in range(K)])
    S = [[[sum((x[i, a] - mu[k, a]) * (x[i, b] - mu[k, b]) for i in ix[k]) / len(ix[k]) for b in range(d)] for a in range(d)] for k in range(K)]
    for k in range(K):
        for a in range(d):
            E.assume(S[k][a][a] >= 0.01)

    class KM(object):
        def __init__(self, num_clusters):
            E.claim('clusters', num_clusters == K)

        def fit(self, y, epochs=None):
            E.same('data', y, x)
            self.mu = mu.copy()
            return [0], np.array(lab)
    mod = sys.modules[CLS[kind].__module__]
    old, mod.KMeans = mod.KMeans, KM
    try:
        g = CLS[kind](x_dim=d, num_comp=K)
        g.initialize(x)
    finally:
        mod.KMeans = old
    E.reach()
    E.eq('weights', g.pi, [len(v) / n for v in ix])
    E.eq('means', g.mu, mu)
    for k in range(K):
        if kind == 'full':
            P = np.asarray(g.Lambda[k]).dot(np.asarray(array(E, S[k])))
            E.eq('precision', P, np.eye(d))
        elif kind == 'diag':
            E.eq('precision', [g.Lambda[k, a] * S[k][a][a] for a in range(d)], [1] * d)
    if kind == 'tied':
        E.eq('precision', [g.Lambda[a] * sum(S[k][a][a] * len(ix[k]) for k in range(K)) for a in range(d)], [n] * d)


@harness('P24', configs=[dict(kind=k, K=K, d=d, nk=nk) for k in KINDS for K, d in ((1, 1), (2, 1), (1, 2)) for nk in (2, 3) if not (k == 'full' and d == 2 and nk == 3)],
         bounds='up to 2 components of dimension up to 2 split in 2 or 3')
def splitting(E, kind, K, d, nk):
    mn = E.real('min', lo=0, hi=3)
    if kind == 'full' and d == 2:
        o = Par()
        S, U, w = eigen(E, 'S', 2, lo=0.2, hi=5)
        iS = wrap(np.asarray(U).dot(np.diag([1 / w[0], 1 / w[1]])).dot(np.asarray(U).T))
        o.pi, o.mu, o.Lam = array(E, [1.0]), E.real('mu', (1, 2), lo=-3, hi=3), array(E, [np.asarray(iS)])
        o.g = GMM(x_dim=2, pi=o.pi, mu=o.mu, Lambda=o.Lam, min_N=mn, update_Lambda=False, var_floor=0.25)
    else:
        o = model(E, kind, K, d, min_N=mn, update_Lambda=False, var_floor=0.25)
    mu0, Lam0 = o.mu.copy(), o.Lam.copy()
    if nk > 2:
        old = np.random.uniform
        seq = [E.bool('sg%d' % i) for i in range(nk * K * d)]
        it = [0]

        def uni(size=None):
            r = np.empty(size)
            for ix in np.ndindex(*r.shape):
                r[ix] = 0.75 if seq[it[0]] else 0.25
                it[0] += 1
            return r
        np.random.uniform = uni
        try:
            q = o.g.split_comp(nk)
        finally:
            np.random.uniform = old
    else:
        q = o.g.split_comp(nk)
    E.reach()
    E.same('means given', o.mu, mu0)
    E.same('precisions given', o.Lam, Lam0)
    E.claim('kind', type(q) is CLS[kind] and q.num_comp == nk * K and q.x_dim == d)
    E.claim('options', q.update_Lambda is False and q.update_mu is True and q.var_floor == 0.25)
    E.eq('minimum count', q.min_N, mn)
    for k in range(K):
        for j in range(nk):
            g = nk * k + j
            E.eq('weight', q.pi[g] * nk, o.pi[k])
            if kind != 'tied':
                E.eq('precision', q.Lambda[g], Lam0[k] * (nk * nk))
            dl = [q.mu[g, i] - mu0[k, i] for i in range(d)]
            if kind == 'full':
                # distance of the mean moved by one standard deviation along every axis
                P = Lam0[k]
                E.eq('shift', sum(dl[a] * P[a, b] * dl[b] for a in range(d) for b in range(d)), d)
            else:
                for i in range(d):
                    E.eq('shift', dl[i] * dl[i] * (Lam0[k, i] if kind == 'diag' else Lam0[i]), 1)
            if nk == 2 and j == 1:
                E.eq('opposite', q.mu[g - 1] + q.mu[g], 2 * mu0[k])
    if kind == 'tied':
        E.eq('precision', q.Lambda, Lam0)


@harness('P24', configs=[dict(kind=k, d=d) for k in ('diag', 'tied') for d in (1, 2)], bounds='2 components of dimension up to 2, 2 samples')
def sampling(E, kind, d):
    o = model(E, kind, 2, d)
    z = E.real('z', (2, d), lo=-3, hi=3)
    comp = [E.choice('c%d' % i, 2) for i in range(2)]

    class R(object):
        def multinomial(self, n, p, size=None):
            E.same('weights', p, o.pi)
            return np.array([[1 if comp[i] == k else 0 for k in range(2)] for i in range(2)])

        def normal(self, size=None):
            return z.copy()
    x = o.g.sample(2, rng=R())
    E.reach()
    for t in range(2):
        for i in range(d):
            lam = o.Lam[comp[t], i] if kind == 'diag' else o.Lam[i]
            dx = x[t, i] - o.mu[comp[t], i]
            E.eq('scale', dx * dx * lam, z[t, i] * z[t, i])
            E.claim('side', dx * z[t, i] >= 0)


@harness('P24', configs=[dict(kind=k, K=K, nm=nm, um=um) for k in KINDS for K in (1, 2) for nm in (None, 'g') for um in ((1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0))],
         patch=patch_h5, bounds='up to 2 components of dimension 2, with and without name, any option', assumptions=H5)
def persistence(E, kind, K, nm, um):
    o = model(E, kind, K, 2, update_mu=bool(um[0]), update_Lambda=bool(um[1]), update_pi=bool(um[2]), min_N=2.5, var_floor=0.25, name=nm)
    f = E.tmp('m.h5')
    o.g.save(f)
    q = CLS[kind].load(f)
    E.reach()
    E.claim('type', type(q) is type(o.g) and q.is_init and q.x_dim == 2 and q.num_comp == K)
    E.claim('options', (q.name, q.update_mu, q.update_Lambda, q.update_pi, q.min_N, q.var_floor) == (nm, bool(um[0]), bool(um[1]), bool(um[2]), 2.5, 0.25))
    E.eq('weights', q.pi, o.pi, 1e-4)
    E.eq('means', q.mu, o.mu, 1e-4)
    E.eq('precisions', q.Lambda, o.Lam, 1e-4)
    if E.symbolic:
        E.eq('natural parameters', q.eta, o.g.eta)
        E.eq('log normalizers', q.A, o.g.A)
