"""normal distributions: density, natural parameters, statistics, estimation, whitening, persistence"""
import numpy as np
from symx.harness import harness, s_and, s_or
from symx.util import slog, ssqrt, wrap, spd, sym, array, zeros, index
from symx.fakeh5 import patch_h5
from hyperion.pdfs.core import Normal, NormalDiagCov

LOG2PI = float(np.log(2 * np.pi))
KINDS = ('full', 'diag')
H5 = ['file storage is replaced by an in-memory store in the symbolic runs (the replay uses h5py)']


def model(E, kind, d, **kw):
    mu = E.real('mu', d, lo=-5, hi=5)
    if kind == 'full':
        Lam, L = spd(E, 'L', d)
        return Normal(mu=mu, Lambda=Lam, x_dim=d, **kw), mu, Lam, 2 * sum(slog(E, L[i, i]) for i in range(d))
    Lam = E.real('L', d, pos=True)
    return NormalDiagCov(mu=mu, Lambda=Lam, x_dim=d, **kw), mu, Lam, sum(slog(E, Lam[i]) for i in range(d))


def full(E, kind, Lam, d):
    if kind == 'full':
        return Lam
    m = zeros(E, (d, d))
    for i in range(d):
        m[i, i] = Lam[i]
    return m


def logp(x, mu, P, ld):
    d = len(mu)
    q = sum((x[i] - mu[i]) * P[i, j] * (x[j] - mu[j]) for i in range(d) for j in range(d))
    return ld / 2 - q / 2 - d * LOG2PI / 2


@harness('P23', configs=[dict(kind=k, d=d) for k in KINDS for d in (1, 2)], thorough=[dict(kind=k, d=3) for k in KINDS],
         bounds='dimension up to 2 (3 thorough), any precision matrix')
def density(E, kind, d):
    p, mu, Lam, ld = model(E, kind, d)
    x = E.real('x', (2, d), lo=-5, hi=5)
    x0 = x.copy()
    E.reach()
    P = full(E, kind, Lam, d)
    want = [logp(x[i], mu, P, ld) for i in range(2)]
    E.eq('natural', p.log_prob(x), want)
    E.eq('standard', p.log_prob(x, method='std'), want)
    E.eq('natural from statistics', p.log_prob(x, p.compute_suff_stats(x)), want)
    E.eq('eval_llk', p.eval_llk(x), want)
    E.same('input', x, x0)
    E.eq('log det', p.logLambda, ld)
    C = full(E, kind, p.Sigma, d)
    E.eq('covariance is the inverse', wrap(np.asarray(C).dot(np.asarray(P))), np.eye(d))


@harness('P23', configs=[dict(kind=k, d=d) for k in KINDS for d in (1, 2)], thorough=[dict(kind=k, d=3) for k in KINDS],
         bounds='dimension up to 2 (3 thorough)')
def natural_parameters(E, kind, d):
    p, mu, Lam, ld = model(E, kind, d)
    q = type(p)(eta=p.eta, x_dim=d)
    q.initialize()
    E.reach()
    E.eq('mean', q.mu, mu)
    E.eq('precision', q.Lambda, Lam)
    E.eq('log normalizer', q.A, p.A)
    E.eq('from natural', type(p).compute_A_nat(p.eta), p.A)
    E.eq('from standard', type(p).compute_A_std(mu, Lam), p.A)
    E.claim('initialized', q.is_init and p.is_init)
    x = E.real('x', (1, d), lo=-5, hi=5)
    E.eq('same density', q.log_prob(x), p.log_prob(x))
    E.eq('same density std', q.log_prob(x, method='std'), p.log_prob(x, method='std'))


@harness('P23', configs=[dict(kind=k, d=d, n=n, w=w, b=b, pre=pre) for k in KINDS for d in (1, 2) for n in (1, 2, 3) for w in (0, 1) for b in (None, 1, 2)
                         for pre in (0, 1) if not (pre and b)], bounds='up to 3 samples of dimension up to 2, with weights, batches of 1 or 2, or given statistics')
def statistics(E, kind, d, n, w, b, pre):
    p = (Normal if kind == 'full' else NormalDiagCov)(x_dim=d)
    x = E.real('x', (n, d))
    s = E.real('w', n, lo=0) if w else None
    x0 = x.copy()
    s0 = s.copy() if w else None
    u = p.compute_suff_stats(x) if pre else None
    u0 = u.copy() if pre else None
    N, F = p.Estep(x, u_x=u, sample_weight=s, batch_size=b)
    E.reach()
    E.same('input', x, x0)
    if w:
        E.same('weights', s, s0)
    if pre:
        E.same('statistics given', u, u0)
    ww = list(s) if w else [1] * n
    E.eq('count', N, sum(ww))
    want = [sum(ww[k] * x[k, i] for k in range(n)) for i in range(d)]
    want += [sum(ww[k] * x[k, i] * x[k, j] for k in range(n)) for i in range(d) for j in (range(i, d) if kind == 'full' else (i,))]
    E.eq('statistics', F, want)
    a, c = p.unstack_suff_stats(F)
    E.eq('stack', p.stack_suff_stats(a, c), F)
    E.eq('first order', a, want[:d])


@harness('P23', configs=[dict(kind=k, m=m) for k in KINDS for m in (1, 2, 3)], bounds='up to 3 sets of statistics')
def add_statistics(E, kind, m):
    p = (Normal if kind == 'full' else NormalDiagCov)(x_dim=1)
    N = [E.real('N%d' % i, lo=0) for i in range(m)]
    F = [E.real('F%d' % i, 2) for i in range(m)]
    F0 = [f.copy() for f in F]
    a, f = p.add_suff_stats(N, F)
    E.reach()
    E.eq('count', a, sum(N))
    E.eq('statistics', f, [sum(F[i][j] for i in range(m)) for j in range(2)])
    for u, v in zip(F, F0):
        E.same('input', u, v)


def stats_of(E, kind, d, name, mu=None):
    """statistics with any count, mean and (positive definite) second moment around mu (the mean if None)"""
    N = E.real('N' + name, lo=0.5, hi=100)
    m = E.real('m' + name, d, lo=-5, hi=5)
    if kind == 'full':
        C, L = spd(E, 'C' + name, d)
        ij = [(i, j) for i in range(d) for j in range(i, d)]
    else:
        C = E.real('C' + name, d, lo=0)
        ij = [(i, i) for i in range(d)]
    a = m if mu is None else mu
    S = [N * ((C[i, j] if kind == 'full' else C[i]) + m[i] * a[j] + a[i] * m[j] - a[i] * a[j]) for i, j in ij]
    return N, m, C, array(E, [N * v for v in m] + S)


@harness('P23', configs=[dict(kind=k, d=d, um=um, ul=ul) for k in KINDS for d in (1, 2) for um in (0, 1) for ul in (0, 1)],
         bounds='dimension up to 2; any count, mean and covariance; each combination of the update switches')
def maximization(E, kind, d, um, ul):
    vf = E.real('vf', lo=0.001, hi=0.1)
    p, mu, Lam, ld = model(E, kind, d, update_mu=bool(um), update_Lambda=bool(ul), var_floor=vf)
    mu0, Lam0 = mu.copy(), Lam.copy()
    N, m, C, u = stats_of(E, kind, d, '', None if um else mu)
    u0 = u.copy()
    for z in (p.logLambda, p.Sigma, p.cholLambda):
        pass
    p.Mstep(N, u)
    E.reach()
    E.same('statistics', u, u0)
    E.same('mean given', mu, mu0)
    E.same('precision given', Lam, Lam0)
    cen = m if um else mu
    E.eq('mean', p.mu, cen)
    S = full(E, kind, C, d)
    if ul:
        if kind == 'diag':
            for i in range(d):
                v = S[i, i]
                w = vf if v < vf else v
                E.eq('variance', p.Lambda[i] * w, 1)
                E.eq('covariance', p.Sigma[i], w)
        else:
            E.eq('precision', wrap(np.asarray(p.Lambda).dot(np.asarray(S))), np.eye(d))
            E.eq('covariance', p.Sigma, S)
    else:
        E.eq('precision kept', p.Lambda, Lam0)
        E.eq('log det kept', p.logLambda, ld)
    q = type(p)(mu=p.mu, Lambda=p.Lambda, x_dim=d)
    E.eq('natural parameters', p.eta, q.eta)
    E.eq('log normalizer', p.A, q.A)
    E.eq('log det', p.logLambda, q.logLambda)
    x = E.real('x', (1, d), lo=-5, hi=5)
    E.eq('densities agree', p.log_prob(x, method='std'), q.log_prob(x))


@harness('P23', configs=[dict(kind=k, d=d, n=n) for k in KINDS for d, n in ((1, 1), (1, 2), (2, 1), (2, 2))], bounds='up to 2 samples of dimension up to 2')
def whitened_statistics(E, kind, d, n):
    p, mu, Lam, ld = model(E, kind, d)
    x = E.real('x', (n, d), lo=-5, hi=5)
    N, u = p.Estep(x)
    u0 = u.copy()
    W = p.cholLambda
    Wf = np.asarray(full(E, kind, W, d))
    E.eq('whitening transform', wrap(Wf.dot(Wf.T)), full(E, kind, Lam, d))
    y = wrap(np.asarray(x - mu).dot(Wf))
    N2, v = p.norm_suff_stats(N, u, return_order2=True)
    N1, f = p.norm_suff_stats(N, u)
    E.reach()
    E.same('statistics given', u, u0)
    want = p.Estep(y)
    E.eq('count', [N1, N2], [N, N])
    E.eq('both orders', v, want[1])
    E.eq('first order', f, want[1][:d])


@harness('P23', configs=[dict(kind=k, d=d, n=n, w=w) for k in KINDS for d, n in ((1, 2), (2, 1)) for w in (0, 1)], bounds='up to 2 samples')
def lower_bound(E, kind, d, n, w):
    p, mu, Lam, ld = model(E, kind, d)
    x = E.real('x', (n, d), lo=-5, hi=5)
    s = E.real('w', n, lo=0, hi=10) if w else None
    P = full(E, kind, Lam, d)
    want = sum((s[i] if w else 1) * logp(x[i], mu, P, ld) for i in range(n))
    E.eq('total log likelihood', p.elbo(x, sample_weight=s), want)
    N, u = p.Estep(x, sample_weight=s)
    E.eq('from statistics', p.elbo(None, N=N, u_x=u, log_h=0), want)
    E.reach()


@harness('P23', configs=[dict(n=n, w=w, b=b, v=v) for n in (2, 3) for w in (0, 1) for b in (None, 2) for v in (0, 1)], bounds='2 or 3 training samples, dimension 1, with weights, batches, validation data')
def fit_diagonal(E, n, w, b, v):
    p = NormalDiagCov(x_dim=1)
    x = E.real('x', (n, 1), lo=-5, hi=5)
    s = E.real('w', n, lo=0.5, hi=4) if w else None
    ww = list(s) if w else [1] * n
    y = E.real('y', (1, 1), lo=-5, hi=5) if v else None
    N = sum(ww)
    m = sum(ww[i] * x[i, 0] for i in range(n)) / N
    V = sum(ww[i] * x[i, 0] * x[i, 0] for i in range(n)) / N - m * m
    E.assume(V >= 0.01)
    r = p.fit(x, sample_weight=s, batch_size=b, x_val=y)
    E.reach()
    E.eq('mean', p.mu[0], m)
    E.eq('variance', p.Lambda[0] * V, 1)
    # log likelihood of the training data at the maximum
    E.eq('objective', r[0], -N / 2 * (LOG2PI - slog(E, p.Lambda[0]) + 1))
    E.eq('average', r[1] * N, r[0])
    E.claim('values', len(r) == (4 if v else 2))
    if v:
        E.eq('validation', r[2], p.log_prob(y)[0])
        E.eq('validation average', r[3], r[2])


@harness('P23', configs=[dict(d=d) for d in (1, 2)], bounds='dimension up to 2, 2 samples')
def sampling(E, d):
    p, mu, Lam, ld = model(E, 'diag', d)
    z = E.real('z', (2, d), lo=-3, hi=3)

    class R(object):
        def normal(self, size=None, loc=0, scale=1):
            assert tuple(size) == (2, d)
            return z
    x = p.sample(2, rng=R())
    E.reach()
    for i in range(2):
        for j in range(d):
            dx = x[i, j] - mu[j]
            E.eq('scale', dx * dx * Lam[j], z[i, j] * z[i, j])
            E.claim('side', s_or(dx * z[i, j] > 0, z[i, j] == 0) if E.symbolic else dx * z[i, j] >= 0)


@harness('P23', configs=[dict(kind=k, d=d, nm=nm, um=um, ul=ul) for k in KINDS for d in (1, 2) for nm in (None, 'pdf') for um, ul in ((1, 1), (0, 1), (1, 0))],
         patch=patch_h5, bounds='dimension up to 2, with and without name, any option', assumptions=H5)
def persistence(E, kind, d, nm, um, ul):
    vf = 0.25
    p, mu, Lam, ld = model(E, kind, d, update_mu=bool(um), update_Lambda=bool(ul), var_floor=vf, name=nm)
    f = E.tmp('m.h5')
    p.save(f)
    q = type(p).load(f)
    E.reach()
    E.claim('type', type(q) is type(p) and q.is_init and q.x_dim == d)
    E.claim('options', q.name == nm and q.update_mu == bool(um) and q.update_Lambda == bool(ul) and q.var_floor == vf)
    E.eq('mean', q.mu, mu, 1e-4)
    E.eq('precision', q.Lambda, Lam, 1e-4)
    x = E.real('x', (1, d), lo=-2, hi=2)
    if E.symbolic:
        E.eq('density', q.log_prob(x), p.log_prob(x))
