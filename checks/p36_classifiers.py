"""Gaussian back-ends, quality aware scoring, logistic regression and linear SVM"""
import numpy as np
from scipy.special import gammaln
from symx.harness import harness, s_and, s_or
from symx.util import array, slog, sexp, spd, inv, det, zeros, wrap
from symx.fakeh5 import patch_h5
from hyperion.classifiers import LinearGBE, LinearGBEUP, QScoringHomoGBE, LogisticRegression, BinaryLogisticRegression, LinearSVMC
from hyperion.classifiers import logistic_regression as lrm, linear_svmc as svm

TOL = 1e-5
LAB = {(3, 2): [0, 1, 1], (4, 2): [1, 0, 1, 0], (4, 3): [2, 0, 1, 1]}


def quad(P, v):
    d = len(v)
    return sum(P[i][j] * v[i] * v[j] for i in range(d) for j in range(d))


def oracle(E, x, p, balance, prior=None, mu=None):
    """means, covariance, betas and nu of weighted classes, prior = (mu, covariance, beta of each class, nu)"""
    n, d = x.shape
    K = p.shape[1]
    N = [sum(p[i, k] for i in range(n)) for k in range(K)]
    m = [[sum(p[i, k] * x[i, j] for i in range(n)) / N[k] for j in range(d)] for k in range(K)]
    S = [[0] * d for _ in range(d)]
    new = m
    if prior:
        mu0, S0, b0, nu0 = prior
        new = [[(N[k] * m[k][j] + b0[k] * mu0[k][j]) / (N[k] + b0[k]) for j in range(d)] for k in range(K)]
    for a in range(d):
        for c in range(d):
            t = 0
            for k in range(K):
                s = sum(p[i, k] * (x[i, a] - m[k][a]) * (x[i, c] - m[k][c]) for i in range(n))
                if prior:
                    s = s + N[k] * b0[k] / (N[k] + b0[k]) * (m[k][a] - mu0[k][a]) * (m[k][c] - mu0[k][c]) + nu0 / K * S0[a][c]
                t = t + (s / (N[k] + (nu0 / K if prior else 0)) if balance else s)
            S[a][c] = t / K if balance else t / (sum(N) + (nu0 if prior else 0))
    return new, S, [N[k] + (b0[k] if prior else 0) for k in range(K)], sum(N) + (nu0 if prior else 0)


def check(E, g, want, linear=False):
    mu, S, beta, nu = want
    d = len(S)
    E.eq('means', g.mu, array(E, mu), TOL)
    I = [[sum(g.W[i, k] * S[k][j] for k in range(d)) for j in range(d)] for i in range(d)]
    E.eq('precision', array(E, I), np.eye(d), TOL)
    E.eq('beta', array(E, list(g.beta)), array(E, beta), TOL)
    E.eq('nu', g.nu, nu, TOL)
    if not linear:
        return
    E.eq('linear function', g.A, [[sum(g.W[i, j] * g.mu[k, j] for j in range(d)) for k in range(len(mu))] for i in range(d)], TOL)
    E.eq('offset', array(E, list(g.b)), [-0.5 * sum(g.W[i, j] * g.mu[k, i] * g.mu[k, j] for i in range(d) for j in range(d)) for k in range(len(mu))], TOL)


GC = [dict(n=n, K=K, d=d, soft=s, balance=b) for n, K, d in ((3, 2, 1), (4, 2, 2), (4, 3, 1)) for s in ('ids', 'weights', 'post', 'both') for b in (True, False) if not (d == 2 and s != 'ids' or s == 'both' and K == 3)]


def data(E, n, K, d, soft):
    x = E.real('x', (n, d) if d == 1 else 3, lo=-5, hi=5)
    if d == 2:
        x = array(E, [[x[0], 1.0], [0.5, -1.0], [-2.0, x[1]], [x[2], 0.25]])
    y = np.array(LAB[n, K])
    kw, p = {}, np.eye(K)[y]
    if soft in ('post', 'both'):
        q = E.real('p', 2, lo=0.1, hi=1) if soft == 'post' else [0.75, 0.5]
        p = array(E, [[0.25, 0.5, 0.25][:K] for _ in range(n)])
        p[0, 0], p[n - 1, K - 1] = q
        kw['p_theta'] = p
    else:
        kw['class_ids'] = y
    if soft in ('weights', 'both'):
        v = E.real('w', 2, lo=0.5, hi=2) if soft == 'weights' else [0.5, E.real('w', lo=0.5, hi=2)]
        w = array(E, [v[0], 1.5, 0.75, 1.25][:n - 1] + [v[1]])
        kw['sample_weight'] = w
        p = array(E, [[w[i] * p[i, k] for k in range(K)] for i in range(n)])
    return x, p, kw


def well(E, S):
    E.assume(S[0][0] > 0.01)
    if len(S) == 2:
        E.assume(S[0][0] * S[1][1] - S[0][1] * S[1][0] > 0.01)


@harness('P36', configs=GC, bounds='up to 4 vectors of one dimension and 3 classes, with any weights or soft labels of two of them; 3 of 8 values in two dimensions')
def gbe_fit(E, n, K, d, soft, balance):
    """maximum likelihood means and covariance shared by the classes"""
    x, p, kw = data(E, n, K, d, soft)
    want = oracle(E, x, p, balance)
    well(E, want[1])
    g = LinearGBE(mu=np.ones((K, d)), W=2 * np.eye(d), balance_class_weight=balance) if soft == 'ids' and E.bool('again') else LinearGBE(balance_class_weight=balance)
    old = x.copy(), {k: v.copy() for k, v in kw.items()}
    g.fit(x, **kw)
    E.reach()
    E.same('input', x, old[0])
    for k in kw:
        E.same('input ' + k, kw[k], old[1][k])
    check(E, g, want, soft == 'ids')
    E.claim('sizes', g.num_classes == K and g.x_dim == d)


@harness('P36', configs=[dict(n=3, K=2, d=1, balance=b, mode=m) for b in (True, False) for m in ('both', 'means', 'cov', 'file', 'rel')] + [dict(n=4, K=2, d=2, balance=b, mode='both') for b in (True, False)],
         patch=patch_h5, bounds='3 vectors, any prior in one dimension, fixed prior means in two; prior given, loaded or with its counts changed')
def gbe_map(E, n, K, d, balance, mode):
    """maximum a posteriori adaptation"""
    x, p, kw = data(E, n, K, d, 'ids')
    if d == 1:
        mu0 = E.real('m0', (K, d), lo=-3, hi=3)
        s0 = E.real('s0', lo=0.2, hi=3)
        S0 = [[s0]]
        W0 = array(E, [[1 / s0]])
        b0, nu0 = [E.real('b%d' % k, lo=0.5, hi=8) for k in range(K)], E.real('nu0', lo=0.5, hi=8)
    else:
        mu0 = np.array([[0.5, -1.0], [1.0, 0.25]])
        S0 = [[2.0, 0.5], [0.5, 1.0]]
        W0 = np.linalg.inv(np.array(S0))
        b0, nu0 = [2.0, 4.0], 3.0
    prior = LinearGBE(mu=mu0, W=W0, beta=array(E, b0), nu=nu0)
    args = dict(balance_class_weight=balance)
    if mode == 'means':
        args.update(update_W=False, W=array(E, [[2.0]]), mu=array(E, [[0.0], [0.0]]))
    if mode == 'cov':
        args.update(update_mu=False, mu=array(E, [[0.25], [-0.5]]))
    if mode == 'rel':
        args.update(prior_beta=1.5, prior_nu=2.5)
        b0, nu0 = [1.5] * K, 2.5 * K
    if mode == 'file':
        fp = E.tmp('prior.h5')
        prior.save(fp)
        prior = fp
    g = LinearGBE(prior=prior, **args)
    if mode == 'cov':
        fixed = [[0.25], [-0.5]]
        S = 0
        N = [sum(p[i, k] for i in range(n)) for k in range(K)]
        for k in range(K):
            s = sum(p[i, k] * (x[i, 0] - fixed[k][0]) ** 2 for i in range(n)) + nu0 / K * S0[0][0]
            S = S + (s / (N[k] + nu0 / K) / K if balance else s / (sum(N) + nu0))
        g.fit(x, **kw)
        E.reach()
        E.eq('fixed means', g.mu, np.array(fixed), TOL)
        E.eq('precision', g.W[0, 0] * S, 1.0, TOL)
        E.eq('nu', g.nu, sum(N) + nu0, TOL)
        return
    want = oracle(E, x, p, balance, (mu0, S0, b0, nu0))
    well(E, want[1])
    g.fit(x, **kw)
    E.reach()
    if mode == 'means':
        E.eq('adapted means', g.mu, array(E, want[0]), TOL)
        E.eq('fixed precision', g.W, np.array([[2.0]]), TOL)
        E.eq('betas', array(E, list(g.beta)), array(E, want[2]), TOL)
    else:
        check(E, g, want)
        z = E.real('z', (1, d), lo=-5, hi=5)
        y = g.predict(z)
        W, m = g.W, g.mu
        for k in range(1, K):
            dif = -0.5 * (quad(W, [z[0, j] - m[k, j] for j in range(d)]) - quad(W, [z[0, j] - m[0, j] for j in range(d)]))
            E.eq('scores', y[0, k] - y[0, 0], dif, 1e-4)


@harness('P36', configs=[dict(d=d, K=K) for d in (1, 2) for K in (2, 3)], bounds='2 vectors of dimension up to 2 and up to 3 classes; any means and precision')
def gbe_eval(E, d, K):
    """linear scores differ as likelihoods; likelihood and predictive density"""
    W, L = spd(E, 'W', d)
    for i in range(d):
        E.assume(L[i, i] < 3)
        E.assume(L[i, i] > 0.3)
    mu = E.real('mu', (K, d), lo=-5, hi=5)
    x = E.real('x', (2, d), lo=-5, hi=5)
    beta, nu = np.array([1.5, 3.0, 0.75][:K]), 5.5
    g = LinearGBE(mu=mu, W=W, beta=beta, nu=nu)
    y, z, t = g.predict(x), g.predict(x, 'llk'), g.predict(x, 'predictive')
    E.reach()
    logdet = 2 * sum(slog(E, L[i, i]) for i in range(d))
    for i in range(2):
        q = [quad(W, [x[i, j] - mu[k, j] for j in range(d)]) for k in range(K)]
        for k in range(K):
            E.eq('llk', z[i, k], 0.5 * logdet - 0.5 * d * np.log(2 * np.pi) - 0.5 * q[k], 1e-4)
            E.eq('linear', y[i, k] - y[i, 0], -0.5 * (q[k] - q[0]), 1e-4)
            c, r = nu + 1 - d, beta[k] / (beta[k] + 1)
            # T(mu, L, c) with L = c r W / nu
            w = (gammaln((c + d) / 2) - gammaln(c / 2) - 0.5 * d * np.log(c * np.pi) + 0.5 * d * np.log(c * r / nu)
                 + 0.5 * logdet - 0.5 * (c + d) * slog(E, 1 + r * q[k] / nu))
            E.eq('predictive', t[i, k], w, 1e-4)


@harness('P36', configs=[dict(m=m) for m in ('linear', 'llk')], bounds='one vector of one dimension, two classes')
def gbe_norm(E, m):
    """normalized outputs are log posteriors of equal priors"""
    mu = E.real('mu', (2, 1), lo=-2, hi=2)
    x = E.real('x', (1, 1), lo=-2, hi=2)
    g = LinearGBE(mu=mu, W=np.array([[1.0]]))
    y, z = g.predict(x, m), g.predict(x, m, normalize=True)
    E.reach()
    for k in (0, 1):
        E.eq('posterior', sexp(E, z[0, k]) * (1 + sexp(E, y[0, 1 - k] - y[0, k])), 1.0, 1e-4)


@harness('P36', configs=[dict(name=n, post=p) for n in (None, 'g') for p in (0, 1)], patch=patch_h5, bounds='models of one dimension and two classes')
def gbe_save(E, name, post):
    """models are loaded with their scores; posterior counts replace those of the data"""
    x = E.real('x', (3, 1), lo=-5, hi=5)
    E.assume(x[1, 0] > x[2, 0] + 0.1)
    kw = dict(post_beta=2.5, post_nu=4.0) if post else {}
    g = LinearGBE(name=name, **kw)
    g.fit(x, class_ids=np.array([0, 1, 1]))
    fp = E.tmp('gbe.h5')
    g.save(fp)
    h = LinearGBE.load(fp)
    E.reach()
    E.claim('name', h.name == name)
    for a, b in ((h.mu, g.mu), (h.W, g.W), (h.beta, g.beta)):
        E.eq('parameters', a, b, TOL)
    E.eq('nu', h.nu, g.nu, TOL)
    E.eq('counts', array(E, list(g.beta)), np.array([2.5, 2.5] if post else [1, 2]), TOL)
    E.eq('degrees', g.nu, 8.0 if post else 3.0, TOL)
    z = E.real('z', (1, 1), lo=-5, hi=5)
    for m in ('linear', 'llk', 'predictive'):
        E.eq('same ' + m, h.predict(z, m), g.predict(z, m), 1e-4)


@harness('P36', configs=[dict(balance=b, map=m) for b in (True, False) for m in (0, 1)], bounds='3 vectors of dimension one with their variances')
def up_fit(E, balance, map):
    """uncertainty is taken out of the covariance, floored to ten percent over it"""
    x, p, kw = data(E, 3, 2, 1, 'ids')
    s = E.real('s', (3, 1), lo=0.05, hi=2)
    pr, args = None, dict(balance_class_weight=balance)
    if map:
        pr = (np.array([[0.5], [-0.5]]), [[2.0]], [2.0, 3.0], 4.0)
        args['prior'] = LinearGBEUP(mu=pr[0], W=np.array([[0.5]]), beta=np.array(pr[2]), nu=pr[3])
    mu, S, beta, nu = oracle(E, x, p, balance, pr)
    m = (s[0, 0] + s[1, 0] + s[2, 0]) / 3
    E.assume(S[0][0] > 0.01)
    E.assume(s_or(S[0][0] > 1.2101 * m, S[0][0] < 1.2099 * m))
    v = S[0][0] - m if bool(S[0][0] > 1.21 * m) else 0.21 * m
    g = LinearGBEUP(**args)
    xs = array(E, [[x[i, 0], s[i, 0]] for i in range(3)])
    g.fit(xs, **kw)
    E.reach()
    E.eq('means', g.mu, array(E, mu), TOL)
    E.eq('precision', g.W[0, 0] * v, 1.0, 1e-4)


@harness('P36', configs=[dict(d=d) for d in (1, 2)], bounds='2 vectors of dimension up to 2 with their variances, 2 classes')
def up_eval(E, d):
    """scores use the covariance of the class plus that of the vector"""
    W, L = spd(E, 'W', d)
    for i in range(d):
        E.assume(L[i, i] < 3)
        E.assume(L[i, i] > 0.3)
    mu = E.real('mu', (2, d), lo=-5, hi=5)
    n = 2 if d == 1 else 1
    x, s = E.real('x', (n, d), lo=-5, hi=5), E.real('s', (n, d), lo=0.05, hi=2)
    g = LinearGBEUP(mu=mu, W=W)
    y = g.predict(array(E, [[*x[i], *s[i]] for i in range(n)]))
    E.reach()
    C = inv(W)
    for i in range(n):
        P = inv(np.array([[C[a, b] + (s[i, a] if a == b else 0) for b in range(d)] for a in range(d)], dtype=object))
        q = [quad(P, [x[i, j] - mu[k, j] for j in range(d)]) for k in range(2)]
        E.eq('difference', y[i, 1] - y[i, 0], -0.5 * (q[1] - q[0]), 1e-4)


@harness('P36', configs=[dict(n=n, d=d, prior=p, soft=s) for n, d, p, s in ((3, 1, 0, 'ids'), (3, 1, 0, 'weights'), (3, 1, 0, 'post'), (3, 1, 0, 'both'), (4, 2, 0, 'ids'), (3, 1, 1, 'ids'), (3, 1, 2, 'ids'), (3, 1, 3, 'ids'))],
         bounds='up to 4 vectors of dimension up to 2 with their variances, two classes; priors as given or with another count')
def q_fit(E, n, d, prior, soft):
    """posteriors of classes after their vectors, precision averaged over classes"""
    x, p, kw = data(E, n, 2, d, soft)
    s = E.real('s', (n, d), lo=0.1, hi=0.9)
    args = {}
    N = [sum(p[i, k] for i in range(n)) for k in range(2)]
    add = np.zeros(d)
    m0 = np.zeros((2, d))
    n0 = [0.0, 0.0]
    if prior:
        m0 = E.real('m0', (2, d), lo=-3, hi=3)
        w0 = E.real('w0', d, lo=1.1, hi=5)
        n0 = [3.0, 5.0]
        args['prior'] = QScoringHomoGBE(mu=m0, W=w0, N=np.array(n0))
        add = [w0[j] - 1 for j in range(d)]
        if prior == 2:
            args['prior_N'] = 2.0
            add = [2.0 / 4 * a for a in add]
            n0 = [2.0, 2.0]
        if prior == 3:
            args['post_N'] = 6.0
    if soft == 'ids' and not prior:
        args['balance_class_weight'] = E.bool('balance')
    g = QScoringHomoGBE(**args)
    old = {k: v.copy() for k, v in kw.items()}
    g.fit(array(E, [[*x[i], *s[i]] for i in range(n)]), **kw)
    E.reach()
    for k in kw:
        E.same('input ' + k, kw[k], old[k])
    tot = [N[k] + n0[k] for k in range(2)]
    for j in range(d):
        prec = [1 + sum(p[i, k] * (1 / s[i, j] - 1) for i in range(n)) + add[j] for k in range(2)]
        for k in range(2):
            eta = sum(p[i, k] * x[i, j] / s[i, j] for i in range(n)) + ((add[j] + 1) * m0[k, j] if prior else 0)
            E.eq('mean', g.mu[k, j] * prec[k], eta, TOL)
        w = (prec[0] + prec[1]) / 2
        if prior == 3:
            w = 1 + 6.0 / ((tot[0] + tot[1]) / 2) * (w - 1)
        E.eq('precision', g.W[j], w, TOL)
    E.eq('counts', array(E, list(g.N)), array(E, [6.0, 6.0] if prior == 3 else tot), TOL)


@harness('P36', configs=[dict(d=d, n=n) for d in (1, 2) for n in (1, 2)], patch=patch_h5, bounds='up to 2 vectors of dimension up to 2, two classes')
def q_predict(E, d, n):
    """log likelihood ratio of being the same or another, with a standard normal prior; loaded models"""
    mu = E.real('mu', (2, d), lo=-3, hi=3)
    W = E.real('W', d, lo=1.1, hi=5)
    x, s = E.real('x', (n, d), lo=-3, hi=3), E.real('s', (n, d), lo=0.1, hi=0.9)
    g = QScoringHomoGBE(mu=mu, W=W, N=np.array([1.0, 2.0]))
    xs = array(E, [[*x[i], *s[i]] for i in range(n)])
    y = g.predict(xs)
    fp = E.tmp('q.h5')
    g.save(fp)
    h = QScoringHomoGBE.load(fp)
    E.reach()
    for i in range(n):
        for k in range(2):
            w = 0
            for j in range(d):
                le, lt = W[j], 1 / s[i, j]
                l = le + lt - 1
                ee, et = le * mu[k, j], lt * x[i, j]
                w = w + slog(E, le) + slog(E, lt) - slog(E, l) + (ee + et) ** 2 / l - ee ** 2 / le - et ** 2 / lt
            E.eq('llr', 2 * y[i, k], w, 1e-4)
    E.eq('loaded', h.predict(xs), y, 1e-4)
    E.eq('counts', h.N, np.array([1.0, 2.0]), TOL)


class Box(object):
    pass


def any_lr(E, K, d):
    """training of scikit-learn: any coefficients, records what it is given"""
    box = Box()

    def fit(self, X, y, sample_weight=None):
        box.x, box.y, box.w = X, y, sample_weight
        box.c, box.b = E.real('coef', (K, d), lo=-5, hi=5), E.real('icpt', K, lo=-5, hi=5)
        self.coef_, self.intercept_, self.classes_ = box.c, box.b.copy(), np.arange(max(K, 2))
        return self
    return box, fit


def swapped(cls, fit):
    import contextlib

    @contextlib.contextmanager
    def ctx():
        old = cls.fit
        cls.fit = fit
        try:
            yield
        finally:
            cls.fit = old
    return ctx()


@harness('P36', configs=[dict(K=K, pri=p, w=w, sc=s) for K, p, w, s in ((3, None, 0, 1), (3, None, 1, 1), (3, 'dict', 1, 1), (3, 'list', 0, 2.0), (1, 0.5, 0, 1), (1, 0.125, 1, 1), (1, 0.125, 0, 10.0))], patch=patch_h5,
         bounds='4 vectors of one dimension, two classes (one output) or three; any coefficients after training', assumptions=['the optimizer of scikit-learn is any function'])
def lr(E, K, pri, w, sc):
    """weights given to the optimizer, calibration of its output to log likelihoods, posteriors, persistence"""
    y = np.array([2, 0, 1, 1] if K == 3 else [1, 0, 0, 0])
    x = E.real('x', (4, 1), lo=-3, hi=3)
    sw = E.real('w', 4, lo=0.5, hi=2) if w else None
    p = [1.0 / 3] * 3 if pri is None else [0.25, 0.25, 0.5] if K == 3 else [1 - pri, pri]
    if K == 3:
        m = LogisticRegression(priors=None if pri is None else dict(enumerate(p)) if pri == 'dict' else np.array(p), bias_scaling=sc, lambda_reg=0.5, name='m')
    else:
        m = BinaryLogisticRegression(prior=pri, bias_scaling=sc, lambda_reg=0.5, name='m')
    E.claim('regularization', abs(m.lr.C - 2.0) < 1e-9 and m.lr.intercept_scaling == sc)
    box, fit = any_lr(E, K, 1)
    ox, osw = x.copy(), None if sw is None else sw.copy()
    with swapped(lrm.LR, fit):
        m.fit(x, y, sample_weight=sw)
    E.reach()
    E.same('x', x, ox)
    if w:
        E.same('weights of the caller', sw, osw)
    cnt = [sum(1 for v in y if v == k) for k in range(len(p))]
    E.eq('weights', box.w, array(E, [(sw[i] if w else 1) * p[y[i]] / cnt[y[i]] for i in range(4)]), TOL)
    E.eq('A', m.A, array(E, [[box.c[k, 0] for k in range(K)]]), TOL)
    off = [np.log(v) for v in p] if K == 3 else [np.log(pri / (1 - pri))]
    E.eq('b', m.b, array(E, [box.b[k] - off[k] for k in range(K)]), TOL)
    z = E.real('z', 1, lo=-3, hi=3)
    lin = [z[0] * box.c[k, 0] + box.b[k] - off[k] for k in range(K)]
    s = m.predict(z if E.bool('flat') else array(E, [[z[0]]]))
    E.eq('logit', s.reshape(-1), array(E, lin), TOL)
    s = m.predict(array(E, [z[0], 2 * z[0] - 1]))
    E.claim('one score per sample', s.size == 2 * len(lin))
    E.eq('logits', s.reshape(2, -1)[1], array(E, [(2 * z[0] - 1) * box.c[k, 0] + box.b[k] - off[k] for k in range(K)]), TOL)
    fp = E.tmp('lr.h5')
    m.save(fp)
    l = type(m).load(fp)
    E.eq('loaded', l.predict(array(E, [[z[0]]])).reshape(-1), array(E, lin), 1e-4)
    E.claim('name', l.name == 'm')
    q = array(E, [[z[0] / 4]])
    for k in range(K):
        for v in (box.c[k, 0], box.b[k]):
            E.assume(v < 1)
            E.assume(v > -1)
    t = [z[0] / 4 * box.c[k, 0] + box.b[k] for k in range(K)]
    for mod in (m, l):
        if K == 1:
            E.eq('posterior', mod.predict(q, 'post')[0] * (1 + sexp(E, -t[0])), 1.0, 1e-4)
            E.eq('log posterior', sexp(E, -mod.predict(q, 'log-post')[0]), 1 + sexp(E, -t[0]), 1e-4)
        else:
            o = mod.predict(q, 'post')[0]
            e = [sexp(E, v) for v in t]
            for k in range(3):
                E.eq('posterior %d' % k, o[k] * (e[0] + e[1] + e[2]), e[k], 1e-3)


@harness('P36', configs=[dict(K=K, sc=s, bal=b) for K in (1, 3) for s, b in ((1, True), (10.0, False))], patch=patch_h5, bounds='3 vectors of one dimension; any coefficients after training', assumptions=['the optimizer of scikit-learn is any function'])
def svmc(E, K, sc, bal):
    """linear scores of the machine, posteriors of its scores, persistence"""
    x = E.real('x', (3, 1), lo=-1, hi=1)
    sw = E.real('w', 3, lo=0.5, hi=2)
    y = np.array([0, 1, 2][:3]) if K == 3 else np.array([0, 1, 1])
    m = LinearSVMC(C=3.0, bias_scaling=sc, balance_class_weight=bal)
    E.claim('options', m.svm.C == 3.0 and m.svm.class_weight == ('balanced' if bal else None))
    box, fit = any_lr(E, K, 1)
    with swapped(svm.SVC, fit):
        m.fit(x, y, sample_weight=sw)
    E.reach()
    E.same('x given', box.x, x)
    E.same('weights given', box.w, sw)
    E.claim('labels given', list(box.y) == list(y))
    z = E.real('z', (1, 1), lo=-1, hi=1)
    s = [z[0, 0] * box.c[k, 0] + box.b[k] for k in range(K)]
    fp = E.tmp('svm.h5')
    m.save(fp)
    l = LinearSVMC.load(fp)
    l.save(fp)
    l = LinearSVMC.load(fp)
    for mod in (m, l):
        E.eq('scores', mod.predict(z)[0], array(E, s), 1e-4)
        o = mod.predict(z, 'bin-post')[0]
        q = mod.predict(z, 'bin-logpost')[0]
        for k in range(K):
            E.assume(s[k] < 3)
            E.assume(s[k] > -3)
            E.eq('posterior', o[k] * (1 + sexp(E, -s[k])), 1.0, 1e-4)
            E.eq('log posterior', sexp(E, -q[k]), 1 + sexp(E, -s[k]), 1e-3)
        if K == 3:
            o = mod.predict(z, 'cat-post')[0]
            e = [sexp(E, v) for v in s]
            for k in range(3):
                E.eq('category %d' % k, o[k] * (e[0] + e[1] + e[2]), e[k], 1e-3)
