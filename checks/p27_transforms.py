"""Vector transforms: centering, whitening, length norm, projections, Gaussianization, chains and persistence"""
from fractions import Fraction
import numpy as np
from scipy.special import erfinv
from symx.harness import harness, s_and, s_or
from symx.util import ssqrt, wrap, array, zeros, spd, eigen, gen_eigen, rotation, sym
from symx.fakeh5 import patch_h5
from hyperion.transforms.cent_whiten import CentWhiten
from hyperion.transforms.cent_whiten_up import CentWhitenUP
from hyperion.transforms.lnorm import LNorm
from hyperion.transforms.lnorm_up import LNormUP
from hyperion.transforms.pca import PCA
from hyperion.transforms.lda import LDA
from hyperion.transforms.nda import NDA
from hyperion.transforms.nap import NAP
from hyperion.transforms.mvn import MVN
from hyperion.transforms.sb_sw import SbSw, NSbSw
from hyperion.transforms.gaussianizer import Gaussianizer
from hyperion.transforms.transform_list import TransformList

H5 = ['file storage is replaced by an in-memory store in the symbolic runs (the replay uses h5py)']


def mat(E, name, shape, lo=-3, hi=3):
    return E.real(name, shape, lo=lo, hi=hi)


def dot(a, b):
    return wrap(np.asarray(a).dot(np.asarray(b)))


def apply(E, x, mu, T):
    n, d = x.shape
    z = x - mu if mu is not None else x
    if T is None:
        return z
    if T.ndim == 1:
        return array(E, [[z[t, i] * T[i] for i in range(d)] for t in range(n)])
    return array(E, [[sum(z[t, i] * T[i, j] for i in range(d)) for j in range(T.shape[1])] for t in range(n)])


@harness('P27', configs=[dict(cls=c, mu=m, T=t) for c in ('CentWhiten', 'LNorm', 'CentWhitenUP', 'LNormUP') for m in (0, 1) for t in (None, (2,), (2, 2), (2, 1))] +
         [dict(cls=c, mu=m, T=(2, 1)) for c in ('PCA', 'LDA', 'NDA') for m in (0, 1)], bounds='2 vectors of dimension 2')
def application(E, cls, mu, T):
    m = mat(E, 'mu', 2) if mu else None
    A = mat(E, 'T', T) if T else None
    x = mat(E, 'x', (2, 2))
    up = cls.endswith('UP')
    s = E.real('s', (2, 2), lo=0, hi=4)
    X = array(E, [list(x[t]) + list(s[t]) for t in range(2)]) if up else x
    X0, m0, A0 = X.copy(), m.copy() if mu else None, A.copy() if T else None
    t = globals()[cls](mu=m, T=A)
    if cls.startswith('LNorm'):
        z0 = apply(E, x, m, A)
        for k in range(2):
            E.assume(sum(v * v for v in z0[k]) > 0.01)
    y = t.predict(X)
    E.reach()
    E.same('input', X, X0)
    if mu:
        E.same('mean', m, m0)
    if T:
        E.same('transform', A, A0)
    z = apply(E, x, m, A)
    k = z.shape[1]
    E.claim('shape', y.shape == (2, 2 * k if up else k))
    v = None
    if up:
        B = None if A is None else A * A
        v = apply(E, s, None, B)
    for i in range(2):
        if not cls.startswith('LNorm'):
            E.eq('vector', y[i, :k], z[i])
            if up:
                E.eq('variance', y[i, k:], v[i])
            continue
        q = sum(a * a for a in z[i])
        if up:
            n = ssqrt(E, q + 1e-10)
            E.eq('vector', [a * n for a in y[i, :k]], z[i])
            E.eq('variance', [a * (q + 1e-10) for a in y[i, k:]], v[i])
        else:
            n = (ssqrt(E, q) + 1e-10) / ssqrt(E, array(E, [k * 1.0])[0])
            E.eq('vector', [a * n for a in y[i]], z[i])


@harness('P27', configs=[dict(cls=c) for c in ('LNorm', 'LNormUP')], bounds='any vector of dimension 2 with norm at least 0.1')
def unit_length(E, cls):
    x = mat(E, 'x', (1, 2))
    E.assume(x[0, 0] * x[0, 0] + x[0, 1] * x[0, 1] > 0.01)
    if cls == 'LNormUP':
        s = E.real('s', (1, 2), lo=0, hi=4)
        y = LNormUP(T=np.eye(2)).predict(array(E, [list(x[0]) + list(s[0])]))
        want = 1
    else:
        y = LNorm().predict(x)
        want = 2
    E.reach()
    n = y[0, 0] * y[0, 0] + y[0, 1] * y[0, 1]
    E.claim('length', s_and(n < want * (1 + 1e-7), n > want * (1 - 1e-7)))
    E.claim('direction', y[0, 0] * x[0, 1] - y[0, 1] * x[0, 0] == 0 if E.symbolic else abs(y[0, 0] * x[0, 1] - y[0, 1] * x[0, 0]) < 1e-6)
    E.claim('same side', y[0, 0] * x[0, 0] + y[0, 1] * x[0, 1] > 0)


def check_eigvecs(E, nm, T, C, S, k):
    """columns of T: S-orthonormal eigenvectors of C by decreasing eigenvalue, first row not negative"""
    d = len(C)
    E.claim(nm + ': shape', T.shape == (d, k))
    G = dot(dot(T.T, S), T) if S is not None else dot(T.T, T)
    E.eq(nm + ': orthonormal', G, np.eye(k), 1e-5)
    M = dot(dot(T.T, C), T)
    for i in range(k):
        for j in range(k):
            if i != j:
                E.eq(nm + ': uncorrelated', M[i, j], 0, 1e-5)
        E.claim(nm + ': sign', T[0, i] >= 0)
        if i:
            E.claim(nm + ': order', M[i - 1, i - 1] >= M[i, i] - (0 if E.symbolic else 1e-6))
    # the direction left out carries less
    if k < d:
        tr = M[0, 0]
        E.eq(nm + ': eigenvector', dot(C, T), (dot(S, T) if S is not None else T) * tr, 1e-5)
    return M


@harness('P27', configs=[dict(cls=c, d=d, k=k, um=um, ut=ut) for c in ('CentWhiten', 'PCA', 'LDA', 'NDA') for d in (1, 2) for k in (None, 1, 2) for um in (0, 1) for ut in (0, 1)
                         if not (k and k > d) and not (c == 'CentWhiten' and k) and not (c == 'NDA' and not (um and ut))], bounds='dimension up to 2, every pair of (positive definite) matrices')
def estimation_from_moments(E, cls, d, k, um, ut):
    mu = mat(E, 'mu', d)
    T0, mu0 = np.eye(d) * 2, np.zeros(d)
    kw = dict(update_mu=bool(um), update_T=bool(ut))
    if cls in ('LDA', 'NDA'):
        C, S, V, w = gen_eigen(E, 'C', d, lo=0, hi=5)
        C0, S0 = C.copy(), S.copy()
        if cls == 'LDA':
            t = LDA(mu=mu0, T=T0, **kw)
            t.lda_dim = k
            t.fit(None, None, mu=mu, Sb=C, Sw=S)
        else:
            t = NDA()
            t.fit(mu, C, S, nda_dim=k)
        E.same('matrix', S, S0)
    else:
        C, V, w = eigen(E, 'C', d, lo=1e-6 if d == 1 else 0.05, hi=5)
        C0, S = C.copy(), None
        t = CentWhiten(mu=mu0, T=T0, **kw) if cls == 'CentWhiten' else PCA(mu=mu0, T=T0, pca_dim=k, **kw)
        t.fit(mu=mu, C=C)
    E.reach()
    E.same('matrix', C, C0)
    E.same('mean', t.mu, mu if um else mu0)
    if not ut:
        E.claim('transform kept', t.T is T0)
        return
    q = k or d
    if d == 2 and q == 1:
        # top eigenvalue
        top = w[0] if bool(w[0] >= w[1]) else w[1]
    if cls == 'CentWhiten':
        E.claim('shape', t.T.shape == (d, d))
        E.eq('white', dot(dot(t.T.T, C), t.T), np.eye(d), 1e-5)
        for i in range(d):
            E.claim('sign', t.T[0, i] >= 0)
        G = dot(t.T.T, t.T)
        if d == 2:
            E.eq('principal axes', G[0, 1], 0, 1e-5)
            E.claim('order', G[0, 0] <= G[1, 1] + (0 if E.symbolic else 1e-6))
        return
    M = check_eigvecs(E, cls, t.T, C, S, q)
    if d == 2 and q == 1:
        E.eq('largest eigenvalue', M[0, 0], top, 1e-5)


@harness('P27', configs=[dict(z=z) for z in (0, 1)], bounds='dimension 2, one eigenvalue zero')
def whitening_of_singular(E, z):
    """directions without variance are left out"""
    R = rotation(E, 'R', 2)
    w = E.real('w', lo=0.05, hi=5)
    ww = [0.0, w] if z == 0 else [w, 0.0]
    u = R[:, 1 - z]
    from symx import symnp
    C = array(E, [[w * u[i] * u[j] for j in range(2)] for i in range(2)])
    if E.symbolic:
        symnp.EIGS.append((np.asarray(C), None, np.asarray(R), ww))
    t = CentWhiten()
    if not E.symbolic:
        # rounding makes the zero eigenvalue arbitrary: use a matrix that stays exactly singular
        C = np.diag(ww)
        u = np.eye(2)[1 - z]
    with np.errstate(all='ignore'):
        t.fit(mu=np.zeros(2), C=C)
    E.reach()
    E.claim('shape', t.T.shape == (2, 1))
    E.eq('white', dot(dot(t.T.T, C), t.T), [[1]])
    E.eq('direction', t.T[0, 0] * u[1] - t.T[1, 0] * u[0], 0)


def turn(E):
    """one rotation of the plane"""
    if not E.symbolic:
        return np.array([[0.6, -0.8], [0.8, 0.6]])
    from symx.core import const
    c, s = const(Fraction(3, 5)), const(Fraction(4, 5))
    return array(E, [[c, -s], [s, c]])


Z = np.array([[1., 1.], [1., -1.], [-1., 1.], [-1., -1.]])


@harness('P27', configs=[dict(cls=c, d=d, k=k, w=w) for c in ('CentWhiten', 'PCA', 'CentWhitenUP') for d in (1, 2) for k in ((None,) if c != 'PCA' else (None, 1)) for w in (0, 1) if not (c == 'PCA' and w) and not (d == 2 and w)],
         bounds='3 or 4 samples of dimension up to 2')
def estimation_from_data(E, cls, d, k, w):
    m = mat(E, 'm', d)
    if d == 1:
        n = 2 if w else 3
        x = mat(E, 'x', (n, 1))
        s = E.real('w', n, lo=0.1, hi=5) if w else None
        if w:
            E.assume(x[0, 0] > x[1, 0] + 0.5)
        ww = list(s) if w else [1] * n
        N = sum(ww)
        mean = sum(ww[t] * x[t, 0] for t in range(n)) / N
        C = sum(ww[t] * (x[t, 0] - mean) ** 2 for t in range(n)) / N
        if not w:
            E.assume(C > 0.01)
    else:
        n, s = 4, None
        R = rotation(E, 'R', 2) if cls == 'PCA' else turn(E)
        e = [E.real('e%d' % i, lo=0.3, hi=3) for i in range(2)]
        x = array(E, [[m[j] + sum(Z[t, i] * e[i] * R[j, i] for i in range(2)) for j in range(2)] for t in range(n)])
        mean = m
        C = array(E, [[sum(e[i] * e[i] * R[a, i] * R[b, i] for i in range(2)) for b in range(2)] for a in range(2)])
        if E.symbolic:
            from symx import symnp
            symnp.EIGS.append((np.asarray(C), None, np.asarray(R), [e[0] * e[0], e[1] * e[1]]))
    X = x
    if cls == 'CentWhitenUP':
        X = array(E, [list(x[t]) + [0.5] * d for t in range(n)])
    X0 = X.copy()
    t = globals()[cls](pca_dim=k) if cls == 'PCA' else globals()[cls]()
    if cls == 'PCA':
        t.fit(X)
    else:
        t.fit(X, sample_weight=s)
    E.reach()
    E.same('input', X, X0)
    E.eq('mean', t.mu, [mean] if d == 1 else mean)
    if d == 1:
        E.claim('shape', t.T.shape == (1, 1) and (True if E.symbolic else t.T[0, 0] > 0))
        E.eq('transform', t.T[0, 0] * t.T[0, 0] * (C if cls != 'PCA' else 1), 1, 1e-5)
        return
    if cls == 'PCA':
        M = check_eigvecs(E, 'PCA', t.T, C, None, k or d)
        if k:
            E.claim('largest', M[0, 0] >= M[0, 0] * 0 + (C[0, 0] + C[1, 1]) / 2 - (0 if E.symbolic else 1e-6))
        return
    E.eq('white', dot(dot(t.T.T, C), t.T), np.eye(2), 1e-5)


@harness('P27', configs=[dict(n=n, d=d) for n, d in ((1, 1), (1, 2), (2, 2), (2, 3))], bounds='up to 2 samples of dimension up to 3')
def few_samples(E, n, d):
    """too few samples to whiten: only centered"""
    x = mat(E, 'x', (n, d))
    t = CentWhiten()
    t.fit(x)
    E.reach()
    E.eq('mean', t.mu, [sum(x[i, j] for i in range(n)) / n for j in range(d)])
    G = dot(t.T.T, t.T)
    E.eq('rotation', G, np.eye(d))


@harness('P27', configs=[dict(n=n, d=d) for n in (1, 2, 3) for d in (1, 2)], bounds='up to 3 samples of dimension up to 2')
def mean_variance(E, n, d):
    x = mat(E, 'x', (n, d))
    x0 = x.copy()
    t = MVN()
    t.fit(x)
    mean = [sum(x[i, j] for i in range(n)) / n for j in range(d)]
    var = [sum((x[i, j] - mean[j]) ** 2 for i in range(n)) / n for j in range(d)]
    E.eq('mean', t.mu, mean)
    E.eq('variance', t.s * t.s, var)
    E.claim('positive', s_and(*[v >= 0 for v in t.s]))
    m, s = mat(E, 'm', d), E.real('s', d, lo=0.1, hi=3)
    for a, b in ((0, 0), (1, 0), (0, 1), (1, 1)):
        y = MVN(mu=m if a else None, s=s if b else None).predict(x)
        E.eq('normalized', y, array(E, [[(x[i, j] - (m[j] if a else 0)) / (s[j] if b else 1) for j in range(d)] for i in range(n)]))
    E.reach()
    E.same('input', x, x0)


def labelled(E, n, k):
    ids = np.array([E.choice('c%d' % i, k) for i in range(n)])
    return ids


def scatter(E, x, ids):
    """sums over classes of class means, of their products and of class covariances"""
    n, d = x.shape
    cs = sorted(set(ids.tolist()))
    mu, B, W = [0] * d, zeros(E, (d, d)), zeros(E, (d, d))
    for c in cs:
        ix = [i for i in range(n) if ids[i] == c]
        m = [sum(x[i, j] for i in ix) / len(ix) for j in range(d)]
        for a in range(d):
            mu[a] = mu[a] + m[a]
            for b in range(d):
                B[a, b] = B[a, b] + m[a] * m[b]
                W[a, b] = W[a, b] + sum((x[i, a] - m[a]) * (x[i, b] - m[b]) for i in ix) / len(ix)
    return len(cs), mu, B, W


@harness('P27', configs=[dict(n=n, d=d, k=k, norm=nm) for n, d, k in ((2, 1, 1), (3, 1, 2), (3, 2, 3), (4, 1, 3)) for nm in (0, 1)], bounds='up to 4 samples of dimension up to 2 in up to 3 classes (any labels)')
def scatter_matrices(E, n, d, k, norm):
    x = mat(E, 'x', (n, d))
    ids = labelled(E, n, k) * 3 + 2
    x0, i0 = x.copy(), ids.copy()
    s = SbSw()
    s.fit(x, ids, normalize=bool(norm))
    E.reach()
    E.same('input', x, x0)
    E.claim('labels', list(ids) == list(i0))
    M, mu, B, W = scatter(E, x, ids)
    E.claim('classes', s.num_classes == M)
    if norm:
        mu = [v / M for v in mu]
        B, W = array(E, [[B[i, j] / M - mu[i] * mu[j] for j in range(d)] for i in range(d)]), W / M
    E.eq('mean', s.mu, mu)
    E.eq('between', s.Sb, B)
    E.eq('within', s.Sw, W)


def distance(E, a, b):
    if len(a) == 1:
        return a[0] - b[0] if bool(a[0] >= b[0]) else b[0] - a[0]
    return ssqrt(E, sum((u - v) ** 2 for u, v in zip(a, b)))


class Tree(object):
    """nearest neighbours by comparison of all the distances"""
    def __init__(self, x):
        self.x = x

    def query(self, y, k=1, **kw):
        D, I = np.empty((len(y), k), dtype=object), np.empty((len(y), k), dtype=int)
        for t in range(len(y)):
            v = [sum((a - b) ** 2 for a, b in zip(y[t], r)) for r in self.x]
            order = []
            for j in range(len(v)):
                at = 0
                while at < len(order) and bool(v[order[at]] <= v[j]):
                    at += 1
                order.insert(at, j)
            for c in range(k):
                I[t, c] = order[c]
                D[t, c] = distance(ENV[0], y[t], self.x[order[c]])
        return wrap(D), I


ENV = [None]


def patch_tree(env):
    import hyperion.transforms.sb_sw as m
    ENV[0] = env
    return dict(setattrs=[(m, 'BallTree', Tree)])


@harness('P27', patch=patch_tree, configs=[dict(ids=i, K=K, d=d, alpha=a, norm=nm) for i, K, d in (((1, 0, 0, 1), 2, 1), ((0, 0, 1, 1), 2, 2), ((0, 1, 0, 0, 1), 2, 1), ((0, 1, 1, 2, 2, 0), 2, 2)) for a in (1, 2) for nm in (0, 1)],
         bounds='up to 6 samples of dimension up to 2 in up to 3 classes, 2 nearest neighbours; one sample moves along a line, the others are in two arrangements',
         assumptions=['the neighbours of the ball tree are the nearest samples'])
def neighbour_scatter(E, ids, K, d, alpha, norm):
    """scatter around the mean of the nearest neighbours in each class, weighted by the distance to the boundary between classes"""
    n = len(ids)
    P = np.array([[0.3, -1], [-1.2, 0.5], [2.1, 0.8], [0.9, 2.2], [-0.4, -2], [1.5, -0.7]])[:n, :d]
    ids = np.array(ids)
    C = int(np.max(ids)) + 1
    shift = E.bool('shift')
    P = P + np.array([[0.25 if i % 2 and shift else 0.] for i in range(n)])
    w = E.choice('which', 2)
    t = E.real('t', lo=-2.9, hi=2.95) if d == 1 else (-1.1, 0.05, 0.6, 2.7)[E.choice('t', 4)]
    x = array(E, P)
    x[w, 0] = t
    if d == 1:
        for i in range(n):
            if i != w:
                E.assume(s_or(t > P[i, 0] + 0.01, t < P[i, 0] - 0.01))
                for j in range(i):
                    if j != w:
                        # no ties between neighbours
                        E.assume(s_or(2 * t > P[i, 0] + P[j, 0] + 0.01, 2 * t < P[i, 0] + P[j, 0] - 0.01))
    x0 = x.copy()
    s = NSbSw(K=K, alpha=alpha)
    s.fit(x, ids, normalize=bool(norm))
    E.reach()
    E.same('input', x, x0)
    mu, B, W = [0] * d, zeros(E, (d, d)), zeros(E, (d, d))
    near = {}
    for l in range(n):
        for c in range(C):
            own = [t for t in range(n) if ids[t] == c]
            r = {t: sum((x[l, a] - x[t, a]) ** 2 for a in range(d)) for t in own}
            own = sorted(own, key=lambda t: sum(1 for q in r if bool(r[q] < r[t])))
            far = distance(E, x[l], x[own[K - 1]])
            near[l, c] = far ** alpha, [x[l, a] - sum(x[t, a] for t in own[:K]) / K for a in range(d)]
    for c in range(C):
        own = [t for t in range(n) if ids[t] == c]
        mc = [sum(x[t, a] for t in own) / len(own) for a in range(d)]
        mu = [u + v for u, v in zip(mu, mc)]
        num, den = zeros(E, (d, d)), 0
        for l in own:
            dl = near[l, c][1]
            W = W + array(E, [[dl[a] * dl[b] / len(own) for b in range(d)] for a in range(d)])
            for o in range(C):
                if o != c:
                    u, v = near[l, c][0], near[l, o][0]
                    w = (u if bool(u < v) else v) / (u + v)
                    dl = near[l, o][1]
                    num = num + w * array(E, [[dl[a] * dl[b] for b in range(d)] for a in range(d)])
                    den = den + w
        B = B + num / den
    q = C if norm else 1
    E.claim('classes', s.num_classes == C)
    E.eq('mean', s.mu, [v / q for v in mu])
    E.eq('within', s.Sw, W / q)
    E.eq('between', s.Sb, B / q)


@harness('P27', configs=[dict(d=d, m=m) for d in (1, 2) for m in (1, 2, 3)], bounds='up to 3 sets of statistics, dimension up to 2')
def scatter_sum(E, d, m):
    st = [SbSw(Sb=sym(E, 'B%d' % i, d), Sw=sym(E, 'W%d' % i, d), mu=mat(E, 'm%d' % i, d), num_classes=i + 1) for i in range(m)]
    old = [(s.Sb.copy(), s.Sw.copy(), s.mu.copy(), s.num_classes) for s in st]
    t = SbSw.accum_stats(st)
    E.reach()
    M = sum(o[3] for o in old)
    mu = [sum(o[2][i] for o in old) for i in range(d)]
    B = array(E, [[sum(o[0][i, j] for o in old) for j in range(d)] for i in range(d)])
    W = array(E, [[sum(o[1][i, j] for o in old) for j in range(d)] for i in range(d)])
    E.claim('classes', t.num_classes == M)
    E.eq('mean', t.mu, mu)
    E.eq('between', t.Sb, B)
    E.eq('within', t.Sw, W)
    t.normalize()
    mu = [v / M for v in mu]
    E.eq('mean', t.mu, mu)
    E.eq('between', t.Sb, array(E, [[B[i, j] / M - mu[i] * mu[j] for j in range(d)] for i in range(d)]))
    E.eq('within', t.Sw, W / M)
    for s, o in zip(st, old):
        E.same('part', s.Sb, o[0])
        E.same('part', s.Sw, o[1])
        E.same('part', s.mu, o[2])


@harness('P27', configs=[dict(n=n, k=k, um=um, ut=ut) for n, k in ((3, 2), (4, 2), (4, 3)) for um in (0, 1) for ut in (0, 1)], bounds='up to 4 samples of dimension 1 in up to 3 classes')
def lda_from_data(E, n, k, um, ut):
    x = mat(E, 'x', (n, 1))
    ids = labelled(E, n, k)
    M, mu, B, W = scatter(E, x, ids)
    E.assume(W[0, 0] > 0.01 * M)
    t = LDA(update_mu=bool(um), update_T=bool(ut))
    # without all the moments, those of the data
    part = E.choice('part', 3)
    t.fit(x, ids, **[{}, dict(mu=np.array([7.])), dict(Sb=np.array([[7.]]), mu=np.array([7.]))][part])
    E.reach()
    E.claim('mean', um or t.mu is None)
    if um:
        E.eq('mean', t.mu, [mu[0] / M])
    E.claim('transform', ut or t.T is None)
    if ut:
        E.eq('within class variance', t.T[0, 0] * t.T[0, 0] * W[0, 0], M, 1e-5)


@harness('P27', configs=[dict(k=k) for k in (1, 2)], bounds='2 vectors of dimension 2 or 3, 1 or 2 removed directions')
def nuisance_projection(E, k):
    d = 2 if k == 1 else 3
    R = rotation(E, 'R', d)
    U = R[:, :k].T
    x = mat(E, 'x', (1 if d == 3 else 2, d))
    x0 = x.copy()
    y = NAP(U).predict(x)
    E.reach()
    E.same('input', x, x0)
    E.claim('shape', y.shape == x.shape)
    E.eq('removed', dot(y, U.T), np.zeros((len(x), k)), 1e-6)
    V = R[:, k:]
    E.eq('kept', dot(y, V), dot(x, V), 1e-6)


@harness('P27', configs=[dict(case=c) for c in (0, 1, 2, 3, 4)], bounds='up to 6 samples of dimension up to 2 in up to 2 classes')
def nuisance_estimation(E, case):
    """the removed direction is the top eigenvector of the average within class covariance"""
    m = mat(E, 'm', (2, 2))
    if case == 0:
        a = E.real('a', lo=0.1, hi=3)
        x = array(E, [[m[0, 0] + a], [m[0, 0] - a], [m[1, 0]]])
        ids = np.array([4, 4, 1])
        C = array(E, [[a * a / 2]])
    else:
        R = rotation(E, 'R', 2)
        e = [E.real('e%d' % i, lo=0.3, hi=3) for i in range(2)]
        E.assume(e[0] > e[1] + 0.1) if case in (1, 3) else E.assume(e[1] > e[0] + 0.1)
        of = [0, 0, 1, 1] + ([1, 1] if case > 2 else [])
        x = array(E, [[m[c, j] + (1 if t % 2 else -1) * e[c] * R[j, c] for j in range(2)] for t, c in enumerate(of)])
        ids = np.array([0, 7])[of]
        C = array(E, [[sum(e[i] * e[i] * R[a, i] * R[b, i] for i in range(2)) / 2 for b in range(2)] for a in range(2)])
        if E.symbolic:
            from symx import symnp
            symnp.EIGS.append((np.asarray(C), None, np.asarray(R), [e[0] * e[0] / 2, e[1] * e[1] / 2]))
    x0 = x.copy()
    t = NAP()
    t.fit(x, 1, ids)
    E.reach()
    E.same('input', x, x0)
    d = x.shape[1]
    E.claim('shape', t.U.shape == (1, d))
    E.eq('unit', dot(t.U, t.U.T), [[1]], 1e-5)
    if d == 2:
        top = R[:, (case - 1) % 2]
        E.eq('top direction', t.U[0, 0] * top[1] - t.U[0, 1] * top[0], 0, 1e-5)


def patch_erfinv(env):
    return dict(extra=[(erfinv, lambda v: erfinv(np.array([float(a) for a in np.ravel(v)]).reshape(np.shape(v))))])


@harness('P27', patch=patch_erfinv, configs=[dict(n=n, mx=mx, d=d) for n in (1, 2, 3, 4) for mx in (None, 1, 2, 3, 5) for d in (1, 2) if not (n == 4 and d == 2) and not (d == 2 and n == 3 and mx)], bounds='up to 4 background vectors, 2 test vectors, dimension up to 2')
def gaussianization(E, n, mx, d):
    x = mat(E, 'x', (n, d))
    x0 = x.copy()
    g = Gaussianizer(max_vectors=mx)
    g.fit(x)
    E.same('input', x, x0)
    k = n if mx is None or n <= mx else mx
    E.claim('number of vectors', g.r.shape == (k + 1, d))
    y = mat(E, 'y', (2 if d == 1 else 1, d))
    y0 = y.copy()
    z = g.predict(y)
    E.reach()
    E.same('input', y, y0)
    E.claim('shape', z.shape == y.shape)
    grid = erfinv(2 * np.linspace(0, 1, k + 3)[1:-1] - 1) * np.sqrt(2)
    ix = list(range(n)) if k == n else [int(round(v)) for v in np.linspace(0, n - 1, mx)] if mx > 1 else [0]
    for j in range(d):
        # background values kept: order statistics evenly spread
        for i in range(k):
            v = g.r[i + 1, j]
            E.claim('value of the background', s_or(*[v == x[t, j] for t in range(n)]))
            if E.symbolic or True:
                below = sum((0 + x[t, j] < v) for t in range(n))
                upto = sum((0 + x[t, j] <= v) for t in range(n))
                E.claim('order statistic', s_and(below <= ix[i], upto > ix[i]))
        for t in range(len(y)):
            c = sum((0 + g.r[i + 1, j] < y[t, j]) for i in range(k))
            E.claim('normal quantile of the rank', s_or(*[s_and(c == i, close(z[t, j], grid[i])) for i in range(k + 1)]))
    if len(y) == 2:
        E.claim('monotone', s_or(y[0, 0] > y[1, 0], z[0, 0] <= z[1, 0]))


def close(a, b):
    return s_and(a - b < 1e-9, b - a < 1e-9)


MAKE = dict(
    CentWhiten=lambda E, n, nm, f: CentWhiten(mu=mat(E, n + 'mu', 2) if f[0] else None, T=mat(E, n + 'T', (2, 2)) if f[1] else None, update_mu=bool(f[2]), update_T=bool(f[3]), name=nm),
    LNorm=lambda E, n, nm, f: LNorm(mu=mat(E, n + 'mu', 2) if f[0] else None, T=mat(E, n + 'T', (2, 2)) if f[1] else None, update_mu=bool(f[2]), update_T=bool(f[3]), name=nm),
    CentWhitenUP=lambda E, n, nm, f: CentWhitenUP(mu=mat(E, n + 'mu', 2) if f[0] else None, T=mat(E, n + 'T', (2, 2)) if f[1] else None, update_mu=bool(f[2]), update_T=bool(f[3]), name=nm),
    PCA=lambda E, n, nm, f: PCA(mu=mat(E, n + 'mu', 2) if f[0] else None, T=mat(E, n + 'T', (2, 2)), pca_dim=2 if f[1] else None, update_mu=bool(f[2]), update_T=bool(f[3]), name=nm),
    LDA=lambda E, n, nm, f: LDA(mu=mat(E, n + 'mu', 2) if f[0] else None, T=mat(E, n + 'T', (2, 2)), update_mu=bool(f[2]), update_T=bool(f[3]), name=nm),
    NDA=lambda E, n, nm, f: NDA(mu=mat(E, n + 'mu', 2) if f[0] else None, T=mat(E, n + 'T', (2, 2)), name=nm),
    NAP=lambda E, n, nm, f: NAP(U=mat(E, n + 'U', (1, 2)), name=nm),
    MVN=lambda E, n, nm, f: MVN(mu=mat(E, n + 'mu', 2) if f[0] else None, s=E.real(n + 's', 2, lo=0.1, hi=3) if f[1] else None, name=nm),
    Gaussianizer=lambda E, n, nm, f: Gaussianizer(max_vectors=7 if f[0] else None, r=mat(E, n + 'r', (3, 2)), name=nm),
    SbSw=lambda E, n, nm, f: SbSw(Sb=sym(E, n + 'B', 2), Sw=sym(E, n + 'W', 2), mu=mat(E, n + 'mu', 2), num_classes=5, name=nm))
ATTR = ('mu', 'T', 's', 'U', 'r', 'Sb', 'Sw')
OPT = ('update_mu', 'update_T', 'pca_dim', 'lda_dim', 'max_vectors', 'num_classes', 'name')
FLAGS = [(1, 1, 1, 1), (0, 1, 1, 0), (1, 0, 0, 1), (0, 0, 0, 0)]


def same_model(E, a, b):
    E.claim('type', type(a) is type(b))
    for k in OPT:
        E.claim('option', getattr(a, k, None) == getattr(b, k, None), (k, getattr(a, k, None), getattr(b, k, None)))
    for k in ATTR:
        u, v = getattr(a, k, None), getattr(b, k, None)
        E.claim('parameter present', (u is None) == (v is None))
        if u is not None:
            E.claim('shape', u.shape == v.shape)
            E.eq('parameter', u, v, 1e-4)


@harness('P27', configs=[dict(cls=c, nm=nm, f=f) for c in sorted(MAKE) for nm in (None, 'a') for f in FLAGS], patch=patch_h5, text=True, assumptions=H5, bounds='dimension 2; with and without each parameter')
def persistence(E, cls, nm, f):
    t = MAKE[cls](E, '', nm, f)
    p = E.tmp('t.h5')
    t.save(p)
    q = type(t).load(p)
    E.reach()
    same_model(E, q, t)


@harness('P27', configs=[dict(cls=c) for c in ('CentWhiten', 'LNorm', 'PCA', 'LDA', 'NDA', 'NAP', 'Gaussianizer')], patch=patch_h5, text=True, assumptions=H5, bounds='dimension 2')
def matrix_files(E, cls):
    t = MAKE[cls](E, '', None, FLAGS[0])
    p = E.tmp('t.h5')
    t.save_mat(p)
    q = type(t).load_mat(p)
    E.reach()
    for k in ATTR:
        u, v = getattr(q, k, None), getattr(t, k, None)
        E.claim('parameter present', (u is None) == (v is None))
        if u is not None:
            E.eq('parameter', u, v, 1e-4)


CHAINS = [('CentWhiten',), ('CentWhiten', 'LNorm'), ('PCA', 'CentWhiten', 'MVN'), ('MVN', 'NAP'), ('LDA', 'NDA')]


@harness('P27', configs=[dict(c=c, nm=nm, app=app, nest=nest) for c in CHAINS for nm in (None, 'L') for app in (0, 1, 2) for nest in (0, 1) if not (nest and (app or nm is None)) and not (app == 2 and len(c) < 2)], patch=patch_h5, text=True, assumptions=H5,
         bounds='chains of up to 3 transforms of dimension 2, possibly nested, built at once or by appending, saved and loaded twice')
def chain(E, c, nm, app, nest):
    ts = [MAKE[k](E, 'p%d' % i, 't%d' % i, (1, 1 if k != 'LNorm' else 0, 1, 1)) for i, k in enumerate(c)]
    x = mat(E, 'x', (1, 2))
    x0 = x.copy()
    y = x
    if 'LNorm' in c:
        z = apply(E, apply(E, x, ts[0].mu, ts[0].T), ts[1].mu, None)
        E.assume(z[0, 0] * z[0, 0] + z[0, 1] * z[0, 1] > 0.01)
    for t in ts:
        y = t.predict(y)
    names = [('L/' if nm else '') + 't%d' % i for i in range(len(c))]
    if app:
        # from the first or from none
        L = TransformList(ts[:2 - app], name=nm)
        for t in ts[2 - app:]:
            L.append(t)
    else:
        L = TransformList(list(ts) if len(ts) > 1 else ts[0], name=nm)
    if nest:
        L = TransformList([L], name='M')
    E.eq('composition', L.predict(x), y)
    E.same('input', x, x0)

    def check(L):
        M = L
        if nest:
            E.claim('nested', M.name == 'M' and len(M.transforms) == 1 and type(M.transforms[0]) is TransformList)
            M = M.transforms[0]
        E.claim('names', M.name == ('M/L' if nest else nm) and [t.name for t in M.transforms] == names, str([t.name for t in M.transforms]))
        E.claim('classes', [type(t).__name__ for t in M.transforms] == list(c))
        for t, o in zip(M.transforms, ts):
            same_model(E, t, o)
    check(L)
    p = E.tmp('l.h5')
    L.save(p)
    Q = TransformList.load(p)
    check(Q)
    p2 = E.tmp('l2.h5')
    Q.save(p2)
    R = TransformList.load(p2)
    E.reach()
    check(R)
    if E.symbolic:
        E.eq('composition', R.predict(x), y)
