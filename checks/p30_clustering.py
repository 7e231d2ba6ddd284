"""Clustering: agglomerative merges and their flat clusters, k-means"""
import itertools
import math
import numpy as np
from scipy.cluster.hierarchy import linkage as real_linkage
from symx import symnp
from symx.harness import harness, s_and, s_or
from symx.util import array, zeros
from hyperion.clustering.ahc import AHC
from hyperion.clustering import KMeans

TOL = 1e-6


def naive_linkage(y, method='single', metric='euclidean', optimal_ordering=False):
    """the definition of scipy.cluster.hierarchy.linkage on condensed distances"""
    y = np.asarray(y, dtype=object).ravel()
    n = int(round((1 + math.sqrt(1 + 8 * len(y))) / 2))
    d = {p: y[k] for k, p in enumerate(itertools.combinations(range(n), 2))}
    cl = {i: [i] for i in range(n)}
    Z = []

    def dist(a, b):
        v = [d[min(i, j), max(i, j)] for i in cl[a] for j in cl[b]]
        if method == 'average':
            return sum(v) / len(v)
        r = v[0]
        for e in v[1:]:
            if bool(e < r) if method == 'single' else bool(e > r):
                r = e
        return r
    for s in range(n - 1):
        best = None
        for a, b in itertools.combinations(sorted(cl), 2):
            e = dist(a, b)
            if best is None or bool(e < best[0]):
                best = (e, a, b)
        e, a, b = best
        c = cl.pop(a) + cl.pop(b)
        cl[n + s] = c
        Z.append([a, b, e, len(c)])
    return symnp.arr([v for r in Z for v in r]).reshape(n - 1, 4)


def patch(env):
    return dict(extra=[(real_linkage, naive_linkage)])


ASSUME = ['scipy.cluster.hierarchy.linkage is replaced by its definition in the symbolic runs; the replays run scipy']


def scores(E, N, lo, hi, mask=False):
    s = E.real('s', (N, N), lo=lo, hi=hi)
    p = list(itertools.combinations(range(N), 2))
    for a, b in itertools.combinations(p, 2):
        E.assume(s_or(s[a] > s[b] + 1e-3, s[b] > s[a] + 1e-3))
    return s


def agglomerate(s, method, best):
    """merges of the closest groups: list of (partition, score of the merge)"""
    N = len(s)
    parts = [frozenset([i]) for i in range(N)]
    out = []

    def sim(a, b):
        v = [s[min(i, j), max(i, j)] for i in sorted(a) for j in sorted(b)]
        if method == 'average':
            return sum(v) / len(v)
        r = v[0]
        for e in v[1:]:
            up = bool(e > r)
            if up if (method == 'single') == (best == 'max') else not up:
                r = e
        return r
    while len(parts) > 1:
        bst = None
        for a, b in itertools.combinations(parts, 2):
            v = sim(a, b)
            if bst is None or (bool(v > bst[0]) if best == 'max' else bool(v < bst[0])):
                bst = (v, a, b)
        v, a, b = bst
        parts = [p for p in parts if p not in (a, b)] + [a | b]
        out.append((frozenset(parts), v))
    return out


def partition(lab):
    return frozenset(frozenset(i for i in range(len(lab)) if lab[i] == v) for v in set(lab))


def check_labels(E, nm, lab, N, part):
    lab = [int(v) for v in lab]
    E.claim(nm + ' size', len(lab) == N)
    E.claim(nm + ' labels', sorted(set(lab)) == list(range(len(part))))
    E.claim(nm + ' groups', partition(lab) == part)


RANGE = dict(llr=(-5, 5, 'max'), prob=(0.01, 0.99, 'max'), dist=(0.1, 5, 'min'))


@harness('P30', configs=[dict(metric=m, method=a, N=n, pre=p) for m in ('llr', 'prob', 'dist') for a in ('single', 'complete', 'average') for n in (2, 3, 4) for p in (0, 1) if not (n == 4 and a == 'average' or n == 4 and p)],
         patch=patch, bounds='up to 4 items, pairwise scores that differ', assumptions=ASSUME)
def merges(E, metric, method, N, pre):
    lo, hi, best = RANGE[metric]
    s = scores(E, N, lo, hi)
    old = s.copy()
    m = AHC(method=method, metric=metric)
    m.fit(s)
    want = agglomerate(s, method, best)
    E.reach()
    E.same('input', s, old)
    E.eq('merge scores', m.Z[:, 2], array(E, [v for _, v in want]), TOL)
    if pre:
        m.compute_flat_clusters()
    for k in range(1, N + 2):
        p = frozenset(frozenset([i]) for i in range(N)) if k >= N else want[N - k - 1][0]
        check_labels(E, '%d clusters' % k, m.get_flat_clusters_from_num_clusters(k), N, p)
        check_labels(E, '%d clusters by' % k, m.get_flat_clusters(k, 'num_clusters'), N, p)


@harness('P30', configs=[dict(metric=m, method=a, N=n, pre=p) for m in ('llr', 'prob', 'dist') for a in ('single', 'average') for n in (2, 3) for p in (0, 1)] + [dict(metric='llr', method='single', N=4, pre=0)],
         patch=patch, bounds='up to 4 items, pairwise scores that differ', assumptions=ASSUME)
def threshold(E, metric, method, N, pre):
    lo, hi, best = RANGE[metric]
    s = scores(E, N, lo, hi)
    t = E.real('t', lo=lo - 1, hi=hi + 1)
    m = AHC(method=method, metric=metric)
    m.fit(s)
    want = agglomerate(s, method, best)
    if pre:
        m.compute_flat_clusters()
    for _, v in want:
        E.assume(s_or(v > t + 1e-4, v < t - 1e-4))
    n = sum(1 for _, v in want if (bool(v > t) if best == 'max' else bool(v < t)))
    p = want[n - 1][0] if n else frozenset(frozenset([i]) for i in range(N))
    if method == 'single':
        # the groups are those connected by pairs on the right side of the threshold
        g = {i: i for i in range(N)}
        for i, j in itertools.combinations(range(N), 2):
            if bool(s[i, j] > t) if best == 'max' else bool(s[i, j] < t):
                a, b = g[i], g[j]
                for q in g:
                    if g[q] == b:
                        g[q] = a
        p = partition([g[i] for i in range(N)])
    E.reach()
    check_labels(E, 'by threshold', m.get_flat_clusters(t), N, p)
    check_labels(E, 'by threshold again', m.get_flat_clusters_from_thr(t), N, p)
    for k in range(N - 1):
        # the reported score of a merge allows that merge
        check_labels(E, 'by the score of a merge', m.get_flat_clusters(m.Z[k, 2]), N, want[k][0])


@harness('P30', configs=[dict(N=n) for n in (2, 3, 4)], patch=patch, bounds='up to 4 items, any mask', assumptions=ASSUME)
def masked(E, N):
    """with single linkage masked pairs join nothing"""
    s = E.real('s', (N, N), lo=-5, hi=5)
    t = -6 if N == 4 else E.real('t', lo=-6, hi=6)
    p = list(itertools.combinations(range(N), 2))
    mk = np.ones((N, N), dtype=bool)
    for i, j in p:
        mk[i, j] = True if E.bool('m%d%d' % (i, j)) else False
    if N == 4:
        s = np.ones((N, N))
    else:
        for i, j in p:
            E.assume(s_or(s[i, j] > t + 1e-3, s[i, j] < t - 1e-3))
    old = s.copy()
    m = AHC(method='single')
    m.fit(s, mk)
    g = {i: i for i in range(N)}
    for i, j in p:
        if mk[i, j] and bool(s[i, j] > t):
            a, b = g[i], g[j]
            for q in g:
                if g[q] == b:
                    g[q] = a
    E.reach()
    E.same('input', s, old)
    check_labels(E, 'masked', m.get_flat_clusters(t), N, partition([g[i] for i in range(N)]))


@harness('P30', configs=[dict(n1=a, n2=b) for a in (2, 3) for b in (2, 3)], patch=patch, bounds='up to 3 items before and after', assumptions=ASSUME)
def refit(E, n1, n2):
    """a second fit leaves nothing of the first"""
    m = AHC(method='single')
    m.fit(np.arange(n1 * n1, dtype=float).reshape(n1, n1))
    m.compute_flat_clusters()
    s = scores(E, n2, -5, 5)
    m.fit(s)
    want = agglomerate(s, 'single', 'max')
    E.reach()
    for k in range(1, n2 + 1):
        p = frozenset(frozenset([i]) for i in range(n2)) if k >= n2 else want[n2 - k - 1][0]
        check_labels(E, '%d clusters' % k, m.get_flat_clusters_from_num_clusters(k), n2, p)


def entropy(c):
    n = sum(c)
    return -sum(v / n * math.log(v / n) for v in c if v)


@harness('P30', configs=[dict(N=n) for n in (2, 3)], patch=patch, bounds='up to 3 items in two or more classes', assumptions=ASSUME + ['the entropies of each pair of labelings are compared in floating point'])
def impurity(E, N):
    """impurities of the clusters and of the classes at each level are the conditional entropies over the entropies"""
    s = scores(E, N, -5, 5)
    y = [0] + [E.choice('y%d' % i, min(N, 3)) for i in range(1, N)]
    E.assume(len(set(y)) > 1)
    m = AHC(method='single')
    m.fit(s)
    want = agglomerate(s, 'single', 'max')
    ci, ki = m.evaluate_impurity_det(y)
    E.reach()
    for k in range(N):
        part = list(want[k - 1][0]) if k else [frozenset([i]) for i in range(N)]
        hc = entropy([y.count(v) for v in set(y)])
        hk = entropy([len(p) for p in part])
        joint = entropy([sum(1 for i in p if y[i] == v) for p in part for v in set(y)])
        E.eq('cluster impurity %d' % k, float(ci[k]), (joint - hk) / hc, 1e-6)
        if hk > 1e-9:
            E.eq('class impurity %d' % k, float(ki[k]), (joint - hc) / hk, 1e-6)


@harness('P30', configs=[dict(N=n, K=k) for n in (1, 2, 3, 4) for k in (1, 2, 3) if n < 4 or k < 3], bounds='up to 4 vectors of dimension 1, up to 3 clusters')
def kmeans_predict(E, N, K):
    x, mu = E.real('x', (N, 1), lo=-5, hi=5), E.real('m', (K, 1), lo=-5, hi=5)
    o1, o2 = x.copy(), mu.copy()
    idx, err = KMeans(num_clusters=K, mu=mu).predict(x)
    E.reach()
    E.same('x', x, o1)
    E.same('mu', mu, o2)
    for i in range(N):
        d = [(x[i, 0] - mu[k, 0]) ** 2 for k in range(K)]
        j = int(idx[i])
        E.eq('error %d' % i, err[i], d[j], TOL)
        for k in range(K):
            E.claim('nearest %d %d' % (i, k), d[j] <= d[k] + 1e-9)


@harness('P30', configs=[dict(K=k) for k in (1, 2)], bounds='2 vectors of dimension 2, up to 2 clusters')
def kmeans_predict2(E, K):
    x, mu = E.real('x', (2, 2), lo=-5, hi=5), E.real('m', (K, 2), lo=-5, hi=5)
    idx, err = KMeans(num_clusters=K, mu=mu).predict(x)
    E.reach()
    for i in range(2):
        d = [sum((x[i, q] - mu[k, q]) ** 2 for q in range(2)) for k in range(K)]
        j = int(idx[i])
        E.eq('error %d' % i, err[i], d[j], TOL)
        for k in range(K):
            E.claim('nearest %d %d' % (i, k), d[j] <= d[k] + 1e-9)


@harness('P30', configs=[dict(N=n, K=k, epochs=e, rtol=r) for n, k, e, r in ((2, 1, 2, 0.001), (3, 1, 3, 0.001), (3, 2, 1, 0.001), (3, 2, 2, 0.001), (3, 2, 2, 0), (3, 3, 1, 0.001), (3, 2, 3, 0.5))],
         bounds='up to 3 vectors of dimension 1, 3 clusters and 3 iterations')
def kmeans_fit(E, N, K, epochs, rtol):
    """iterations of centroids of the nearest vectors from the farthest seeds, stopping when the error settles; each vector ends with its nearest center"""
    x = E.real('x', (N, 1), lo=-5, hi=5)
    old = x.copy()
    # the seeds
    sel = [0]
    for k in range(1, K):
        d = [sum((x[i, 0] - x[j, 0]) ** 2 for j in sel) for i in range(N)]
        b = 0
        for i in range(1, N):
            E.assume(s_or(d[i] > d[b] + 1e-3, d[i] < d[b] - 1e-3))
            if bool(d[i] > d[b]):
                b = i
        sel.append(b)
    mu = [x[i, 0] for i in sel]

    def assign(mu):
        out = []
        for i in range(N):
            d = [(x[i, 0] - m) ** 2 for m in mu]
            b = 0
            for k in range(1, K):
                E.assume(s_or(d[k] > d[b] + 1e-4, d[k] < d[b] - 1e-4))
                if bool(d[k] < d[b]):
                    b = k
            out.append((b, d[b]))
        return out
    a = assign(mu)
    losses = []
    for e in range(epochs):
        cnt = [[i for i in range(N) if a[i][0] == k] for k in range(K)]
        E.assume(all(cnt))
        mu = [sum(x[i, 0] for i in c) / len(c) for c in cnt]
        a = assign(mu)
        losses.append(sum(v for _, v in a) / N)
        if e > 0:
            E.assume(losses[-2] > 1e-2)
            dl = losses[-2] - losses[-1]
            E.assume(s_or(dl > rtol * losses[-2] + 1e-4, dl < rtol * losses[-2] - 1e-4) if rtol else dl > -1)
            if rtol and bool(dl < rtol * losses[-2]):
                break
    m = KMeans(num_clusters=K, rtol=rtol)
    loss, idx = m.fit(x, epochs=epochs)
    E.reach()
    E.same('input', x, old)
    E.claim('labels', [int(i) for i in idx] == [b for b, _ in a])
    E.eq('centers', m.mu, array(E, [[v] for v in mu]), TOL)
    E.claim('iterations', len(loss) == len(losses))
    if len(loss) == len(losses):
        E.eq('losses', loss, array(E, losses), TOL)
        for i in range(1, len(loss)):
            E.claim('the loss does not grow', loss[i] <= loss[i - 1] + 1e-9)
