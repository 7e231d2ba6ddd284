"""mean and variance normalisation of features"""
import argparse
import numpy as np
import scipy.signal
from symx.harness import harness, s_and, s_or
from symx.util import ssqrt, wrap
from hyperion.feats.feature_normalization import MeanVarianceNorm


def patch_conv(env):
    def convolve2d(a, h, mode='full', **k):
        a, h = np.asarray(a, dtype=object), np.asarray(h, dtype=object)
        full = np.zeros((a.shape[0] + h.shape[0] - 1, a.shape[1] + h.shape[1] - 1), dtype=object)
        for i in range(h.shape[0]):
            for j in range(h.shape[1]):
                full[i:i + a.shape[0], j:j + a.shape[1]] += a * h[i, j]
        if mode == 'same':
            r, c = (h.shape[0] - 1) // 2, (h.shape[1] - 1) // 2
            return wrap(full[r:r + a.shape[0], c:c + a.shape[1]])
        assert mode == 'full'
        return wrap(full)
    return dict(extra=[(scipy.signal.convolve2d, convolve2d)])


METHODS = ('normalize', 'normalize_conv', 'normalize_cumsum', 'normalize_slow')
CTX = [(None, None), (0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (None, 0), (0, None), (None, 1), (2, None), (3, 3), (9, 9), (9, 0)]


def window(i, n, l, r):
    return range(0 if l is None else max(0, i - l), n if r is None else min(n, i + r + 1))


@harness('P20', configs=[dict(n=n, d=d, ctx=c, norm_mean=m) for n, d in ((1, 1), (2, 2), (3, 1), (4, 1), (5, 2)) for c in CTX for m in (1, 0)],
         patch=patch_conv, bounds='up to 5 frames of up to 2 features, contexts 0-3, larger than the file and unbounded')
def mean(E, n, d, ctx, norm_mean):
    l, r = ctx
    x = E.real('x', (n, d))
    x0 = x.copy()
    mvn = MeanVarianceNorm(norm_mean=bool(norm_mean), norm_var=False, left_context=l, right_context=r)
    E.reach()
    for m in METHODS:
        y = getattr(mvn, m)(x)
        E.same('input', x, x0)
        E.claim('shape', y.shape == (n, d))
        for j in range(d):
            for i in range(n):
                w = window(i, n, l, r)
                E.eq(m, y[i, j], x[i, j] - (sum(x[k, j] for k in w) / len(w) if norm_mean else 0))


def var(v):
    m = sum(v) / len(v)
    return sum((a - m) * (a - m) for a in v) / len(v)


CV = [dict(n=n, ctx=c, norm_mean=m, method=k) for n in (2, 3) for c in CTX for m in (1, 0) for k in METHODS[1:]]
CVQ = [c for c in CV if c['n'] == 2 or (c['norm_mean'] and c['ctx'] in ((None, None), (1, 0), (1, 1), (None, 1), (9, 0)) and
       not (c['method'] == 'normalize_slow' and c['ctx'] in ((1, 1), (None, 1))))]


@harness('P20', configs=CVQ, thorough=CV, patch=patch_conv, bounds='up to 3 frames of one feature, all contexts, no window at the variance floor')
def mean_and_variance(E, n, ctx, norm_mean, method):
    l, r = ctx
    x = E.real('x', (n, 1))
    v = [x[i, 0] for i in range(n)]
    vg = var(v)
    E.assume(vg >= 0.01)
    E.assume(vg <= 10000)
    cover = (l is None and r is None) or all(len(window(i, n, l, r)) == n for i in range(n))
    vw = []
    for i in range(n):
        w = window(i, n, l, r)
        if not cover and len(w) == 1:
            vw.append(None)          # one frame: floor
            continue
        vw.append(var([v[k] for k in w]))
        if not cover:
            E.assume(vw[i] >= vg * 0.001)
    x0 = x.copy()
    mvn = MeanVarianceNorm(norm_mean=bool(norm_mean), norm_var=True, left_context=l, right_context=r)
    y = getattr(mvn, method)(x)
    E.reach()
    E.same('input', x, x0)
    E.claim('shape', y.shape == (n, 1))
    for i in range(n):
        w = window(i, n, l, r)
        c = v[i] - (sum(v[k] for k in w) / len(w) if norm_mean else 0)
        if vw[i] is None:       # the features have unit variance after the global normalisation
            E.eq('floored', y[i, 0] * y[i, 0] * vg, c * c * 100000, tol=1e-4)
        else:
            E.eq('normalised', y[i, 0] * y[i, 0] * vw[i], c * c, tol=1e-4)
        E.claim('sign', y[i, 0] * c >= 0)


@harness('P20', configs=[dict(n=n, ctx=c, norm_mean=m, method=k) for n in (1, 2, 3) for c in CTX for m in (1, 0) for k in METHODS if c != (9, 9)], patch=patch_conv,
         bounds='up to 3 equal frames: the variance floor keeps the result finite')
def constant_features(E, n, ctx, norm_mean, method):
    c = E.real('c', lo=-30, hi=30)
    x = wrap(np.array([[c]] * n, dtype=object)) if E.symbolic else np.full((n, 1), c)
    mvn = MeanVarianceNorm(norm_mean=bool(norm_mean), norm_var=True, left_context=ctx[0], right_context=ctx[1])
    y = getattr(mvn, method)(x)
    E.reach()
    for i in range(n):
        if norm_mean:
            E.eq('zero', y[i, 0], 0)
        else:
            E.claim('finite', s_and(y[i, 0] >= -10 ** 7, y[i, 0] <= 10 ** 7))


@harness('P20', configs=[dict(prefix=p) for p in (None, 'mvn')], bounds='all option combinations')
def options(E, prefix):
    p = '--' if prefix is None else '--mvn-'
    nm, nv, l, r = E.bool('nm'), E.bool('nv'), E.choice('l', 3), E.choice('r', 3)
    a = (['%sno-norm-mean' % p] if nm else []) + (['%snorm-var' % p] if nv else [])
    a += ['%sleft-context' % p, str(l)] if l else []
    a += ['%sright-context' % p, str(r)] if r else []
    q = argparse.ArgumentParser()
    MeanVarianceNorm.add_argparse_args(q, prefix)
    d = MeanVarianceNorm.filter_args(prefix=prefix, other=3, **vars(q.parse_args(a)))
    E.reach()
    m = MeanVarianceNorm(**d)
    E.claim('options', (m.norm_mean, m.norm_var, m.left_context, m.right_context) == (not nm, bool(nv), l or 300, r or 300))
    e = MeanVarianceNorm(**MeanVarianceNorm.filter_args(prefix=prefix, **{('' if prefix is None else 'mvn_') + 'norm_mean': bool(nm)}))
    E.claim('norm_mean alone', e.norm_mean == bool(nm))
