"""confusion matrices and accuracy"""
import io
import numpy as np
import sklearn.metrics
from symx.harness import harness, s_and, s_or
from symx.util import wrap, index
from hyperion.metrics.confusion_matrix import (compute_confusion_matrix, compute_xlabel_confusion_matrix, write_confusion_matrix,
                                               print_confusion_matrix)
from hyperion.metrics.acc import compute_accuracy


def patch_sklearn(env):
    """models of the two scikit-learn functions (compared with the real ones by the concrete runs)"""
    def cm(y_true, y_pred, labels=None, sample_weight=None, normalize=None):
        assert normalize is None
        if len(y_true) != len(y_pred):
            raise ValueError('lengths')
        if labels is None:
            labels = []
            for v in list(y_true) + list(y_pred):
                k = 0
                while k < len(labels) and labels[k] < v:
                    k += 1
                if k == len(labels) or labels[k] != v:
                    labels.insert(k, v)
        labels = list(labels)
        # label -> position: the last position wins, as in a dictionary
        pos = lambda v: max([-1] + [i for i, l in enumerate(labels) if l == v])
        if not any(pos(v) >= 0 for v in y_true):
            raise ValueError('At least one label specified must be in y_true')
        C = np.zeros((len(labels), len(labels)), dtype=object if sample_weight is not None else int)
        for i, (a, b) in enumerate(zip(y_true, y_pred)):
            a, b = pos(a), pos(b)
            if a >= 0 and b >= 0:
                C[a, b] += 1 if sample_weight is None else sample_weight[i]
        return wrap(C)

    def acc(y_true, y_pred, normalize=True, sample_weight=None):
        if len(y_true) != len(y_pred):
            raise ValueError('lengths')
        w = [1] * len(y_true) if sample_weight is None else list(sample_weight)
        s = sum(x for a, b, x in zip(y_true, y_pred, w) if a == b)
        return s / sum(w) if normalize else s
    return dict(extra=[(sklearn.metrics.confusion_matrix, cm), (sklearn.metrics.accuracy_score, acc)])


def labels(E, p, n, text, k=3):
    if text:
        pool = ['a', 'bb', 'ccc', 'd'][:k]
        return np.array([pool[E.choice('%s%d' % (p, i), k)] for i in range(n)])
    return E.typed(E.int(p, -20, 20, shape=n), 'int64')


def count(yt, yp, w, a, b):
    return sum(w[i] for i in range(len(yt)) if yt[i] == a and yp[i] == b)


def uniq(v):
    out = []
    for x in v:
        k = 0
        while k < len(out) and out[k] < x:
            k += 1
        if k == len(out) or out[k] != x:
            out.insert(k, x)
    return out


CF = [dict(n=n, text=t, normalize=z, weights=w) for n in (1, 2, 3) for t in (0, 1) for z in (0, 1) for w in (0, 1) if not (n == 3 and w != z)]
CQ = [c for c in CF if not (c['n'] == 3 and not c['text'])]


@harness('P19', configs=CQ, thorough=CF, patch=patch_sklearn, bounds='up to 3 samples with strings, 2 (thorough: 3) with any integer labels')
def same_labels(E, n, text, normalize, weights):
    yt, yp = labels(E, 'y', n, text), labels(E, 'p', n, text)
    yt0, yp0 = yt.copy(), yp.copy()
    w = E.real('w', n, lo=0.125, hi=8) if weights else None
    given = uniq(list(yt) + list(yp)) if n < 3 and E.bool('given') else None
    if given is not None and E.bool('reverse'):
        given = given[::-1]
    if normalize:        # every class needs a true sample
        L = given or uniq(list(yt) + list(yp))
        if any(index(list(yt), x) is None for x in L):
            return
    C = compute_confusion_matrix(yt, yp, labels=given if given is None or not text else np.array(given), normalize=bool(normalize), sample_weight=w)
    E.reach()
    E.same('input', yt, yt0)
    E.same('input', yp, yp0)
    L = given or uniq(list(yt) + list(yp))
    ww = [1] * n if w is None else list(w)
    E.claim('shape', C.shape == (len(L), len(L)))
    for i, a in enumerate(L):
        z = sum(count(yt, yp, ww, a, c) for c in L) if normalize else 1
        for j, b in enumerate(L):
            E.eq('count', C[i, j] * z, count(yt, yp, ww, a, b))


@harness('P19', configs=CF, patch=patch_sklearn, bounds='up to 3 samples, any integer labels or 3 strings')
def cross_labels(E, n, text, normalize, weights):
    yt, yp = labels(E, 'y', n, text), labels(E, 'p', n, text)
    yt0, yp0 = yt.copy(), yp.copy()
    w = E.real('w', n, lo=0.125, hi=8) if weights else None
    te, tr = uniq(yt), uniq(yp)
    gte = gtr = None
    if n < 3 and E.bool('given'):
        extra = labels(E, 'x', 1, text)[0]
        if index(tr, extra) is None:
            tr = tr + [extra]
        if E.bool('reverse'):
            te, tr = te[::-1], tr[::-1]
        gte, gtr = [np.array(te), np.array(tr)] if text else [E.typed(np.array(x), 'int64') for x in (te, tr)]
    g0 = None if gte is None else (gte.copy(), gtr.copy())
    C = compute_xlabel_confusion_matrix(yt, yp, labels_train=gtr, labels_test=gte, normalize=bool(normalize), sample_weight=w)
    E.reach()
    E.same('input', yt, yt0)
    E.same('input', yp, yp0)
    if g0 is not None:
        E.same('labels', gte, g0[0])
        E.same('labels', gtr, g0[1])
    ww = [1] * n if w is None else list(w)
    E.claim('shape', C.shape == (len(te), len(tr)))
    for i, a in enumerate(te):
        z = sum(count(yt, yp, ww, a, c) for c in tr) if normalize else 1
        for j, b in enumerate(tr):
            E.eq('count', C[i, j] * z, count(yt, yp, ww, a, b))


@harness('P19', configs=[dict(n=n, normalize=z, weights=w) for n in (1, 2, 3) for z in (0, 1) for w in (0, 1)], patch=patch_sklearn, bounds='up to 3 samples')
def accuracy(E, n, normalize, weights):
    yt, yp = labels(E, 'y', n, 0), labels(E, 'p', n, 0)
    w = E.real('w', n, lo=0.125, hi=8) if weights else None
    a = compute_accuracy(yt, yp, normalize=bool(normalize), sample_weight=w)
    E.reach()
    ww = [1] * n if w is None else list(w)
    E.eq('accuracy', a * (sum(ww) if normalize else 1), sum(ww[i] for i in range(n) if yt[i] == yp[i]))


@harness('P19', configs=[dict(r=r, c=c) for r, c in ((1, 1), (2, 2), (2, 3))], bounds='matrices of counts up to 2x3')
def written_table(E, r, c):
    C = np.array([[E.cint('c%d%d' % (i, j), 0, 2) * 12345 for j in range(c)] for i in range(r)])
    rows, cols = ['r%d' % i for i in range(r)], ['a-rather-long-class-name' if j == 0 else 'c%d' % j for j in range(c)]
    f = io.StringIO()
    write_confusion_matrix(f, C, rows, cols)
    E.reach()
    g = io.StringIO()
    import contextlib
    with contextlib.redirect_stdout(g):
        print_confusion_matrix(C, rows, cols)
    E.claim('printed = written', f.getvalue() == g.getvalue())
    ls = f.getvalue().splitlines()
    E.claim('header', ls[0].split() == cols and len(ls) == r + 1)
    for i in range(r):
        x = ls[i + 1].split()
        E.claim('row', x[0] == rows[i] and [float(y) for y in x[1:]] == [float(v) for v in C[i]])
