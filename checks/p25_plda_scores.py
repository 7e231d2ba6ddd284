"""PLDA verification scores are the log likelihood ratio of the model"""
import numpy as np
from symx.harness import harness, s_and, s_or
from symx.util import sexp, ssqrt, wrap, array
from symx.pldalib import plda, quad
from hyperion.pdfs.plda.plda_base import PLDABase

CF = [dict(kind='fr', d=1), dict(kind='s', d=1), dict(kind='p', d=1), dict(kind='fr', d=2), dict(kind='s', d=2)]


def check_llr(E, nm, o, s, n1, m1, n2, m2):
    """s: score of the mean m1 of n1 samples against the mean m2 of n2 samples"""
    d = len(m1)
    # difference of the means and pooled mean are independent
    qd, dd = quad(E, m1 - m2, o.Sw * (n1 + n2) / (n1 * n2))
    n = n1 + n2
    qp, dp = quad(E, (m1 * n1 + m2 * n2) / n - o.mu, o.Sb + o.Sw / n)
    q1, d1 = quad(E, m1 - o.mu, o.Sb + o.Sw / n1)
    q2, d2 = quad(E, m2 - o.mu, o.Sb + o.Sw / n2)
    if E.symbolic:
        E.eq(nm, sexp(E, 2 * s + (qd + qp - q1 - q2)) * (dd * dp), d1 * d2)
    else:
        E.eq(nm, s, -0.5 * (qd + qp - q1 - q2) - 0.5 * np.log(dd * dp / d1 / d2))


@harness('P25', configs=CF, bounds='dimension up to 2, one-dimensional factors, 1x2 trials')
def one_to_one(E, kind, d):
    o = plda(E, kind, d)
    p0 = {k: v.copy() for k, v in o.par.items()}
    x1, x2 = E.real('x', (1, d), lo=-3, hi=3), E.real('y', (2 if d == 1 else 1, d), lo=-3, hi=3)
    a, b = x1.copy(), x2.copy()
    s = o.m.llr_1vs1(x1, x2)
    E.reach()
    E.same('input', x1, a)
    E.same('input', x2, b)
    for k, v in o.par.items():
        E.same('model', v, p0[k])
        E.same('model', getattr(o.m, k), p0[k])
    E.claim('shape', s.shape == (1, len(x2)))
    for j in range(len(x2)):
        check_llr(E, 'likelihood ratio', o, s[0, j], 1, x1[0], 1, x2[j])


@harness('P25', configs=[dict(kind=k, n1=n1, n2=n2) for k in ('fr', 's', 'p') for n1, n2 in (((1,), (1,)), ((2,), (1,)), ((1, 2), (4,)), ((2, 1, 2), (1, 2)), ((1,), (2, 1)))],
         bounds='dimension 1, up to 3 enrolled and 2 test classes of up to 4 samples')
def many_to_many(E, kind, n1, n2):
    o = plda(E, kind, 1)
    F1 = E.real('F1', (len(n1), 1), lo=-3, hi=3)
    F2 = E.real('F2', (len(n2), 1), lo=-3, hi=3)
    N1, N2 = np.array(n1, dtype=float), np.array(n2, dtype=float)
    a, b = F1.copy(), F2.copy()
    S = E.real('S', (1, 1))
    s = o.m.llr_NvsM((N1, F1, S), (N2, F2, S), method='book')
    E.reach()
    E.same('statistics', F1, a)
    E.same('statistics', F2, b)
    E.claim('counts', list(N1) == list(n1) and list(N2) == list(n2))
    E.claim('shape', s is not None and s.shape == (len(n1), len(n2)))
    for i in range(len(n1)):
        for j in range(len(n2)):
            check_llr(E, 'likelihood ratio', o, s[i, j], n1[i], F1[i] / n1[i], n2[j], F2[j] / n2[j])


def labels(E, nm, n, k):
    """any labels that use the k classes"""
    ids = np.array([E.choice('%s%d' % (nm, i), k) for i in range(n)])
    E.assume(set(ids.tolist()) == set(range(k)))
    return ids


@harness('P25', configs=[dict(n=n, k=k, w=w, sc=sc) for n, k in ((1, 1), (2, 2), (3, 2), (3, 3)) for w in (0, 1) for sc in (0, 1)], bounds='up to 3 samples of dimension 2, up to 3 classes, weights and scaling')
def class_statistics(E, n, k, w, sc):
    x = E.real('x', (n, 2))
    ids = labels(E, 'c', n, k)
    s = E.real('w', n, lo=0) if w else None
    f = E.real('f', lo=0) if sc else None
    x0, i0 = x.copy(), ids.copy()
    hard = PLDABase.compute_stats_hard(x, ids, sample_weight=s, scal_factor=f)
    p = E.real('p', (n, k), lo=0)
    p0 = p.copy()
    soft = PLDABase.compute_stats_soft(x, p, sample_weight=s, scal_factor=f)
    E.reach()
    E.same('input', x, x0)
    E.same('responsibilities', p, p0)
    E.claim('labels', list(ids) == list(i0))
    for nm, (N, F, S), q in (('hard', hard, [[1 if ids[t] == c else 0 for c in range(k)] for t in range(n)]), ('soft', soft, p)):
        g = [[q[t][c] * (s[t] if w else 1) * (f if sc else 1) for c in range(k)] for t in range(n)]
        E.eq(nm + ' counts', N, [sum(g[t][c] for t in range(n)) for c in range(k)])
        E.eq(nm + ' sums', F, array(E, [[sum(g[t][c] * x[t, i] for t in range(n)) for i in range(2)] for c in range(k)]))
        E.eq(nm + ' second order', S, array(E, [[sum(sum(g[t]) * x[t, i] * x[t, j] for t in range(n)) for j in range(2)] for i in range(2)]))
    mu = E.real('mu', 2)
    C = PLDABase.center_stats(hard, mu)
    want = PLDABase.compute_stats_hard(x - mu, ids, sample_weight=s, scal_factor=f)
    for a, b in zip(C, want):
        E.eq('centered', a, b)


@harness('P25', configs=[dict(m=m, n=n, k=k, lab=lab) for m in ('book', 'vavg', 'savg', 'vavg-lnorm') for n, k in ((2, 1), (2, 2), (3, 2)) for lab in (0, 1) if not (m == 'savg' and not lab) and not (m == 'vavg-lnorm' and n == 3)],
         bounds='SPLDA of dimension 1; up to 3 enrollment samples in up to 2 classes, 2 test samples in 1 class; labels or precomputed statistics')
def multi_session(E, m, n, k, lab):
    o = plda(E, 's', 1)
    x = E.real('x', (n, 1), lo=-3, hi=3)
    t = E.real('t', (2, 1), lo=-3, hi=3)
    ids = labels(E, 'c', n, k)
    cls = [[i for i in range(n) if ids[i] == c] for c in range(k)]
    x0, t0 = x.copy(), t.copy()
    st = PLDABase.compute_stats_hard(x, ids)
    tids = np.array([0, 0])
    if m == 'vavg-lnorm':
        for c in cls:
            E.assume(s_or(sum(x[i, 0] for i in c) > 0.1 * len(c), sum(x[i, 0] for i in c) < -0.1 * len(c)))
        for v in (t[0, 0], t[1, 0], t[0, 0] + t[1, 0]):
            E.assume(s_or(v > 0.2, v < -0.2))
    A = o.m.llr_NvsM(x if lab else st, t if lab else PLDABase.compute_stats_hard(t, tids), ids if lab else None, tids if lab else None, method=m)
    B = o.m.llr_Nvs1(x if lab else st, t, ids if lab else None, method=m)
    E.reach()
    E.same('input', x, x0)
    E.same('input', t, t0)
    E.claim('shape', A.shape == (k, 1) and B.shape == (k, 2))
    if m == 'savg':
        S = o.m.llr_1vs1(x, t)
        E.eq('average score', A, array(E, [[sum(S[i, j] for i in c for j in range(2)) / (2 * len(c))] for c in cls]))
        E.eq('average score', B, array(E, [[sum(S[i, j] for i in c) / len(c) for j in range(2)] for c in cls]))
        return
    mx = [sum(x[i] for i in c) / len(c) for c in cls]
    mt = (t[0] + t[1]) / 2
    if m == 'book':
        for c in range(k):
            check_llr(E, 'several test samples', o, A[c, 0], len(cls[c]), mx[c], 2, mt)
            for j in range(2):
                check_llr(E, 'one test sample', o, B[c, j], len(cls[c]), mx[c], 1, t[j])
        return
    ln = (lambda v: v / (ssqrt(E, v * v) + 1e-10)) if m == 'vavg-lnorm' else (lambda v: v)    # noqa
    mx = array(E, [ln(v) for v in mx])
    E.eq('average vectors', A, o.m.llr_1vs1(mx, array(E, [ln(mt)])))
    E.eq('average vectors', B, o.m.llr_1vs1(mx, array(E, [ln(t[0]), ln(t[1])])))
