"""detection cost function"""
import numpy as np
from symx.harness import harness, s_and, s_or
from symx.util import slog
from hyperion.metrics.dcf import compute_dcf, compute_min_dcf, compute_act_dcf, fast_eval_dcf_eer
from hyperion.metrics.eer import compute_eer, compute_prbep
from hyperion.metrics.utils import effective_prior


def priors(E, k):
    """k prior probabilities in ascending order (0: one scalar)"""
    if k == 0:
        p = E.real('p', pos=True)
        E.assume(p < 1)
        E.assume(p >= 0.001)
        E.assume(p <= 0.999)
        return p, [p]
    p = E.real('p', k, pos=True)
    for i in range(k):
        E.assume(p[i] >= 0.001)
        E.assume(p[i] <= 0.999)
        if i:
            E.assume(p[i - 1] <= p[i])
    return p, list(p)


def norm(p):
    return p if p < 1 - p else 1 - p


@harness('P17', configs=[dict(n=n, k=k, normalize=z) for n in (1, 2, 3) for k in (0, 1, 2) for z in (0, 1)],
         bounds='up to 3 operating points and 2 priors')
def dcf_formula(E, n, k, normalize):
    pm, pf = E.real('m', n, lo=0, hi=1), E.real('f', n, lo=0, hi=1)
    pm0, pf0 = pm.copy(), pf.copy()
    p, ps = priors(E, k)
    d = compute_dcf(pm, pf, p, normalize=bool(normalize))
    E.claim('shape', np.shape(d) == ((n,) if k == 0 else (k, n)))
    E.reach()
    E.same('input', pm, pm0)
    E.same('input', pf, pf0)
    d = np.asarray(d).reshape(len(ps), n)
    for i, q in enumerate(ps):
        z = norm(q) if normalize else 1
        for j in range(n):
            E.eq('dcf', d[i, j] * z, q * pm[j] + (1 - q) * pf[j])


@harness('P17', bounds='any prior and costs')
def effective_prior_preserves_cost(E):
    p, cm, cf = E.real('p', pos=True), E.real('cm', pos=True), E.real('cf', pos=True)
    E.assume(p < 1)
    q = effective_prior(p, cm, cf)
    E.reach()
    E.claim('probability', s_and(q > 0, q < 1))
    pm, pf = E.real('m', lo=0, hi=1), E.real('f', lo=0, hi=1)
    k = p * cm + (1 - p) * cf
    E.eq('same cost up to scale', k * (q * pm + (1 - q) * pf), p * cm * pm + (1 - p) * cf * pf)


SZ = [dict(nt=a, nn=b, k=k, normalize=z) for a, b in ((1, 1), (1, 2), (2, 1), (2, 2)) for k in (0, 1, 2) for z in (0, 1) if not (a + b == 4 and k == 2)]


@harness('P17', configs=SZ, bounds='up to 2+2 scores, up to 2 priors, any threshold')
def min_dcf(E, nt, nn, k, normalize):
    t, n = E.real('t', nt), E.real('n', nn)
    t0, n0 = t.copy(), n.copy()
    p, ps = priors(E, k)
    d, pm, pf = compute_min_dcf(t, n, p, normalize=bool(normalize))
    E.reach()
    E.same('input', t, t0)
    E.same('input', n, n0)
    E.claim('shape', np.shape(d) == np.shape(pm) == np.shape(pf) == (() if k == 0 else (k,)))
    d, pm, pf = np.atleast_1d(np.asarray(d)), np.atleast_1d(np.asarray(pm)), np.atleast_1d(np.asarray(pf))
    for i, q in enumerate(ps):
        z = norm(q) if normalize else 1
        pts = []
        for th in [None] + list(t) + list(n):
            m = 0 if th is None else sum(1 for x in t if x <= th)
            f = nn if th is None else sum(1 for x in n if x > th)
            pts.append((m, f))
        pts = sorted(set(pts))
        for m, f in pts:
            c = (q * m) / nt + ((1 - q) * f) / nn
            E.claim('no threshold is cheaper', d[i] * z <= c + (0 if E.symbolic else 1e-9))
        E.eq('cost of the reported point', d[i] * z, q * pm[i] + (1 - q) * pf[i])
        E.claim('reported point is a threshold', s_or(*[s_and(close(E, pm[i] * nt, m), close(E, pf[i] * nn, f)) for m, f in pts]))


def close(E, a, b):
    return a == b if E.symbolic else abs(a - b) < 1e-9


@harness('P17', configs=SZ, bounds='up to 2+2 scores, up to 2 priors')
def act_dcf(E, nt, nn, k, normalize):
    t, n = E.real('t', nt), E.real('n', nn)
    t0, n0 = t.copy(), n.copy()
    p, ps = priors(E, k)
    if k == 2 and E.symbolic:      # log is increasing
        E.assume(s_or(ps[0] == ps[1], slog(E, 1 - ps[0]) - slog(E, ps[0]) > slog(E, 1 - ps[1]) - slog(E, ps[1])))
    d, pm, pf = compute_act_dcf(t, n, p, normalize=bool(normalize))
    E.reach()
    E.same('input', t, t0)
    E.same('input', n, n0)
    E.claim('shape', np.shape(d) == (() if k <= 1 else (k,)))
    d, pm, pf = np.atleast_1d(np.asarray(d)), np.atleast_1d(np.asarray(pm)), np.atleast_1d(np.asarray(pf))
    for i, q in enumerate(ps):
        th = slog(E, 1 - q) - slog(E, q)
        m = sum(1 for x in t if x < th)
        f = sum(1 for x in n if x >= th)
        E.eq('misses at the Bayes threshold', pm[i] * nt, m)
        E.eq('false alarms at the Bayes threshold', pf[i] * nn, f)
        E.eq('cost', d[i] * (norm(q) if normalize else 1), (q * m) / nt + ((1 - q) * f) / nn)


@harness('P17', configs=[c for c in SZ if c['k'] < 2], bounds='up to 2+2 scores')
def all_together(E, nt, nn, k, normalize):
    t, n = E.real('t', nt), E.real('n', nn)
    p, ps = priors(E, k)
    mi, ac, eer, prb = fast_eval_dcf_eer(t, n, p, normalize_dcf=bool(normalize))
    E.reach()
    E.eq('min', mi, compute_min_dcf(t, n, p, bool(normalize))[0])
    E.eq('act', ac, compute_act_dcf(t, n, p, bool(normalize))[0])
    E.eq('eer', eer, compute_eer(t, n))
    E.eq('prbep', prb, compute_prbep(t, n))
    a, b = np.atleast_1d(np.asarray(mi)), np.atleast_1d(np.asarray(ac))
    for i in range(len(ps)):
        E.claim('min <= actual', a[i] <= b[i] + (0 if E.symbolic else 1e-9))
