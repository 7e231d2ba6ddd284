"""Score normalization: cohort statistics, masks, floors and their combinations"""
import numpy as np
from symx.harness import harness, s_and, s_or
from symx.util import ssqrt, wrap, array
from hyperion.score_norm import TNorm, ZNorm, ZTNorm, TZNorm, SNorm, AdaptSNorm

R2 = float(np.sqrt(2))


def mask_of(E, nm, shape, axis, one=False):
    """any mask that leaves something along axis; one: only the last element may be missing"""
    if one:
        m = np.ones(shape, dtype=bool)
        m.flat[-1] = E.bool(nm)
        return m
    m = np.array([E.bool('%s%d' % (nm, i)) for i in range(int(np.prod(shape)))]).reshape(shape) if not E.symbolic else None
    if E.symbolic:
        m = np.array([bool(E.bool('%s%d' % (nm, i))) for i in range(int(np.prod(shape)))]).reshape(shape)
    m = np.array(m, dtype=bool)
    E.assume(bool(np.all(np.any(m, axis=axis))))
    return m


def normal(E, s, c, floor):
    """score s with the statistics of the cohort scores c"""
    n = len(c)
    m = sum(c) / n
    v = sum((a - m) ** 2 for a in c) / n
    d = ssqrt(E, v)
    if bool(d < floor):
        d = floor
    return (s - m) / d


def tn(E, sc, coh, mask, f):
    M, N = sc.shape
    return array(E, [[normal(E, sc[i, j], [coh[k, j] for k in range(len(coh)) if mask is None or mask[k, j]], f) for j in range(N)] for i in range(M)])


def zn(E, sc, coh, mask, f):
    return tn(E, sc.T, coh.T, None if mask is None else mask.T, f).T


def keep(E, *arrs):
    old = [None if a is None else a.copy() for a in arrs]

    def check():
        for a, b in zip(arrs, old):
            if a is not None:
                E.same('input', a, b)
    return check


TOL = 1e-4


@harness('P28', configs=[dict(kind=k, K=K, mask=m, floor=f) for k in 'tz' for K in (1, 2, 3) for m in (0, 1) for f in (None, 0.5)], bounds='up to 2 by 2 trials, cohorts of up to 3')
def one_side(E, kind, K, mask, floor):
    M, N = (1, 2) if kind == 't' else (2, 1)
    if K == 3 and mask:
        M = N = 1
    sc = E.real('s', (M, N), lo=-5, hi=5)
    coh = E.real('c', (K, N) if kind == 't' else (M, K), lo=-5, hi=5)
    m = mask_of(E, 'm', coh.shape, 0 if kind == 't' else 1) if mask else None
    ok = keep(E, sc, coh, m)
    kw = {} if floor is None else dict(std_floor=floor)
    n = TNorm(**kw) if kind == 't' else ZNorm(**kw)
    y = n.predict(sc, coh, m)
    E.reach()
    ok()
    E.claim('shape', y.shape == sc.shape)
    E.eq('normalized', y, (tn if kind == 't' else zn)(E, sc, coh, m, 1e-5 if floor is None else floor), TOL)


@harness('P28', configs=[dict(kind=k, masks=m, floor=f) for k in ('s', 'zt', 'tz') for m in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1)) for f in (None, 0.5) if not (k == 's' and m[2]) and (k == 's' or (f is None) == (not any(m)))], bounds='one trial, cohorts of 2')
def two_sides(E, kind, masks, floor):
    sc = E.real('s', (1, 1), lo=-5, hi=5)
    ct, ec, cc = E.real('ct', (2, 1), lo=-5, hi=5), E.real('ec', (1, 2), lo=-5, hi=5), E.real('cc', (2, 2), lo=-5, hi=5)
    one = sum(masks) > 1
    mt = mask_of(E, 'mt', (2, 1), 0, one) if masks[0] else None
    me = mask_of(E, 'me', (1, 2), 1, one) if masks[1] else None
    mc = mask_of(E, 'mc', (2, 2), 1 if kind == 'zt' else 0, one) if masks[2] else None
    ok = keep(E, sc, ct, ec, cc, mt, me, mc)
    kw = {} if floor is None else dict(std_floor=floor)
    # ZNorm and TNorm are decided by one_side: the others are compositions of them
    z, t = ZNorm(**kw), TNorm(**kw)
    cp = lambda a: None if a is None else a.copy()
    zr = lambda s, c, m: z.predict(cp(s), cp(c), cp(m))
    tr = lambda s, c, m: t.predict(cp(s), cp(c), cp(m))
    if kind == 's':
        want = (zr(sc, ec, me) + tr(sc, ct, mt)) / R2
        y = SNorm(**kw).predict(sc, ct, ec, mt, me)
    elif kind == 'zt':
        want = tr(zr(sc, ec, me), zr(ct, cc, mc), mt)
        y = ZTNorm(**kw).predict(sc, ct, ec, cc, mt, me, mc)
    else:
        want = zr(tr(sc, ct, mt), tr(ec, cc, mc), me)
        y = TZNorm(**kw).predict(sc, ct, ec, cc, mt, me, mc)
    E.reach()
    ok()
    E.claim('shape', y.shape == sc.shape)
    E.eq('normalized', y, want, TOL)


@harness('P28', configs=[dict(M=M, N=N, K=K, nb=nb, nd=nd, mask=m, floor=f) for M, N, K in ((1, 1, 2), (1, 1, 3), (1, 2, 2), (2, 1, 2)) for nb in (1, 2, 5) for nd in (0, 1) for m in (0, 1, 2) for f in (None, 0.5)
                         if not (f and (m or M + N > 2)) and not (K == 3 and (m == 2 or m and nb > 1)) and not (m and M + N > 2)],
         bounds='up to 2 trials, cohorts of up to 3 with distinct scores, up to all of them selected and one discarded')
def adaptive(E, M, N, K, nb, nd, mask, floor):
    f = 1e-5 if floor is None else floor
    sc = E.real('s', (M, N), lo=-5, hi=5)
    ct, ec = E.real('ct', (K, N), lo=-5, hi=5), E.real('ec', (M, K), lo=-5, hi=5)
    for j in range(N):
        for a in range(K):
            for b in range(a):
                E.assume(s_or(ct[a, j] > ct[b, j] + 1e-3, ct[b, j] > ct[a, j] + 1e-3))
    for i in range(M):
        for a in range(K):
            for b in range(a):
                E.assume(s_or(ec[i, a] > ec[i, b] + 1e-3, ec[i, b] > ec[i, a] + 1e-3))
    mt = np.ones((K, N), dtype=bool)
    me = np.ones((M, K), dtype=bool)
    if mask == 1:
        mt[E.choice('k', K), 0] = False
    elif mask == 2:
        me[0, E.choice('k', K)] = False
    st = np.asarray(ct).copy()
    se = np.asarray(ec).copy()
    st[~mt] = -10
    se[~me] = -10
    n = min(nb, K - nd)

    def best(v):
        r = sorted(range(K), key=lambda k: sum(1 for q in range(K) if bool(v[q] > v[k])))
        return r[nd:nd + n]
    want = []
    for i in range(M):
        row = []
        for j in range(N):
            bz = [k for k in best(st[:, j]) if me[i, k]]
            bt = [k for k in best(se[i]) if mt[k, j]]
            E.assume(len(bz) > 0 and len(bt) > 0)
            z = normal(E, sc[i, j], [ec[i, k] for k in bz], f)
            t = normal(E, sc[i, j], [ct[k, j] for k in bt], f)
            row.append((z + t) / R2)
        want.append(row)
    ok = keep(E, sc, ct, ec, mt, me)
    kw = {} if floor is None else dict(std_floor=floor)
    y = AdaptSNorm(nbest=nb, nbest_discard=nd, **kw).predict(sc, ct, ec, mt if mask == 1 else None, me if mask == 2 else None)
    E.reach()
    ok()
    E.claim('shape', y.shape == sc.shape)
    E.eq('normalized', y, array(E, want), TOL)


@harness('P28', configs=[dict(kind=k, K=K) for k in ('t', 'z', 's', 'adapt') for K in (2, 3)], bounds='one trial, cohorts of up to 3 with the same score of 0.1, -1.3, 0.7 or 0.07, any masks, the missing scores unknown')
def constant_cohort(E, kind, K):
    """equal cohort scores: the deviation is the floor, in floating point too"""
    v = (0.1, -1.3, 0.7, 0.07)[E.choice('v', 4)]
    s = np.array([[0.5]])
    ct, ec = np.full((K, 1), v), np.full((1, K), v)
    mt, me = mask_of(E, 'mt', (K, 1), 0, K == 3 and kind == 's'), mask_of(E, 'me', (1, K), 1, K == 3 and kind == 's') if kind not in 'tz' else None
    lost = (0., np.nan, np.inf)[E.choice('lost', 3)]
    ct[~mt] = lost
    if me is not None:
        ec[~me] = lost
    if kind == 't':
        y = TNorm().predict(s, ct, mt)
    elif kind == 'z':
        y = ZNorm().predict(s, ct.T, mt.T)
    elif kind == 's':
        y = SNorm().predict(s, ct, ec, mt, me)
    else:
        E.assume(bool(np.any(mt[:, 0] & me[0])))
        y = AdaptSNorm(nbest=K).predict(s, ct, ec, mt, me)
    E.reach()
    w = (0.5 - v) / 1e-5
    E.claim('floored', bool(np.all(np.isfinite(y))) and abs(float(y[0, 0]) / (w if kind in 'tz' else R2 * w) - 1) < 1e-3)


@harness('P28', configs=[dict(K=K) for K in (2, 3)], bounds='one trial, cohorts of up to 3')
def invariance(E, K):
    """shifting and scaling all the scores leaves the normalized ones"""
    sc = E.real('s', (1, 1), lo=-5, hi=5)
    ct, ec = E.real('ct', (K, 1), lo=-5, hi=5), E.real('ec', (1, K), lo=-5, hi=5)
    E.assume(ct[0, 0] > ct[1, 0] + 0.1)
    E.assume(ec[0, 0] > ec[0, 1] + 0.1)
    a, b = E.real('a', lo=0.5, hi=3), E.real('b', lo=-3, hi=3)
    y = SNorm().predict(sc, ct, ec)
    z = SNorm().predict(a * sc + b, a * ct + b, a * ec + b)
    E.reach()
    E.eq('invariant', y, z, TOL)
