"""PAV, optimal calibration and Cllr"""
from fractions import Fraction as Fr
import numpy as np
from symx.harness import harness, s_and, s_or
from symx.util import slog, sexp
from hyperion.metrics.utils import pavx, opt_loglr
from hyperion.metrics.cllr import compute_cllr, compute_min_cllr


@harness('P18', configs=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)],
         bounds='sequences of up to 4 (5) real values')
def pav_is_isotonic_regression(E, n):
    y = E.real('y', n)
    y0 = y.copy()
    g, w, h = pavx(y)
    E.reach()
    E.same('input', y, y0)
    E.claim('bins', len(w) == len(h) and sum(int(x) for x in w) == n and all(int(x) > 0 for x in w))
    for i in range(n - 1):
        E.claim('nondecreasing', g[i] <= g[i + 1])
    k = 0
    for b in range(len(w)):
        m = int(w[b])
        for i in range(k, k + m):
            E.eq('height', g[i], h[b])
        E.eq('bin average', sum(y[i] for i in range(k, k + m)), h[b] * m)
        for j in range(1, m):       # optimality (Karush-Kuhn-Tucker): averages of the heads are not below the bin average
            E.claim('least squares', sum(y[i] for i in range(k, k + j)) >= h[b] * j - (0 if E.symbolic else 1e-9))
        k += m
        if b:
            E.claim('heights increase', h[b] > h[b - 1])


def ideal(t, n, laplace):
    """PAV posteriors from pooled counts: max-min formula over distinct scores; -> {index: (targets, total)}"""
    al = [(x, 1) for x in t] + [(x, 0) for x in n]
    order = []                     # groups of equal scores, ascending
    for k, (x, l) in enumerate(al):
        p = 0
        while p < len(order) and order[p][0] < x:
            p += 1
        if p < len(order) and order[p][0] == x:
            order[p][1].append(k)
        else:
            order.insert(p, (x, [k]))
    cnt = [(sum(al[i][1] for i in g), len(g)) for _, g in order]
    extra = 0
    if laplace:
        cnt = [(1, 2)] + cnt + [(1, 2)]
        # at the ends one target below and one non-target above everything, merged as equal score pairs
        extra = 1
    res = {}
    m = len(cnt)
    for j in range(m):
        best = None
        for a in range(j + 1):
            lo = None
            for b in range(j, m):
                f = Fr(sum(c[0] for c in cnt[a:b + 1]), sum(c[1] for c in cnt[a:b + 1]))
                lo = f if lo is None or f < lo else lo
            best = lo if best is None or lo > best else best
        if extra <= j < m - extra:
            for i in order[j - extra][1]:
                res[i] = best
    return res


SZ = [dict(nt=a, nn=b) for a, b in ((1, 1), (1, 2), (2, 1), (2, 2))]


@harness('P18', configs=SZ, thorough=SZ + [dict(nt=2, nn=3), dict(nt=3, nn=2)], bounds='up to 2+2 (3+2) scores, any values and ties')
def optimal_llr(E, nt, nn):
    t, n = E.real('t', nt), E.real('n', nn)
    t0, n0 = t.copy(), n.copy()
    a, b = opt_loglr(t, n, 'laplace')
    E.reach()
    E.same('input', t, t0)
    E.same('input', n, n0)
    E.claim('sizes', len(a) == nt and len(b) == nn)
    s, l = list(t) + list(n), list(a) + list(b)
    post = ideal(t, n, True)
    tot = nt + nn
    for i in range(tot):
        for j in range(tot):
            if s[i] < s[j]:
                E.claim('order of the scores kept', l[i] <= l[j])
            elif s[i] == s[j]:
                E.eq('same score, same llr', l[i], l[j])
        rank = sum(1 for x in s if x < s[i])
        p = post[i]
        E.eq('posterior odds over prior odds', l[i], slog(E, E_(E, p)) - slog(E, E_(E, 1 - p)) - slog(E, E_(E, Fr(nt, nn))) + E_(E, Fr(rank, tot * 10 ** 6)))


def E_(E, f):
    from symx.core import const
    return const(f) if E.symbolic else float(f)


@harness('P18', configs=[dict(nt=a, nn=b) for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2))], bounds='up to 3+2 llrs in +-90')
def cllr_formula(E, nt, nn):
    t, n = E.real('t', nt, lo=-90, hi=90), E.real('n', nn, lo=-90, hi=90)
    t0, n0 = t.copy(), n.copy()
    c = compute_cllr(t, n)
    E.reach()
    E.same('input', t, t0)
    E.same('input', n, n0)
    l2 = slog(E, E_(E, Fr(2)))
    E.eq('cllr', c * 2 * l2, sum(slog(E, 1 + sexp(E, -x)) for x in t) / nt + sum(slog(E, 1 + sexp(E, x)) for x in n) / nn)


@harness('P18', configs=[dict(nt=1, nn=1), dict(nt=2, nn=1)], engine=dict(exp_overflow=True), bounds='up to 2+1 llrs in +-1000: no overflow')
def cllr_large(E, nt, nn):
    t, n = E.real('t', nt, lo=-1000, hi=1000), E.real('n', nn, lo=-1000, hi=1000)
    c = compute_cllr(t, n)
    E.reach()
    l2 = slog(E, E_(E, Fr(2)))
    tot = 0
    for v, s, k in ((t, -1, nt), (n, 1, nn)):
        for x in v:
            y = x * s
            tot = tot + (y if y > 100 else slog(E, 1 + sexp(E, y))) / k
    E.eq('cllr', c * 2 * l2, tot)


@harness('P18', configs=[dict(nt=1, nn=1), dict(nt=1, nn=2), dict(nt=2, nn=1), dict(nt=2, nn=2)], bounds='up to 2+2 scores')
def min_cllr(E, nt, nn):
    t, n = E.real('t', nt), E.real('n', nn)
    r, c = E.attempt(lambda: compute_min_cllr(t, n))
    E.reach()
    post = ideal(t, n, False)
    # cost of the posteriors at the effective prior of the data, targets and non-targets weighted equally
    inf = any(post[i] == 0 for i in range(nt)) or any(post[nt + j] == 1 for j in range(nn))
    E.claim('no target gets llr -inf and no non-target +inf', not inf)
    E.claim('defined', not r)
    if r:
        return
    tot = 0
    s = list(t) + list(n)
    for k, (idx, sg, m) in enumerate(((range(nt), -1, nt), (range(nt, nt + nn), 1, nn))):
        for i in idx:
            p = post[i]
            if p in (0, 1):
                continue       # llr is infinite with the right sign: no cost
            rank = sum(1 for x in s if x < s[i])
            l = slog(E, E_(E, p)) - slog(E, E_(E, 1 - p)) - slog(E, E_(E, Fr(nt, nn))) + E_(E, Fr(rank, (nt + nn) * 10 ** 6))
            tot = tot + slog(E, 1 + sexp(E, l * sg)) / m
    E.eq('min cllr', c * 2 * slog(E, E_(E, Fr(2))), tot)
    E.claim('bounded', c <= 1 + 1e-5)
