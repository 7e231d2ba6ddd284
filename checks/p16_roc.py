"""ROC, ROC convex hull and equal error rate"""
from fractions import Fraction as Fr
import numpy as np
from symx.harness import harness, s_and, s_or
from symx.util import array
from hyperion.metrics.roc import compute_roc, compute_rocch, rocch2eer, filter_roc, compute_area_under_rocch
from hyperion.metrics.eer import compute_eer, compute_prbep


def scores(E, nt, nn, order=False):
    t, n = E.real('t', nt), E.real('n', nn)
    if order:
        for v in (t, n):
            for i in range(len(v) - 1):
                E.assume(v[i] <= v[i + 1])
    return t, n


def count(v, cond):
    return sum(1 for x in v if cond(x))


def points(t, n):
    """operating points of every threshold: accept scores >= threshold"""
    out = [(Fr(0), Fr(1))]
    al = list(t) + list(n)
    for th in al:          # just above th
        out.append((Fr(count(t, lambda x: x <= th), len(t)), Fr(count(n, lambda x: x > th), len(n))))
    return sorted(set(out), key=lambda p: (p[0], -p[1]))


def hull(pts):
    """lower left convex hull from (0, 1) to (1, 0), in (p_miss, p_fa)"""
    h = []
    for p in pts:
        while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
            h.pop()
        h.append(p)
    return h


def fr(x):
    """exact value of a count ratio (floats when run concretely)"""
    if isinstance(x, (float, np.floating)):
        return Fr(float(x)).limit_denominator(1000)
    return Fr(str(x)) if not isinstance(x, (int, np.integer)) else Fr(int(x))


SZ = [dict(nt=a, nn=b, order=o) for a, b, o in ((1, 1, 0), (1, 2, 0), (2, 1, 0), (2, 2, 0), (3, 1, 1), (1, 3, 1), (3, 2, 1), (2, 3, 1), (3, 3, 1))]
SZT = SZ + [dict(nt=a, nn=b, order=1) for a, b in ((4, 3), (3, 4), (4, 4), (5, 3))]
BT = 'up to 3 target and 3 non-target scores, any values and ties (sorted within a class when more than 4)'


@harness('P16', configs=SZ, thorough=SZT, bounds=BT)
def roc_points(E, nt, nn, order):
    t, n = scores(E, nt, nn, order)
    t0, n0 = t.copy(), n.copy()
    pm, pf = compute_roc(t, n)
    E.reach()
    E.same('input', t, t0)
    E.same('input', n, n0)
    pm, pf = [fr(x) for x in pm], [fr(x) for x in pf]
    E.claim('size', len(pm) == len(pf) == nt + nn + 1)
    E.claim('ends', pm[0] == 0 and pf[0] == 1 and pm[-1] == 1 and pf[-1] == 0)
    E.claim('monotone', all(a <= b for a, b in zip(pm, pm[1:])) and all(a >= b for a, b in zip(pf, pf[1:])))
    E.claim('one trial per point', all((b - a) * nt + (c - d) * nn == 1 for a, b, c, d in zip(pm, pm[1:], pf, pf[1:])))
    got = set(zip(pm, pf))
    for p in points(t, n):
        E.claim('operating point of a threshold', p in got)
    # every point that is no threshold lies between points of the same score: never better than both
    al = points(t, n)
    for p in got:
        E.claim('no point better than every threshold', any(q[0] <= p[0] and q[1] <= p[1] for q in al))


@harness('P16', configs=SZ, thorough=SZT, bounds=BT)
def rocch_is_hull(E, nt, nn, order):
    t, n = scores(E, nt, nn, order)
    t0, n0 = t.copy(), n.copy()
    pm, pf = compute_rocch(t, n)
    E.reach()
    E.same('input', t, t0)
    E.same('input', n, n0)
    got = list(zip([fr(x) for x in pm], [fr(x) for x in pf]))
    pts = points(t, n)
    h = hull(pts)
    E.claim('ends', got[0] == (0, 1) and got[-1] == (1, 0))
    for p in got:
        E.claim('vertex is an operating point', p in pts)
    E.claim('convex hull', hull(got) == h)
    E.claim('vertices in order', all(a[0] <= b[0] and a[1] >= b[1] for a, b in zip(got, got[1:])))
    # error rates from the hull
    eer, prb = line_eer(h), line_eer([(a * nt, b * nn) for a, b in h])
    E.eq('eer', rocch2eer(pm, pf), as_(E, eer))
    E.eq('compute_eer', compute_eer(t, n), as_(E, eer))
    E.eq('prbep', compute_prbep(t, n), as_(E, prb))
    E.claim('eer at most one half', eer <= Fr(1, 2))
    E.same('input', t, t0)


def as_(E, f):
    return float(f) if not E.symbolic else E.const(f) if hasattr(E, 'const') else f


def line_eer(h):
    """where the polyline crosses p_miss = p_fa"""
    for (a, b), (c, d) in zip(h, h[1:]):
        if a <= b and c >= d:
            k = b - a + c - d
            return a if k == 0 else a + (b - a) * (c - a) / k
    raise AssertionError


def curve(E, n):
    """monotone curve from (0, 1) to (1, 0)"""
    a = E.real('a', n, lo=0, hi=1)
    b = E.real('b', n, lo=0, hi=1)
    E.assume(a[0] == 0)
    E.assume(b[0] == 1)
    E.assume(a[n - 1] == 1)
    E.assume(b[n - 1] == 0)
    for i in range(n - 1):
        E.assume(a[i] <= a[i + 1])
        E.assume(b[i] >= b[i + 1])
    return a, b


@harness('P16', configs=[dict(n=n) for n in (2, 3, 4)], thorough=[dict(n=n) for n in (2, 3, 4, 5)], bounds='monotone curves of up to 4 points')
def filter_keeps_curve(E, n):
    a, b = curve(E, n)
    a0, b0 = a.copy(), b.copy()
    x, y = filter_roc(a, b)
    E.reach()
    E.same('input', a, a0)
    E.same('input', b, b0)
    E.claim('sizes', len(x) == len(y) and len(x) >= 2)
    E.same('first', [x[0], y[0]], [a[0], b[0]])
    E.same('last', [x[len(x) - 1], y[len(y) - 1]], [a[n - 1], b[n - 1]])
    m = len(x)
    for i in range(m):
        E.claim('kept points are points of the curve', s_or(*[s_and(x[i] == a[j], y[i] == b[j]) for j in range(n)]))
    for j in range(n):        # every removed point lies on a horizontal or vertical piece
        on = []
        for i in range(m):
            on.append(s_and(x[i] == a[j], y[i] == b[j]))
        for i in range(m - 1):
            on.append(s_and(x[i] == a[j], x[i + 1] == a[j], y[i] >= b[j], b[j] >= y[i + 1]))
            on.append(s_and(y[i] == b[j], y[i + 1] == b[j], x[i] <= a[j], a[j] <= x[i + 1]))
        E.claim('removed points lie on straight pieces', s_or(*on))
    for i in range(m - 1):
        E.claim('order', s_and(x[i] <= x[i + 1], y[i] >= y[i + 1]))
        # and no segment is invented: a diagonal piece joins consecutive points of the curve
        E.claim('piece of the curve', s_or(x[i] == x[i + 1], y[i] == y[i + 1],
                                           *[s_and(x[i] == a[j], y[i] == b[j], x[i + 1] == a[j + 1], y[i + 1] == b[j + 1]) for j in range(n - 1)]))
    if n > 2:      # interior points of straight sections are really removed
        for j in range(1, n - 1):
            E.claim('redundant points removed', s_or(a[j - 1] == a[j], a[j] == a[j + 1], b[j - 1] == b[j], b[j] == b[j + 1],
                                                     *[s_and(x[i] == a[j], y[i] == b[j]) for i in range(m)]))


@harness('P16', configs=[dict(n=n) for n in (2, 3, 4, 5)], bounds='monotone curves of up to 5 points')
def area(E, n):
    a, b = curve(E, n)
    r = compute_area_under_rocch(a, b)
    E.reach()
    E.eq('area', r, sum((a[i + 1] - a[i]) * (b[i] + b[i + 1]) for i in range(n - 1)) / 2)


@harness('P16', configs=[dict(nt=a, nn=b) for a, b in ((1, 1), (2, 1), (2, 2))], bounds='up to 2+2 different scores')
def area_counts_pairs(E, nt, nn):
    t, n = scores(E, nt, nn)
    for x in t:
        for y in n:
            E.assume(x != y)
    pm, pf = compute_roc(t, n)
    E.reach()
    c = sum(1 for x in t for y in n if y > x)
    E.eq('area = probability of wrong order', compute_area_under_rocch(pm, pf), as_(E, Fr(c, nt * nn)))


@harness('P16', configs=[dict(n=n) for n in (0, 1, 2)], bounds='hulls with up to 2 vertices between their ends, anywhere')
def eer_of_hull(E, n):
    """equal error rate of any hull, however flat its segments"""
    m, f = E.real('m', n, lo=0, hi=1), E.real('f', n, lo=0, hi=1)
    P = [(0., 1.)] + [(m[i], f[i]) for i in range(n)] + [(1., 0.)]
    for a, b, c in zip(P[:-2], P[1:-1], P[2:]):
        # misses grow, false alarms decrease, and the slopes flatten
        E.assume(a[0] <= b[0])
        E.assume(b[0] <= c[0])
        E.assume(a[1] >= b[1])
        E.assume(b[1] >= c[1])
        E.assume((b[1] - a[1]) * (c[0] - b[0]) <= (c[1] - b[1]) * (b[0] - a[0]))
        # not the same vertex twice
        E.assume(s_or(b[0] > a[0], b[1] < a[1]))
        E.assume(s_or(c[0] > b[0], c[1] < b[1]))
    pm = array(E, [p[0] for p in P])
    pf = array(E, [p[1] for p in P])
    e = rocch2eer(pm, pf)
    E.reach()
    for a, b in zip(P[:-1], P[1:]):
        # the segment that crosses the diagonal, where misses become more than false alarms
        if bool(a[0] <= a[1]) and bool(b[0] >= b[1]):
            d = (a[1] - a[0]) + (b[0] - b[1])
            if bool(d == 0):
                E.eq('eer', e, a[0], 1e-6)
            else:
                E.eq('eer times', e * d, a[0] * (b[0] - b[1]) + b[0] * (a[1] - a[0]), 1e-6)
