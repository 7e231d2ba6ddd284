"""membership, intersection and sorting of lists"""
from symx.harness import harness, s_or, s_and
from symx.util import index, array
import numpy as np
from hyperion.utils.list_utils import ismember, intersect, sort, list2ndarray


@harness('P02', configs=[dict(n=n, m=m) for n, m in ((0, 1), (1, 1), (2, 2), (2, 3), (3, 2), (1, 3), (3, 3), (2, 0))],
         thorough=[dict(n=n, m=m) for n in range(4) for m in range(5)],
         bounds='lists up to 3 (thorough 4) elements with any duplicates')
def membership(E, n, m):
    a, b = E.atoms('a', n), E.atoms('b', m)
    f, loc = ismember(a, b)
    E.claim('sizes', len(f) == n and len(loc) == n)
    E.reach()
    for i in range(n):
        k = index(b, a[i])
        E.claim('flag', bool(f[i]) == (k is not None))
        if k is not None:
            E.claim('first position', int(loc[i]) == k)


@harness('P02', configs=[dict(n=n, m=m, u=u) for n, m in ((1, 1), (2, 2), (2, 3), (3, 2)) for u in (False, True)],
         thorough=[dict(n=n, m=m, u=u) for n in (1, 2, 3) for m in (1, 2, 3, 4) for u in (False, True)],
         bounds='lists up to 3 (thorough 4) elements with any duplicates')
def intersection(E, n, m, u):
    a, b = E.atoms('a', n, distinct=u), E.atoms('b', m, distinct=u)
    c, ia, ib = intersect(a, b, assume_unique=u, return_index=True)
    c2 = intersect(a, b, assume_unique=u)
    E.same('same result with and without index', c2, c)
    for i in range(len(c) - 1):
        E.claim('sorted without repetitions', c[i] < c[i + 1])
    E.claim('index sizes', len(ia) == len(c) and len(ib) == len(c))
    E.reach()
    for i in range(len(c)):
        E.claim('points to a', a[int(ia[i])] == c[i])
        E.claim('points to b', b[int(ib[i])] == c[i])
    for x in a:
        if index(b, x) is not None:
            E.claim('nothing is lost', index(c, x) is not None)


@harness('P02', configs=[dict(n=n, rev=r) for n in (1, 2, 3, 4) for r in (False, True)],
         bounds='up to 4 elements with any duplicates')
def sorting(E, n, rev):
    a = E.atoms('a', n)
    keep = list(a)
    s, idx = sort(a, reverse=rev, return_index=True)
    s2 = sort(a, reverse=rev)
    E.same('input untouched', a, array(E, keep))
    E.same('same order', s, s2)
    E.claim('permutation', sorted(int(i) for i in idx) == list(range(n)))
    E.reach()
    for i in range(n):
        E.claim('index', s[i] == keep[int(idx[i])])
        if i:
            E.claim('ordered', s[i - 1] >= s[i] if rev else s[i - 1] <= s[i])
    l = sort(list(a), reverse=rev, return_index=True)
    E.same('list input', l[0], s)


@harness('P02', configs=[dict(n=n, rev=r) for n in (2, 3) for r in (False, True)], bounds='up to 3 numbers')
def sorting_numbers(E, n, rev):
    a = E.real('a', n)
    s, idx = sort(a, reverse=rev, return_index=True)
    E.claim('permutation', sorted(int(i) for i in idx) == list(range(n)))
    E.reach()
    for i in range(n):
        E.eq('index', s[i], a[int(idx[i])])
        if i:
            E.claim('ordered', s[i - 1] >= s[i] if rev else s[i - 1] <= s[i])
