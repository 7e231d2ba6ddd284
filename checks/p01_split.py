"""lists are cut into parts without losing or repeating items"""
from symx.harness import harness, s_and, s_or
import numpy as np
from hyperion.utils.list_utils import split_list, split_list_group_by_key


@harness('P01', configs=[dict(n=n, parts=k) for n in (1, 2, 3, 5, 7, 10) for k in (1, 2, 3, 4, 6, 7)],
         thorough=[dict(n=n, parts=k) for n in range(1, 21) for k in range(1, 13)],
         bounds='up to 10 (thorough 20) items, up to 7 (thorough 12) parts')
def split_is_partition(E, n, parts):
    a = E.atoms('a', n)
    out, locs = [], []
    for i in range(1, parts + 1):
        x, loc = split_list(a, i, parts)
        E.claim('index matches items', len(x) == len(loc))
        out += list(x)
        locs += list(loc)
    E.reach()
    E.same('locs', locs, list(range(n)))
    E.same('items', out, a)


@harness('P01', configs=[dict(lo=i, hi=i + 6, K=66) for i in range(1, 67, 6)], thorough=[dict(lo=i, hi=i + 5, K=150) for i in range(1, 151, 5)],
         bounds='1 to 66 (thorough 150) items in 1 to 66 (150) parts, any items')
def all_boundaries(E, lo, hi, K):
    for n in range(lo, hi):
        a = E.real('a%d' % n, n)
        for parts in range(1, K + 1):
            out, locs = [], []
            for i in range(1, parts + 1):
                x, loc = split_list(a, i, parts)
                out += list(x)
                locs += list(loc)
            if locs != list(range(n)) or any(x is not y for x, y in zip(out, a)) and E.symbolic:
                E.same('locs', locs, list(range(n)))
                E.same('items', out, a)
    E.reach()
    E.same('items', out, a)


@harness('P01', configs=[dict(n=n, parts=k) for n in (1, 3, 4) for k in (1, 2, 3)],
         thorough=[dict(n=n, parts=k) for n in (1, 2, 3, 4, 5) for k in (1, 2, 3, 4)],
         bounds='up to 4 (thorough 5) items with arbitrary keys, up to 3 (4) parts')
def group_split(E, n, parts):
    a = E.atoms('a', n, distinct=True)
    key = E.atoms('k', n)
    part_of = {}
    for i in range(1, parts + 1):
        x, loc = split_list_group_by_key(a, i, parts, key)
        for v, l in zip(x, loc):
            E.same('item', v, a[l])
            E.claim('once', int(l) not in part_of)
            part_of[int(l)] = i
    E.claim('all', sorted(part_of) == list(range(n)))
    E.reach()
    for i in range(n):
        for j in range(n):
            if key[i] == key[j]:
                E.claim('same key same part', part_of[i] == part_of[j])


@harness('P01', configs=[dict(n=n, parts=k) for n in (1, 2, 3, 4) for k in (1, 2, 3)], bounds='up to 4 items, up to 3 parts')
def group_by_item(E, n, parts):
    """without keys, equal items go together"""
    b = E.atoms('b', n)
    own = {}
    for i in range(1, parts + 1):
        x, loc = split_list_group_by_key(b, i, parts)
        for v, l in zip(x, loc):
            E.same('item', v, b[l])
            E.claim('once', int(l) not in own)
            own[int(l)] = i
    E.claim('all', sorted(own) == list(range(n)))
    E.reach()
    for i in range(n):
        for j in range(i):
            if b[i] == b[j]:
                E.claim('equal items same part', own[i] == own[j])
