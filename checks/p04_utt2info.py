"""utt2info tables: every utterance keeps its information fields"""
from symx.harness import harness, s_and, s_or
from symx.util import index, array
import numpy as np
import pandas as pd
from hyperion.utils.utt2info import Utt2Info


def mk(E, p, n, f, distinct=True, info=None):
    key = E.atoms(p + 'k', n, distinct)
    info = np.stack([E.atoms('%si%d' % (p, j), n) for j in range(f)], 1) if info is None else info
    return Utt2Info.create(key, info[:, 0] if f == 1 else info)


def rows(u):
    return [tuple(r) for r in np.asarray(u.utt_info, dtype=object)]


def same_rows(E, u, want):
    got = rows(u)
    E.claim('number of entries', len(got) == len(want) and len(u) == len(want) and u.len() == len(want))
    for a, b in zip(got, want):
        E.same('entry', array(E, list(a)), array(E, list(b)))
    E.same('key', u.key, array(E, [w[0] for w in want]))
    if want:
        w = array(E, [list(w[1:]) for w in want])
        E.same('info', u.info, w[:, 0] if w.shape[1] == 1 else w)
        E.claim('number of fields', u.num_info_fields == w.shape[1])


CF = [dict(n=n, f=f) for n in (1, 2, 3) for f in (1, 2)]
BIG = CF + [dict(n=4, f=f) for f in (1, 2, 3)]


@harness('P04', configs=CF, thorough=BIG, bounds='up to 3 (thorough 4) utterances, up to 2 (3) fields')
def lookup(E, n, f):
    u = mk(E, 'a', n, f)
    r0 = rows(u)
    same_rows(E, u, r0)
    q = E.atoms('q', 1)[0]
    E.reach()
    E.claim('contains', (q in u) == (index(u.key, q) is not None))
    for i, r in enumerate(r0):
        E.claim('position', u.get_index(r[0]) == i)
        v = u[r[0]]
        E.same('by key', array(E, [v] if f == 1 else list(v)), array(E, list(r[1:])))
        k, v = u[i]
        E.same('by position', array(E, [k] + ([v] if f == 1 else list(v))), array(E, list(r)))
    same_rows(E, u.copy(), r0)


@harness('P04', configs=[dict(n=n, f=f, by=b) for n in (1, 2, 3) for f in (1, 2) for b in range(f + 1)],
         bounds='up to 3 utterances, up to 2 fields')
def sort_keeps_entries(E, n, f, by):
    u = mk(E, 'a', n, f)
    r0 = rows(u)
    if E.bool('lookup_before'):
        u.get_index(r0[0][0])
    u.sort(field=by)
    got = rows(u)
    E.claim('size', len(got) == n)
    E.reach()
    for i in range(n - 1):
        E.claim('ascending', got[i][by] <= got[i + 1][by])
    for r in r0:
        k = index([g[0] for g in got], r[0])
        E.same('entry', array(E, list(got[k])), array(E, list(r)))
        E.claim('position', u.get_index(r[0]) == k)
        v = u[r[0]]
        E.same('by key', array(E, [v] if f == 1 else list(v)), array(E, list(r[1:])))


@harness('P04', configs=CF, thorough=BIG, bounds='up to 3 (thorough 4) utterances, every permutation')
def shuffle_keeps_entries(E, n, f):
    u = mk(E, 'a', n, f)
    r0 = rows(u)
    if E.bool('lookup_before'):
        u.get_index(r0[0][0])
    idx = u.shuffle(rng=E.rng())
    E.claim('permutation', sorted(int(i) for i in idx) == list(range(n)))
    E.reach()
    same_rows(E, u, [r0[int(i)] for i in idx])
    for i in range(n):
        E.claim('position', u.get_index(r0[int(idx[i])][0]) == i)


@harness('P04', configs=[dict(n=n, f=f, keep=k) for n in (1, 2, 3) for f in (1, 2) for k in (True, False)],
         bounds='up to 3 utterances, every sub-list of keys in every order, one unknown key')
def filter_by_key(E, n, f, keep):
    u = mk(E, 'a', n, f)
    r0 = rows(u)
    sel = E.bool('sel', n)
    pos = [i for i in range(n) if sel[i]]
    if not pos or (not keep and len(pos) == n):
        return
    pos = [pos[i] for i in E.perm('p', len(pos))]
    r = u.filter(array(E, [r0[i][0] for i in pos]), keep=keep)
    E.reach()
    if keep:
        same_rows(E, r, [r0[i] for i in pos])
    else:
        rest = [r0[i] for i in range(n) if not sel[i]]
        got = rows(r)
        E.claim('number of entries', len(got) == len(rest))
        for w in rest:
            k = index([g[0] for g in got], w[0])
            E.claim('kept', k is not None)
            E.same('entry', array(E, list(got[k])), array(E, list(w)))
    same_rows(E, u, r0)
    if keep:
        q = E.atoms('q', 1)
        bad, _ = E.attempt(lambda: u.filter(q))
        E.claim('unknown key is reported', bad == (index([x[0] for x in r0], q[0]) is None))


@harness('P04', configs=[dict(n=n, f=f, field=b, keep=k) for n in (2, 3) for f in (1, 2) for b in range(1, f + 1)
                         for k in (True, False) if n * f < 6],
         bounds='up to 3 utterances, 1-2 requested values')
def filter_by_info(E, n, f, field, keep):
    u = mk(E, 'a', n, f)
    r0 = rows(u)
    q = E.atoms('q', 1 if n == 3 else E.cint('nq', 1, 2), distinct=True)
    known = [index([r[field] for r in r0], x) is not None for x in q]
    bad, r = E.attempt(lambda: u.filter_info(q, field=field, keep=keep))
    E.reach()
    E.claim('unknown values are reported', bad == (keep and not all(known)))
    if not bad:
        want = [x for x in r0 if (index(q, x[field]) is not None) == keep]
        same_rows(E, r, want)
    same_rows(E, u, r0)


@harness('P04', configs=[dict(n=n, f=f, keep=k) for n in (2, 3) for f in (1, 2) for k in (True, False)],
         bounds='up to 3 utterances, every sub-list of positions in every order')
def filter_by_position(E, n, f, keep):
    u = mk(E, 'a', n, f)
    r0 = rows(u)
    sel = E.bool('sel', n)
    pos = [i for i in range(n) if sel[i]]
    if not pos or (not keep and len(pos) == n):
        return
    pos = [pos[i] for i in E.perm('p', len(pos))]
    r = u.filter_index(np.array(pos), keep=keep)
    E.reach()
    same_rows(E, r, [r0[i] for i in pos] if keep else [r0[i] for i in range(n) if not sel[i]])
    same_rows(E, u, r0)


@harness('P04', configs=[dict(n=n, f=f, parts=p, by=b) for n, p in ((2, 2), (3, 2), (3, 3), (4, 2))
                         for f in (1, 2) for b in range(f + 1) if n < 4 or f == 1],
         bounds='up to 4 utterances, up to 3 parts')
def split_merge(E, n, f, parts, by):
    u = mk(E, 'a', n, f)
    r0 = rows(u)
    ps = [u.split(i + 1, parts, group_by_field=by) for i in range(parts)]
    got = [(j, r) for j, p in enumerate(ps) for r in rows(p)]
    E.claim('no entry lost', len(got) == n)
    E.reach()
    if by == 0:
        for (j, r), w in zip(got, r0):
            E.same('in order', array(E, list(r)), array(E, list(w)))
    else:
        for j, r in got:
            k = index([x[0] for x in r0], r[0])
            E.same('entry', array(E, list(r)), array(E, list(r0[k])))
            for j2, r2 in got:
                if r[by] == r2[by]:
                    E.claim('same value, same part', j == j2)
    same_rows(E, Utt2Info.merge([p for p in ps if len(p)]), [r for j, r in got])
    same_rows(E, u, r0)


@harness('P04', configs=[dict(n=n, f=f) for n in (1, 2) for f in (1, 2)], bounds='2 tables of up to 2 utterances')
def equality(E, n, f):
    a, b = mk(E, 'a', n, f), mk(E, 'b', n, f)
    none = a.filter([])
    E.claim('empty or not', not bool(a == none) and not bool(none == a) and bool(none == b.filter([])))
    eq = bool(a == b)
    E.claim('negation', bool(a != b) == (not eq))
    E.claim('self', bool(a == a.copy()))
    E.reach()
    if eq:
        same_rows(E, a, rows(b))
    else:
        E.claim('different tables differ', s_or(*[x != y for p, q in zip(rows(a), rows(b)) for x, y in zip(p, q)]))


@harness('P04', configs=[dict(n=n, f=f, sep=s) for n in (1, 2, 3) for f in (1, 2) for s in (' ', ',')], text=True,
         bounds='up to 3 utterances, every order of names', assumptions=['text fields are opaque words without separators'])
def text_round_trip(E, n, f, sep):
    p = E.perm('p', n)
    q = [E.choice('q%d' % i, 2) for i in range(n)]
    key = E.words(n)[p]
    info = np.stack([E.words(2, 2 + 4 * j)[q] for j in range(f)], 1)
    u = Utt2Info.create(key, info[:, 0] if f == 1 else info)
    fn = E.tmp('u2i')
    u.save(fn, sep=sep)
    r = Utt2Info.load(fn, sep=sep)
    E.reach()
    E.same('keys', [str(x) for x in r.key], [str(x) for x in key])
    E.same('info', np.asarray(r.info).astype(str).reshape(n, f), info.astype(str))
    for i in range(n):
        v = r[str(key[i])]
        E.same('by key', [v] if f == 1 else list(v), list(info[i]))
